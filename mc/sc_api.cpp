#include <filesystem>
// Concurrent use of the API outside frame requests: creation/release, formats, plugins, logging, settings, buffer pool.
#include "kit.h"
#include "VSHelper4.h"
using namespace kit;

static void setup1() { core = makeCore(1); }
static void setup2() { core = makeCore(2); }

#define SCENARIO(fn, name, props, setup, flags, qb, tb, cpus, qs, ts) \
    static void fn##Body(); \
    static void fn() { fn##Body(); mc::expectNoLeaks("after everything was released"); } \
    static mc::Registrar fn##Reg({ name, props, setup, fn, flags, qb, tb, cpus, qs, ts }); \
    static void fn##Body()

static std::vector<Req> same(int n) { return { { 0, n } }; }
static Spec source(const char *name, VSFilterMode m, int frames = 4) { Spec s; s.name = name; s.mode = m; s.numFrames = frames; return s; }
static Spec pass(const char *name, VSFilterMode m, int dep, int frames = 4) {
    Spec s; s.name = name; s.mode = m; s.numFrames = frames; s.deps = { dep }; s.reqs = same; return s;
}
static void finish(Graph &g) {
    g.freeNodes();
    size_t n = g.specs.size();
    api->freeCore(core);
    if (numNodesFreed() != (int)n)
        mc::violation("%d of %d filter instances were freed after the last reference was released", numNodesFreed(), (int)n);
    for (auto p : g.insts)
        delete p;
    g.insts.clear();
}

// ---- nodes are created and released while frames are requested and caches swept
static void createWhile_() {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Graph g2; // a private graph, owned by the other thread
    int c = g2.add(source("src2", fmParallel));
    g2.add(pass("pass2", fmParallel, c));
    std::thread t([&] {
        g2.build();
        g2.freeNodes();
    });
    Waiter w(&g);
    w.request(b, 0);
    mc::advanceClock(600000000);
    w.request(b, 1);
    w.wait();
    t.join();
    g.freeNodes();
    api->freeCore(core);
    if (numNodesFreed() != 4)
        mc::violation("%d of 4 filter instances freed", numNodesFreed());
    for (auto p : g.insts) delete p;
    for (auto p : g2.insts) delete p;
}
SCENARIO(createWhile, "create_while_running", "C06,C07", setup2, mc::fDelay, 3, 4, 2, 8, 300) { createWhile_(); }
// the consumer of a shared source goes away on another thread while the source is being used
SCENARIO(dropConsumer, "drop_consumer_while_running", "C06,C07", setup1, mc::fDelay | mc::fClock, 3, 4, 1, 8, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Graph g2;
    int c = g2.add(source("unused", fmParallel));
    (void)c;
    VSVideoInfo vi = *api->getVideoInfo(g.nodes[a]);
    std::thread t([&] {
        VSFilterDependency d = { g.nodes[a], rpStrictSpatial };
        VSNode *x = api->createVideoFilter2("x", &vi, [](int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) -> const VSFrame * { return nullptr; }, nullptr, fmParallel, &d, 1, nullptr, core);
        api->freeNode(x);
    });
    Waiter w(&g);
    w.request(b, 0);
    syncGet(&g, a, 1);
    w.wait();
    t.join();
    finish(g);
}
// reference counts of one node, frame, function and property map changed by two threads
SCENARIO(refCounts, "shared_references", "C06,C07", setup1, 0, 4, 6, 1, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    g.build();
    static int funcFreed;
    funcFreed = 0;
    VSFunction *f = api->createFunction([](const VSMap *, VSMap *out, void *, VSCore *, const VSAPI *vsapi) { vsapi->mapSetInt(out, "val", 5, maReplace); }, nullptr, [](void *) { funcFreed++; }, core);
    VSMap *m = api->createMap();
    api->mapSetNode(m, "n", g.nodes[a], maAppend);
    api->mapSetFunction(m, "f", f, maAppend);
    VSFrame *fr = newFrame(8, 1);
    setStamp(fr, 3);
    api->mapConsumeFrame(m, "r", fr, maAppend);
    auto use = [&](VSMap *src) {
        VSMap *c = api->createMap();
        api->copyMap(src, c);
        VSNode *n = api->mapGetNode(c, "n", 0, nullptr);
        VSFunction *fn = api->mapGetFunction(c, "f", 0, nullptr);
        const VSFrame *q = api->mapGetFrame(c, "r", 0, nullptr);
        if (n != g.nodes[a] || fn != f || stamp(q) != 3)
            mc::violation("copied map lost a value");
        api->mapSetInt(c, "i", 1, maAppend);
        api->mapDeleteKey(c, "n");
        VSMap *in = api->createMap(), *out = api->createMap();
        api->callFunction(fn, in, out);
        if (api->mapGetInt(out, "val", 0, nullptr) != 5)
            mc::violation("function result lost");
        api->freeMap(in);
        api->freeMap(out);
        api->freeFunction(fn);
        api->freeMap(c);
        api->freeFrame(q);
        api->freeNode(n);
    };
    VSMap *m2 = api->createMap();
    api->copyMap(m, m2);
    std::thread t([&] { use(m2); api->freeMap(m2); });
    use(m);
    if (api->mapNumKeys(m) != 3)
        mc::violation("writing to a copy changed the map");
    api->freeMap(m);
    api->freeFunction(f);
    t.join();
    if (funcFreed != 1)
        mc::violation("function freed %d times", funcFreed);
    finish(g);
}
// two threads share one property map storage and write to their copies
SCENARIO(mapDetach, "map_detach", "C06,C09,C07", setup1, 0, 4, 6, 1, 8, 200) {
    VSMap *m = api->createMap();
    for (int i = 0; i < 3; i++)
        api->mapSetInt(m, "a", i, maAppend);
    api->mapSetData(m, "d", "hello", 5, dtUtf8, maReplace);
    VSMap *c1 = api->createMap(), *c2 = api->createMap();
    api->copyMap(m, c1);
    api->copyMap(m, c2);
    auto work = [&](VSMap *c, int v) {
        api->mapSetInt(c, "a", v, maAppend);
        api->mapSetData(c, "d", "x", 1, dtUtf8, maAppend);
        if (api->mapNumElements(c, "a") != 4 || api->mapGetInt(c, "a", 3, nullptr) != v || api->mapNumElements(c, "d") != 2 || strcmp(api->mapGetData(c, "d", 0, nullptr), "hello"))
            mc::violation("map copy has the wrong content");
        for (int i = 0; i < 3; i++)
            if (api->mapGetInt(c, "a", i, nullptr) != i)
                mc::violation("map copy has the wrong content");
    };
    std::thread t([&] { work(c1, 10); api->freeMap(c1); });
    work(c2, 20);
    if (api->mapNumElements(m, "a") != 3 || api->mapNumElements(m, "d") != 1)
        mc::violation("writing to a copy changed the original map");
    api->freeMap(m);
    t.join();
    api->freeMap(c2);
}
// formats are queried and looked up by several threads
SCENARIO(formats, "format_queries", "C06,C11", setup1, 0, 4, 6, 1, 8, 200) {
    auto body = [&](int bits) {
        VSVideoFormat f, g;
        if (!api->queryVideoFormat(&f, cfYUV, stInteger, bits, 3, 1, core))
            mc::violation("valid format refused");
        uint32_t id = api->queryVideoFormatID(cfYUV, stInteger, bits, 3, 1, core);
        if (!id || !api->getVideoFormatByID(&g, id, core) || !vsh::isSameVideoFormat(&f, &g))
            mc::violation("format id does not round-trip");
        char name[64];
        api->getVideoFormatName(&f, name);
        VSAudioFormat af;
        api->queryAudioFormat(&af, stInteger, bits == 9 ? 16 : 24, 3, core);
    };
    std::thread t([&] { body(9); body(11); });
    body(9);
    body(13);
    t.join();
    api->freeCore(core);
}
static void VS_CC nop(const VSMap *in, VSMap *out, void *ud, VSCore *core, const VSAPI *vsapi) {
    vsapi->mapSetInt(out, "r", vsapi->mapGetInt(in, "a", 0, nullptr) + 1, maReplace);
}
// plugins and functions are looked up, enumerated and invoked by several threads
SCENARIO(plugins, "plugin_lookup", "C06,C10", [] { core = makeCore(1); if (VSPlugin *p = api->getPluginByNamespace("text", core)) { (void)p; } }, 0, 3, 4, 1, 8, 200) {
    auto body = [&] {
        int n = 0, nf = 0;
        VSPlugin *last = nullptr;
        for (VSPlugin *p = api->getNextPlugin(nullptr, core); p; p = api->getNextPlugin(p, core)) {
            n++;
            last = p;
            for (VSPluginFunction *f = api->getNextPluginFunction(nullptr, p); f; f = api->getNextPluginFunction(f, p)) {
                nf++;
                if (api->getPluginFunctionByName(api->getPluginFunctionName(f), p) != f)
                    mc::violation("function lookup by name disagrees with enumeration");
            }
        }
        if (!last || api->getPluginByID(api->getPluginID(last), core) != last || api->getPluginByNamespace(api->getPluginNamespace(last), core) != last)
            mc::violation("plugin lookup disagrees with enumeration");
        VSPlugin *std_ = api->getPluginByID("com.vapoursynth.std", core);
        if (!std_)
            mc::violation("std plugin missing");
        VSMap *in = api->createMap();
        VSMap *out = api->invoke(std_, "LoadAllPlugins", in);
        if (!api->mapGetError(out))
            mc::violation("invocation without required argument succeeded");
        api->freeMap(in);
        api->freeMap(out);
        mc::outcome(std::to_string(n) + " plugins " + std::to_string(nf) + " functions");
    };
    std::thread t(body);
    body();
    t.join();
    api->freeCore(core);
}
// a plugin that may be modified gets functions while others look up, enumerate and invoke the ones it has
static VSPlugin *extraPlugin() {
    return api->getPluginByID("com.extra.plugin", core);
}
static void setupFuncs() {
    core = makeCore(1);
    VSMap *in = api->createMap();
    std::string path = (std::filesystem::read_symlink("/proc/self/exe").parent_path() / "libvapoursynthfilters").string();
    api->mapSetData(in, "path", path.c_str(), -1, dtUtf8, maReplace);
    api->mapSetData(in, "forcens", "extra", -1, dtUtf8, maReplace);
    api->mapSetData(in, "forceid", "com.extra.plugin", -1, dtUtf8, maReplace);
    VSMap *out = api->invoke(api->getPluginByID("com.vapoursynth.std", core), "LoadPlugin", in);
    if (api->mapGetError(out) || !extraPlugin() || !api->registerFunction("Mid", "a:int;", "r:int;", nop, nullptr, extraPlugin()))
        mc::violation("a modifiable plugin can't be loaded and extended: %s", api->mapGetError(out) ? api->mapGetError(out) : "");
    api->freeMap(in);
    api->freeMap(out);
}
SCENARIO(registerWhile, "register_while_used", "C06,C10", setupFuncs, 0, 3, 4, 1, 8, 200) {
    VSPlugin *p = extraPlugin();
    std::thread t([&] {
        for (const char *name : {"Added", "Zed"})
            if (!api->registerFunction(name, "a:int;", "r:int;", nop, nullptr, p))
                mc::violation("a modifiable plugin rejects a function");
        if (api->registerFunction("Mid", "a:int;", "r:int;", nop, nullptr, p))
            mc::violation("a name is registered twice");
    });
    VSMap *in = api->createMap();
    api->mapSetInt(in, "a", 4, maReplace);
    VSMap *out = api->invoke(p, "Mid", in);
    if (api->mapGetError(out) || api->mapGetInt(out, "r", 0, nullptr) != 5)
        mc::violation("invoke of a registered function while others are added fails");
    api->freeMap(out);
    out = api->invoke(p, "Zed", in);
    bool found = !api->mapGetError(out);
    if (found && (!api->getPluginFunctionByName("Added", p) || !api->getPluginFunctionByName("Zed", p)))
        mc::violation("a function that has been registered is not found");
    api->freeMap(out);
    int n = 0;
    for (VSPluginFunction *f = api->getNextPluginFunction(nullptr, p); f; f = api->getNextPluginFunction(f, p))
        n++;
    t.join();
    int all = 0;
    for (VSPluginFunction *f = api->getNextPluginFunction(nullptr, p); f; f = api->getNextPluginFunction(f, p))
        all++;
    for (const char *name : {"Added", "Mid", "Zed"}) {
        out = api->invoke(p, name, in);
        if (api->mapGetError(out) || api->mapGetInt(out, "r", 0, nullptr) != 5)
            mc::violation("a registered function can't be invoked");
        api->freeMap(out);
    }
    if (n > all)
        mc::violation("enumeration lists more functions than there are");
    api->freeMap(in);
    api->freeCore(core);
    mc::outcome((found ? "found " : "missing ") + std::to_string(all - n));
}
// cached frames hold the last reference to nodes, which go away together with the frame no matter how the frame leaves the cache
static int heldMade, heldFreed;
static void VS_CC heldFree(void *, VSCore *, const VSAPI *) { heldFreed++; }
static const VSFrame *VS_CC heldFrame(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) {
    mc::violation("filter called although nobody requested a frame from it");
}
static void heldBody(bool consumer) {
    heldMade = heldFreed = 0;
    Graph g;
    Spec s = source("src", fmParallel, 6);
    s.cacheMode = 1;
    s.dress = [&](int n, VSFrame *f) {
        VSVideoInfo vi = *api->getVideoInfo(g.nodes[0]);
        VSFilterDependency d = { g.nodes[0], rpGeneral };
        heldMade++;
        api->mapConsumeNode(api->getFramePropertiesRW(f), "held", api->createVideoFilter2("held", &vi, heldFrame, heldFree, fmParallel, &d, consumer ? 1 : 0, nullptr, core), maReplace);
    };
    int a = g.add(s);
    g.build();
    unsigned op = mc::choose(7, 0, "how frames leave the cache");
    if (op == 0)
        api->setCacheOptions(g.nodes[a], 1, 1, 0);
    Waiter w(&g);
    w.request(a, 0);
    w.request(a, 1);
    w.wait();
    w.request(a, 2);
    switch (op) {
    case 1: api->clearNodeCache(g.nodes[a]); break;
    case 2: api->setCacheMode(g.nodes[a], 0); break;
    case 3: api->setCacheOptions(g.nodes[a], 1, 0, 0); break;
    case 4: api->clearCoreCaches(core); break;
    case 5: api->setMaxCacheSize(1, core); break;
    case 6:
        for (int i = 0; i < 3; i++) {
            mc::advanceClock(600000000);
            w.request(a, 3 + (i & 1));
        }
        break;
    }
    w.wait();
    mc::quiesce();
    api->clearCoreCaches(core);
    mc::quiesce();
    if (heldFreed != heldMade)
        mc::violation("%d of %d nodes that only cached frames referred to were freed with the frames", heldFreed, heldMade);
    mc::outcome(std::to_string(op) + " " + std::to_string(heldMade));
    finish(g);
}
SCENARIO(cachedRefs, "cached_node_references", "C07,C06,C05", setup1, mc::fDelay, 3, 4, 1, 10, 300) { heldBody(false); }
SCENARIO(cachedConsumers, "cached_consumer_references", "C07,C06,C05", setup1, mc::fDelay, 3, 4, 1, 10, 300) { heldBody(true); }
// frames that carry the last reference to a node are released by the worker threads; the node's free function uses the core
static void heldFreeCore(void *, VSCore *c, const VSAPI *) {
    VSCoreInfo2 ci;
    api->getCoreInfo2(c, &ci);
    heldFreed++;
}
static void setupSmall2() { core = makeCore(2, 200); }
static void droppedBody(bool fail) {
    heldMade = heldFreed = 0;
    Graph g;
    int mode = (int)mc::choose(2, 0, "cache");
    Spec s = source("src", fmParallel, 6);
    s.cacheMode = mode;
    s.dress = [&](int, VSFrame *f) {
        VSVideoInfo vi = *api->getVideoInfo(g.nodes[0]);
        heldMade++;
        api->mapConsumeNode(api->getFramePropertiesRW(f), "held", api->createVideoFilter2("held", &vi, heldFrame, heldFreeCore, fmParallel, nullptr, 0, nullptr, core), maReplace);
    };
    int a = g.add(s);
    Spec p = pass("pass", fmParallel, a, 6);
    p.cacheMode = mode;
    if (fail)
        p.fail = [](int n) { return n == 1 ? 2 : 0; };
    int b = g.add(p);
    int c = g.add(pass("last", fmFrameState, b, 6));
    g.build();
    Waiter w(&g);
    w.request(c, 0);
    w.request(c, 1);
    w.request(a, 2);
    w.wait();
    mc::quiesce();
    api->clearCoreCaches(core);
    mc::quiesce();
    if (heldFreed != heldMade)
        mc::violation("%d of %d nodes that only frames referred to were freed with the frames", heldFreed, heldMade);
    finish(g);
}
SCENARIO(droppedRefs, "dropped_frame_references", "C07,C06,C01", setup1, mc::fDelay, 3, 4, 1, 10, 300) { droppedBody(false); }
SCENARIO(droppedErrors, "dropped_frame_errors", "C07,C06,C01", setup2, mc::fDelay, 2, 3, 2, 10, 300) { droppedBody(true); }
SCENARIO(droppedFlush, "dropped_frames_in_flush", "C07,C06,C04", setupSmall2, mc::fClock | mc::fDelay, 2, 3, 2, 10, 300) { droppedBody(false); }
// thread count, memory limit, node timing and core information are changed and read while frames are processed
SCENARIO(settings, "settings_while_running", "C06", setup2, mc::fDelay, 3, 4, 2, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    api->setCoreNodeTiming(core, 1);
    if (api->setThreadCount(3, core) != 3)
        mc::violation("setThreadCount did not return the count");
    VSCoreInfo2 ci;
    api->getCoreInfo2(core, &ci);
    if (ci.numThreads != 3)
        mc::violation("core information has the wrong thread count");
    if (api->setMaxCacheSize(1 << 24, core) != 1 << 24)
        mc::violation("setMaxCacheSize did not return the limit");
    api->getNodeProcessingTime(g.nodes[b], 1);
    api->getFreedNodeProcessingTime(core, 0);
    syncGet(&g, b, 2);
    api->setCoreNodeTiming(core, 0);
    w.wait();
    finish(g);
}
// cores are created and destroyed by two threads (shared statics, plugin loading)
SCENARIO(twoCores, "two_cores", "C06,C07", [] { api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION); }, mc::fDelay | mc::fNoLeak, 2, 3, 1, 8, 200) {
    auto body = [] {
        VSCore *c = api->createCore(ccfDisableAutoLoading);
        VSVideoFormat f;
        api->queryVideoFormat(&f, cfYUV, stInteger, 9, 1, 1, c);
        api->freeCore(c);
    };
    std::thread t(body);
    body();
    t.join();
}

// ---- logging (C12)
struct Handler {
    std::vector<std::string> got;
    int freed = 0;
    int depth = 0;
    bool relog = false;
};
static void VS_CC onLog(int type, const char *msg, void *u) {
    Handler *h = static_cast<Handler *>(u);
    __tsan_write8(&h->depth);
    if (h->freed)
        mc::violation("log handler called after its free function");
    h->got.push_back(std::to_string(type) + msg);
    if (h->relog && msg[0] != 'n') {
        std::string s = std::string("n") + msg;
        api->logMessage(mtDebug, s.c_str(), core);
    }
}
static void VS_CC onLogFree(void *u) {
    Handler *h = static_cast<Handler *>(u);
    __tsan_write8(&h->depth);
    h->freed++;
}
static void setupNoLog() {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    core = api->createCore(ccfDisableAutoLoading);
}
static bool inOrder(const std::vector<std::string> &v, std::initializer_list<const char *> want) {
    auto i = v.begin();
    for (auto w : want) {
        while (i != v.end() && *i != w)
            ++i;
        if (i == v.end())
            return false;
        ++i;
    }
    return true;
}
static std::string joined(const std::vector<std::string> &v) {
    std::string s;
    for (auto &x : v)
        s += x + " ";
    return s;
}
SCENARIO(logAdd, "log_add_concurrent", "C12,C06", setupNoLog, 0, 4, 6, 1, 8, 200) {
    Handler h;
    std::thread t([&] { api->logMessage(mtWarning, "t1", core); api->logMessage(mtCritical, "t2", core); });
    api->logMessage(mtInformation, "m1", core);
    api->addLogHandler(onLog, onLogFree, &h, core);
    api->logMessage(mtDebug, "m2", core);
    t.join();
    if (h.got.size() != 4 || !inOrder(h.got, { "1m1", "0m2" }) || !inOrder(h.got, { "2t1", "3t2" }))
        mc::violation("handler received: %s", joined(h.got).c_str());
    mc::outcome(joined(h.got));
    api->freeCore(core);
    if (h.freed != 1)
        mc::violation("log handler freed %d times", h.freed);
}
SCENARIO(logTwoHandlers, "log_two_handlers", "C12,C06", setupNoLog, 0, 4, 6, 1, 8, 200) {
    Handler h, k;
    k.relog = true;
    api->logMessage(mtInformation, "m0", core);
    std::thread t([&] {
        VSLogHandle *l = api->addLogHandler(onLog, onLogFree, &h, core);
        api->logMessage(mtWarning, "t1", core);
        if (!api->removeLogHandler(l, core))
            mc::violation("removeLogHandler failed for a registered handler");
        if (h.freed != 1)
            mc::violation("log handler freed %d times on removal", h.freed);
        // the removed handler's memory may be reused now
    });
    VSLogHandle *l2 = api->addLogHandler(onLog, onLogFree, &k, core);
    api->logMessage(mtDebug, "m1", core);
    t.join();
    auto cnt = [](Handler &x, const char *m) { int n = 0; for (auto &s : x.got) n += s == m; return n; };
    if (cnt(h, "1m0") + cnt(k, "1m0") != 1)
        mc::violation("stored message delivered %d times", cnt(h, "1m0") + cnt(k, "1m0"));
    if (cnt(h, "2t1") != 1)
        mc::violation("own message delivered %d times", cnt(h, "2t1"));
    if (cnt(k, "0m1") != 1 || cnt(k, "0nm1") != 1)
        mc::violation("message or nested message lost: %s", joined(k.got).c_str());
    if (cnt(k, "2t1") > 1 || cnt(h, "0m1") > 1)
        mc::violation("message delivered twice");
    mc::outcome(joined(h.got) + "| " + joined(k.got));
    api->removeLogHandler(l2, core);
    if (k.freed != 1)
        mc::violation("log handler freed %d times on removal", k.freed);
    api->freeCore(core);
    if (h.freed != 1 || k.freed != 1)
        mc::violation("log handler freed again");
}
// messages logged by filters on worker threads
SCENARIO(logFilter, "log_from_filters", "C12,C06", setup2, mc::fDelay, 3, 4, 2, 8, 200) {
    Handler h;
    VSLogHandle *l = api->addLogHandler(onLog, onLogFree, &h, core);
    Graph g;
    Spec s = source("src", fmParallel);
    s.hook = [&](int n, int) { api->logMessage(mtInformation, ("f" + std::to_string(n)).c_str(), core); };
    int a = g.add(s);
    g.build();
    Waiter w(&g);
    w.request(a, 0);
    w.request(a, 1);
    api->logMessage(mtInformation, "main", core);
    w.wait();
    for (auto m : { "1f0", "1f1", "1main" }) {
        int n = 0;
        for (auto &x : h.got)
            n += x == m;
        if (n != 1)
            mc::violation("message %s delivered %d times", m, n);
    }
    api->removeLogHandler(l, core);
    finish(g);
}

// ---- frame buffer pool (C13)
static VSFrame *big(int kb) {
    VSVideoFormat f;
    api->queryVideoFormat(&f, cfGray, stInteger, 8, 0, 0, core);
    return api->newVideoFrame(&f, 1024, kb, nullptr, core);
}
static void fill(VSFrame *f, uint64_t v) {
    uint8_t *p = api->getWritePtr(f, 0);
    size_t n = (size_t)api->getStride(f, 0) * api->getFrameHeight(f, 0);
    __tsan_write_range(p, n);
    for (size_t i = 0; i + 8 <= n; i += 512)
        memcpy(p + i, &v, 8);
}
static void verify(const VSFrame *f, uint64_t v) {
    const uint8_t *p = api->getReadPtr(f, 0);
    size_t n = (size_t)api->getStride(f, 0) * api->getFrameHeight(f, 0);
    __tsan_read_range((void *)p, n);
    for (size_t i = 0; i + 8 <= n; i += 512)
        if (memcmp(p + i, &v, 8))
            mc::violation("content of a live frame buffer was overwritten");
}
static int64_t used() {
    VSCoreInfo2 ci;
    api->getCoreInfo2(core, &ci);
    return ci.usedFramebufferSize;
}
SCENARIO(poolTwo, "pool_two_threads", "C13,C06", setup1, 0, 4, 6, 1, 10, 200) {
    auto body = [&](uint64_t v) {
        VSFrame *a = big(1100);
        fill(a, v);
        VSFrame *b = big(1050);
        fill(b, v + 1);
        verify(a, v);
        api->freeFrame(a);
        VSFrame *c = big(1080);
        fill(c, v + 2);
        verify(b, v + 1);
        verify(c, v + 2);
        api->freeFrame(b);
        api->freeFrame(c);
    };
    std::thread t([&] { body(100); });
    body(200);
    t.join();
    if (used() != 0)
        mc::violation("%lld bytes still accounted after every frame was released", (long long)used());
    api->freeCore(core);
}
SCENARIO(poolLimit, "pool_limit_change", "C13,C06", setup1, 0, 4, 6, 1, 10, 200) {
    std::thread t([&] {
        for (int i = 0; i < 2; i++) {
            VSFrame *a = big(1100);
            fill(a, 5 + i);
            verify(a, 5 + i);
            api->freeFrame(a);
        }
    });
    VSFrame *a = big(1050), *b = big(1050);
    api->freeFrame(a);
    api->setMaxCacheSize(1 << 20, core);
    fill(b, 9);
    api->freeFrame(b);
    api->setMaxCacheSize(4 << 20, core);
    t.join();
    if (used() != 0)
        mc::violation("%lld bytes still accounted after every frame was released", (long long)used());
    api->freeCore(core);
}
