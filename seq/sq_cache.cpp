// C05: every sequence of requests and cache control operations on one node; results, hits and held frames against an LRU model.
#include "vk.h"
#include <algorithm>
#include <atomic>
#include <list>
#include <unistd.h>
using namespace vk;
using seq::cur;

namespace {
int64_t usedMem() { VSCoreInfo ci; api->getCoreInfo(core, &ci); return ci.usedFramebufferSize; }
struct Session {
    Session(int threads = 1) { newCore(threads); }
    ~Session() {
        for (int i = 0; i < 20000 && usedMem(); i++) usleep(500);
        CHECK(usedMem() == 0, "%lld bytes of frame memory still counted as used at the end", (long long)usedMem());
        dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str());
    }
};
const int FR = 6;
std::atomic<int> calls[FR];
int64_t frameSize;
bool settle(int64_t want) {      // workers let go of a request's references shortly after its completion
    for (int i = 0; i < 4000; i++) { if (usedMem() == want) return true; if (i > 200) usleep(500); else if (i > 20) usleep(20); }
    return false;
}
N makeSource() {
    return source(mkvi(gray(8), 4, 2, FR), [](int n, VSFrame *f) {
        calls[n]++;
        for (int y = 0; y < 2; y++) memset(api->getWritePtr(f, 0) + y * api->getStride(f, 0), n + 50, 4);
        setInt(f, "n", n);
    });
}
void checkContent(const F &f, int n) {
    CHECK(f.w() == 4 && f.h() == 2 && f.propInt("n") == n, "frame %d has number %lld", n, (long long)f.propInt("n"));
    for (int y = 0; y < 2; y++) for (int x = 0; x < 4; x++) CHECK(f.at(0, x, y) == n + 50, "frame %d has the content of frame %d", n, (int)f.at(0, x, y) - 50);
    seq::step();
}
enum Kind { GET, OPT, HIST, CLEAR, CORECLEAR, MODE, LOOSE, FIXONLY };
struct Op { Kind k; int v; };
std::string text(const Op &o) {
    switch (o.k) {
        case GET: return "get(" + std::to_string(o.v) + ")";
        case OPT: return "options(fixed, max=" + std::to_string(o.v) + ")";
        case HIST: return "options(history=" + std::to_string(o.v) + ")";
        case CLEAR: return "clearNodeCache";
        case CORECLEAR: return "clearCoreCaches";
        case LOOSE: return "options(not fixed, max=" + std::to_string(o.v) + ")";
        case FIXONLY: return "options(fixed)";
        default: return "mode(" + std::to_string(o.v) + ")";
    }
}
struct Model {
    bool exact = false;      // the cached set is known exactly
    int mode = cmAuto;
    bool fixed = false;
    int cap = 20;
    std::list<int> lru;      // most recent first
    void trim() { while ((int)lru.size() > cap) lru.pop_back(); }
    bool enabled() const { return mode != cmForceDisable; }
    // largest number of frames the settings allow to be held
    int bound() const { return !enabled() ? 0 : fixed ? cap : FR; }
};
void apply(Model &m, const N &n, const Op &o) {
    switch (o.k) {
    case GET: {
        int before = calls[o.v];
        bool have = std::find(m.lru.begin(), m.lru.end(), o.v) != m.lru.end();
        F f = get(n, o.v);
        checkContent(f, o.v);
        int c = calls[o.v] - before;
        CHECK(c <= 1, "the filter was called %d times for one request", c);
        if (m.exact) {
            bool hit = m.enabled() && have;
            CHECK(c == (hit ? 0 : 1), hit ? "frame %d is cached but the filter was called again" : "frame %d came without calling the filter although it cannot be cached", o.v);
        }
        if (!m.enabled()) CHECK(c == 1, "a disabled cache served frame %d", o.v);
        m.lru.remove(o.v);
        if (m.enabled()) { m.lru.push_front(o.v); m.trim(); }
        break;
    }
    case OPT: api->setCacheOptions(n.p, 1, o.v, -1); m.fixed = true; m.cap = o.v; m.trim(); break;
    case FIXONLY: api->setCacheOptions(n.p, 1, -1, -1); m.fixed = true; break;
    case LOOSE: api->setCacheOptions(n.p, 0, o.v, -1); m.fixed = false; m.cap = o.v; m.exact = false; break;
    case HIST: api->setCacheOptions(n.p, -1, -1, o.v); break;
    case CLEAR: api->clearNodeCache(n.p); m.lru.clear(); if (m.fixed && m.mode == cmForceEnable) m.exact = true; break;
    case CORECLEAR:
        api->clearCoreCaches(core); m.lru.clear(); if (m.fixed && m.mode == cmForceEnable) m.exact = true; break;
    case MODE:
        api->setCacheMode(n.p, o.v); m.mode = o.v; m.fixed = false; m.cap = 20;
        if (!m.enabled()) { m.lru.clear(); m.exact = true; } else m.exact = false;
        break;
    }
    int64_t want = (int64_t)m.lru.size() * frameSize;
    if (m.exact) CHECK(settle(want), "after %s the cache holds %lld frames, expected %d", text(o).c_str(), (long long)(usedMem() / frameSize), (int)m.lru.size());
    else if (!m.enabled() || o.k == CLEAR || o.k == CORECLEAR) CHECK(settle(0), "after %s %lld frames are still held", text(o).c_str(), (long long)(usedMem() / frameSize));
    else if (m.fixed) {
        int64_t u = usedMem();
        for (int i = 0; i < 4000 && u > m.bound() * frameSize; i++) { usleep(500); u = usedMem(); }
        CHECK(u <= m.bound() * frameSize, "after %s the cache holds %lld frames, at most %d are allowed", text(o).c_str(), (long long)(u / frameSize), m.bound());
    }
    seq::step();
}
void runAll(const std::vector<std::vector<Op>> &inits, const std::vector<Op> &ops, int depth) {
    Session s;
    { VSFrame *f; VSVideoFormat g = gray(8); int64_t a = usedMem(); f = api->newVideoFrame(&g, 4, 2, nullptr, core); frameSize = usedMem() - a; api->freeFrame(f); }
    for (auto &init : inits) {
        std::vector<int> ix(depth, 0);
        for (;;) {
            if (seq::item()) {
                std::string d;
                for (auto &o : init) d += text(o) + "; ";
                for (int i : ix) d += text(ops[i]) + "; ";
                cur("%s", d.c_str());
                seq::exec();
                N n = makeSource();
                for (auto &c : calls) c = 0;
                Model m;
                for (auto &o : init) apply(m, n, o);
                if (m.mode == cmForceEnable && m.fixed) m.exact = true;      // nothing was requested yet
                uint64_t h = 1;
                for (int i : ix) {
                    apply(m, n, ops[i]);
                    for (int x : m.lru) h = seq::mix(h, x);
                    h = seq::mix(h, m.cap * 8 + m.mode * 2 + m.fixed);
                    seq::state(h * (m.exact ? 1 : 3));
                }
                n = N();
                CHECK(settle(0), "%lld bytes held after the node was freed", (long long)usedMem());
            }
            int p = depth - 1;
            while (p >= 0 && ++ix[p] == (int)ops.size()) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
}

SEQ_CASE(cacheFixed, "cache_fixed_lru", "C05,C13", true, "force-enabled cache, fixed maximum 0..3: every sequence of 6 (thorough: 8) operations out of get(0..3), maximum 1 or 3, history 0, clear") {
    std::vector<std::vector<Op>> in;
    for (int k = 0; k <= 3; k++) in.push_back({{MODE, cmForceEnable}, {OPT, k}});
    runAll(in, {{GET, 0}, {GET, 1}, {GET, 2}, {GET, 3}, {OPT, 1}, {OPT, 3}, {HIST, 0}, {CLEAR, 0}}, seq::thorough ? 7 : 5);
}
SEQ_CASE(cacheGets, "cache_fixed_requests", "C05,C13", true, "fixed maximum 2 with history 0, 1, 2, 20 and fixed maximum 3: every sequence of 8 (thorough: 9) requests over 4 and 5 frames") {
    runAll({{{MODE, cmForceEnable}, {OPT, 2}, {HIST, 0}}, {{MODE, cmForceEnable}, {OPT, 2}, {HIST, 1}}, {{MODE, cmForceEnable}, {OPT, 2}, {HIST, 2}}, {{MODE, cmForceEnable}, {OPT, 2}}}, {{GET, 0}, {GET, 1}, {GET, 2}, {GET, 3}}, seq::thorough ? 9 : 7);
    runAll({{{MODE, cmForceEnable}, {OPT, 3}, {HIST, 2}}}, {{GET, 0}, {GET, 1}, {GET, 2}, {GET, 3}, {GET, 4}}, seq::thorough ? 8 : 6);
}
SEQ_CASE(cacheModes, "cache_modes", "C05", true, "starting in every mode: every sequence of 4 (thorough: 6) operations out of get, mode auto/disable/enable, fixed and not fixed maximum, clear node, clear core") {
    runAll({{}, {{MODE, cmForceDisable}}, {{MODE, cmForceEnable}}, {{OPT, 2}}},
           {{GET, 0}, {GET, 1}, {GET, 5}, {MODE, cmAuto}, {MODE, cmForceDisable}, {MODE, cmForceEnable}, {OPT, 1}, {LOOSE, 1}, {FIXONLY, 0}, {CLEAR, 0}, {CORECLEAR, 0}}, seq::thorough ? 6 : 5);
}
SEQ_CASE(cacheConsumers, "cache_consumers_seq", "C05,C07", true, "one source with up to two consumers of every request pattern; every sequence of 4 (thorough: 5) requests to source and consumers, consumer removal, mode changes and clears; frames always the same, everything released at the end") {
    Session s;
    { VSFrame *f; VSVideoFormat g = gray(8); int64_t a = usedMem(); f = api->newVideoFrame(&g, 4, 2, nullptr, core); frameSize = usedMem() - a; api->freeFrame(f); }
    auto consumer = [](const N &src, int pattern) {
        struct D { VSNode *n; };
        VSFilterDependency dep = {src.p, pattern};
        VSVideoInfo vi = src.vi();
        return N(api->createVideoFilter2("Consumer", &vi, [](int n, int r, void *inst, void **, VSFrameContext *c, VSCore *, const VSAPI *a) -> const VSFrame * {
            VSNode *src = (VSNode *)inst;
            if (r == arInitial) { a->requestFrameFilter(n, src, c); return nullptr; }
            return r == arAllFramesReady ? a->getFrameFilter(n, src, c) : nullptr;
        }, [](void *inst, VSCore *, const VSAPI *a) { a->freeNode((VSNode *)inst); }, fmParallel, &dep, 1, api->addNodeRef(src.p), core));
    };
    int depth = seq::thorough ? 5 : 4;
    for (int p0 = -1; p0 < 4; p0++) for (int p1 = -1; p1 < 4; p1++) {
        std::vector<int> ix(depth, 0);
        for (;;) {
            if (seq::item()) {
                std::string d = "patterns " + std::to_string(p0) + " " + std::to_string(p1) + ": ";
                static const char *nm[] = {"src.get(0)", "src.get(5)", "c0.get(0)", "c0.get(5)", "c1.get(0)", "free c0", "clear", "mode 0", "mode 1", "mode auto"};
                for (int i : ix) d += std::string(nm[i]) + "; ";
                cur("%s", d.c_str());
                seq::exec();
                N n = makeSource(), c[2];
                for (auto &c : calls) c = 0;
                if (p0 >= 0) c[0] = consumer(n, p0);
                if (p1 >= 0) c[1] = consumer(n, p1);
                int mode = cmAuto;
                for (int i : ix) {
                    int before = calls[0] + calls[5];
                    switch (i) {
                        case 0: checkContent(get(n, 0), 0); break;
                        case 1: checkContent(get(n, 5), 5); break;
                        case 2: if (c[0]) checkContent(get(c[0], 0), 0); break;
                        case 3: if (c[0]) checkContent(get(c[0], 5), 5); break;
                        case 4: if (c[1]) checkContent(get(c[1], 0), 0); break;
                        case 5: c[0] = N(); break;
                        case 6: api->clearCoreCaches(core); CHECK(settle(0), "frames held after clearing all caches"); break;
                        case 7: api->setCacheMode(n.p, cmForceDisable); mode = cmForceDisable; break;
                        case 8: api->setCacheMode(n.p, cmForceEnable); mode = cmForceEnable; break;
                        case 9: api->setCacheMode(n.p, cmAuto); mode = cmAuto; break;
                    }
                    CHECK(calls[0] + calls[5] - before <= 1, "the filter was called more than once for one request");
                    seq::step();
                }
                uint64_t h = seq::mix(p0 * 5 + p1, mode);
                for (int i : ix) h = seq::mix(h, i);
                seq::state(h);
                if (p0 >= 0) c[0] = N();
                n = N();
                if (c[1]) checkContent(get(c[1], 1), 1);
                c[1] = N();
                CHECK(settle(0), "%lld bytes held after all nodes were freed", (long long)usedMem());
            }
            int p = depth - 1;
            while (p >= 0 && ++ix[p] == 10) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
SEQ_CASE(cacheLinear, "cache_linear", "C05,C20", true, "a linear filter that caches the frames it skips over: every sequence of 5 (thorough: 6) requests over 6 frames, modes and options in between are ignored; every frame right, decoder never asked to go back more than needed") {
    Session s;
    struct Lin { int pos = 0; int radius; };
    int depth = seq::thorough ? 6 : 5;
    std::vector<int> ix(depth, 0);
    for (;;) {
        if (seq::item()) {
            std::string d;
            for (int i : ix) d += i < 6 ? "get(" + std::to_string(i) + "); " : i == 6 ? "mode(0); " : "clear; ";
            cur("%s", d.c_str());
            seq::exec();
            VSVideoInfo vi = mkvi(gray(8), 4, 2, FR);
            Lin *l = new Lin;
            N n(api->createVideoFilter2("Linear", &vi, [](int n, int r, void *inst, void **, VSFrameContext *c, VSCore *core, const VSAPI *a) -> const VSFrame * {
                if (r != arInitial) return nullptr;
                Lin *l = (Lin *)inst;
                if (l->pos > n) l->pos = 0;
                const VSFrame *out = nullptr;
                while (l->pos <= n) {
                    VSVideoFormat g; a->queryVideoFormat(&g, cfGray, stInteger, 8, 0, 0, core);
                    VSFrame *f = a->newVideoFrame(&g, 4, 2, nullptr, core);
                    for (int y = 0; y < 2; y++) memset(a->getWritePtr(f, 0) + y * a->getStride(f, 0), l->pos + 50, 4);
                    a->mapSetInt(a->getFramePropertiesRW(f), "n", l->pos, maReplace);
                    if (l->pos == n) out = f;
                    else { a->cacheFrame(f, l->pos, c); a->freeFrame(f); }
                    l->pos++;
                }
                return out;
            }, [](void *inst, VSCore *, const VSAPI *) { delete (Lin *)inst; }, fmUnordered, nullptr, 0, l, core));
            CHECK(api->setLinearFilter(n.p) > 0, "setLinearFilter failed");
            uint64_t h = 7;
            for (int i : ix) {
                if (i < 6) checkContent(get(n, i), i);
                else if (i == 6) api->setCacheMode(n.p, cmForceDisable);
                else api->clearNodeCache(n.p);
                h = seq::mix(h, i); seq::state(h);
            }
            n = N();
            CHECK(settle(0), "frames held after the node was freed");
        }
        int p = depth - 1;
        while (p >= 0 && ++ix[p] == 8) ix[p--] = 0;
        if (p < 0) break;
    }
}
