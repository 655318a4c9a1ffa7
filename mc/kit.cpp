#include "kit.h"

namespace mc { void noteFatal(const char *); }

namespace kit {
const VSAPI *api;
VSCore *core;
int64_t fatalCount;
static int g_freed;

uint64_t mixv(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b;
    x ^= x >> 31;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29;
    return x;
}

uint64_t stamp(const VSFrame *f) {
    const uint8_t *p = api->getReadPtr(f, 0);
    __tsan_read_range((void *)p, 8);
    uint64_t v;
    memcpy(&v, p, 8);
    return v;
}
void setStamp(VSFrame *f, uint64_t v) {
    uint8_t *p = api->getWritePtr(f, 0);
    __tsan_write_range(p, 8);
    memcpy(p, &v, 8);
}
VSFrame *newFrame(int w, int h) {
    VSVideoFormat fmt;
    api->queryVideoFormat(&fmt, cfGray, stInteger, 8, 0, 0, core);
    return api->newVideoFrame(&fmt, w, h, nullptr, core);
}

int Graph::add(const Spec &s) {
    specs.push_back(s);
    return (int)specs.size() - 1;
}

static std::string failMsg(int node, int n) { return "E" + std::to_string(node) + ":" + std::to_string(n); }

static int clampn(const Graph *g, int node, int n) { return std::min(n, g->specs[node].numFrames - 1); }

uint64_t Graph::expected(int node, int n) const {
    n = clampn(this, node, n);
    const Spec &s = specs[node];
    uint64_t v = mixv(node + 1, n);
    if (!s.reqs)
        return v;
    auto r = s.reqs(n);
    if (s.passThrough)
        return expected(s.deps[r[0].dep], r[0].n);
    for (auto &q : r)
        v = mixv(v, expected(s.deps[q.dep], q.n));
    if (s.reqs2)
        for (auto &q : s.reqs2(n))
            v = mixv(v, expected(s.deps[q.dep], q.n));
    return v;
}

std::set<std::string> Graph::errors(int node, int n) const {
    n = clampn(this, node, n);
    const Spec &s = specs[node];
    std::set<std::string> e;
    if (s.fail && s.fail(n) == 1)
        return { failMsg(node, n) };
    if (s.reqs)
        for (auto &q : s.reqs(n))
            e.merge(errors(s.deps[q.dep], q.n));
    if (!e.empty())
        return e;
    if (s.reqs2)
        for (auto &q : s.reqs2(n))
            e.merge(errors(s.deps[q.dep], q.n));
    if (!e.empty())
        return e;
    if (s.fail && s.fail(n) == 2)
        return { failMsg(node, n) };
    return {};
}

struct CallScope {
    Inst *in;
    bool ready;
    CallScope(Inst *in, int n, int ar, Ctx *c) : in(in), ready(ar != arInitial) {
        const Spec &s = in->g->specs[in->id];
        if (s.mode == fmUnordered && in->active)
            mc::violation("fmUnordered filter %s entered concurrently (frame %d)", s.name.c_str(), n);
        if (s.mode == fmFrameState && in->active)
            mc::violation("fmFrameState filter %s entered concurrently (frame %d)", s.name.c_str(), n);
        if (s.mode == fmParallelRequests && ready && in->readyActive)
            mc::violation("fmParallelRequests filter %s processes two frames at once (frame %d)", s.name.c_str(), n);
        in->active++;
        if (ready)
            in->readyActive++;
        // what a single-threaded filter would do: touch unprotected instance state
        if (s.mode == fmUnordered || s.mode == fmFrameState || (s.mode == fmParallelRequests && ready))
            __tsan_write8(&in->scratch);
    }
    ~CallScope() {
        const Spec &s = in->g->specs[in->id];
        if (s.mode == fmUnordered || s.mode == fmFrameState || (s.mode == fmParallelRequests && ready))
            __tsan_write8(&in->scratch);
        in->active--;
        if (ready)
            in->readyActive--;
    }
};

static const VSFrame *VS_CC filterGetFrame(int n, int ar, void *instanceData, void **frameData, VSFrameContext *fc, VSCore *core, const VSAPI *vsapi) {
    Inst *in = static_cast<Inst *>(instanceData);
    Graph *g = in->g;
    const Spec &s = g->specs[in->id];
    if (in->freed)
        mc::violation("filter %s called after its free function", s.name.c_str());
    if ((n < 0 || n >= s.numFrames) && ar == arError && !*frameData)
        return nullptr; // a request outside the clip that never started
    if (n < 0 || n >= s.numFrames)
        mc::violation("filter %s asked for frame %d outside its clip of %d frames", s.name.c_str(), n, s.numFrames);
    Ctx *c = static_cast<Ctx *>(*frameData);
    if (ar == arInitial) {
        if (c)
            mc::violation("filter %s frame %d: arInitial delivered twice for one request", s.name.c_str(), n);
    } else {
        if (!c)
            mc::violation("filter %s frame %d: activation %d without a preceding arInitial", s.name.c_str(), n, ar);
        if (c->n != n || c->frameCtx != fc)
            mc::violation("filter %s frame %d: frame data belongs to another request", s.name.c_str(), n);
        if (c->inCall)
            mc::violation("filter %s frame %d: one request entered from two threads", s.name.c_str(), n);
        if (ar != arAllFramesReady && ar != arError)
            mc::violation("filter %s frame %d: unknown activation reason %d", s.name.c_str(), n, ar);
    }
    CallScope scope(in, n, ar, c);
    if (s.mode == fmFrameState) {
        if (in->frameStateOwner && in->frameStateOwner != fc)
            mc::violation("fmFrameState filter %s: frame %d started while another frame is in progress", s.name.c_str(), n);
        in->frameStateOwner = fc;
    }
    if (s.hook)
        s.hook(n, ar);
    if (ar == arError) {
        auto errs = g->errors(in->id, n);
        if (errs.empty())
            mc::violation("filter %s frame %d: arError although no requested frame can fail", s.name.c_str(), n);
        delete c;
        *frameData = nullptr;
        in->frameStateOwner = nullptr;
        return nullptr;
    }
    auto finish = [&](const VSFrame *f) -> const VSFrame * {
        delete static_cast<Ctx *>(*frameData);
        *frameData = nullptr;
        if (s.mode == fmFrameState)
            in->frameStateOwner = nullptr;
        return f;
    };
    if (ar == arInitial) {
        if ((int)in->calls.size() <= n)
            in->calls.resize(n + 1);
        in->calls[n]++;
        c = new Ctx{ n, 0, true, {}, fc };
        *frameData = c;
        if (s.fail && s.fail(n) == 1) {
            vsapi->setFilterError(failMsg(in->id, n).c_str(), fc);
            return finish(nullptr);
        }
        if (s.reqs && !s.syncInside) {
            c->req = s.reqs(n);
            for (auto &q : c->req)
                vsapi->requestFrameFilter(q.n, g->nodes[s.deps[q.dep]], fc);
            c->inCall = false;
            return nullptr;
        }
    }
    c->inCall = true;
    // all requested frames of this batch must be there and be right
    uint64_t dummy = 0;
    (void)dummy;
    if (s.reqs && !s.syncInside) {
        for (auto &q : c->req) {
            const VSFrame *f = vsapi->getFrameFilter(q.n, g->nodes[s.deps[q.dep]], fc);
            if (!f)
                mc::violation("filter %s frame %d: arAllFramesReady but requested frame %d of input %d is missing", s.name.c_str(), n, q.n, q.dep);
            if (stamp(f) != g->expected(s.deps[q.dep], q.n))
                mc::violation("filter %s frame %d: requested frame %d of input %d has the wrong content", s.name.c_str(), n, q.n, q.dep);
            vsapi->freeFrame(f);
        }
        if (s.releaseEarly)
            for (auto &q : c->req)
                vsapi->releaseFrameEarly(g->nodes[s.deps[q.dep]], q.n, fc);
        if (s.reqs2 && c->stage == 0) {
            c->stage = 1;
            c->req = s.reqs2(n);
            if (!c->req.empty()) {
                for (auto &q : c->req)
                    vsapi->requestFrameFilter(q.n, g->nodes[s.deps[q.dep]], fc);
                c->inCall = false;
                return nullptr;
            }
        }
    }
    if (s.syncInside && s.reqs) {
        for (auto &q : s.reqs(n)) {
            char buf[64] = "";
            const VSFrame *f = vsapi->getFrame(q.n, g->nodes[s.deps[q.dep]], buf, sizeof(buf));
            if (!f) {
                if (g->errors(s.deps[q.dep], q.n).empty())
                    mc::violation("nested getFrame failed: %s", buf);
                vsapi->setFilterError(buf, fc);
                return finish(nullptr);
            }
            if (stamp(f) != g->expected(s.deps[q.dep], q.n))
                mc::violation("nested getFrame returned the wrong frame");
            vsapi->freeFrame(f);
        }
    }
    if (s.fail && s.fail(n) == 2) {
        vsapi->setFilterError(failMsg(in->id, n).c_str(), fc);
        return finish(nullptr);
    }
    if (s.passThrough) {
        auto r = s.reqs(n);
        return finish(vsapi->getFrameFilter(r[0].n, g->nodes[s.deps[r[0].dep]], fc));
    }
    std::vector<VSFrame *> tmp;
    for (int i = 0; i < s.tempFrames; i++)
        tmp.push_back(newFrame(s.width, s.height));
    VSFrame *out = newFrame(s.width, s.height);
    setStamp(out, g->expected(in->id, n));
    if (s.dress)
        s.dress(n, out);
    for (auto t : tmp)
        vsapi->freeFrame(t);
    if (s.linear)
        for (int k = n + 1; k < std::min(n + 3, s.numFrames); k++) {
            VSFrame *o = newFrame(s.width, s.height);
            setStamp(o, g->expected(in->id, k));
            vsapi->cacheFrame(o, k, fc);
            vsapi->freeFrame(o);
        }
    return finish(out);
}

static void VS_CC filterFree(void *instanceData, VSCore *core, const VSAPI *vsapi) {
    Inst *in = static_cast<Inst *>(instanceData);
    if (in->freed++)
        mc::violation("free function of %s called twice", in->g->specs[in->id].name.c_str());
    if (in->active)
        mc::violation("free function of %s called while it is processing a frame", in->g->specs[in->id].name.c_str());
    g_freed++;
}

int numNodesFreed() { return g_freed; }

void Graph::build() {
    VSVideoInfo vi = {};
    api->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core);
    vi.fpsNum = 25;
    vi.fpsDen = 1;
    for (size_t i = 0; i < specs.size(); i++) {
        Spec &s = specs[i];
        Inst *in = new Inst{ this, (int)i };
        insts.push_back(in);
        vi.width = s.width;
        vi.height = s.height;
        vi.numFrames = s.numFrames;
        std::vector<VSFilterDependency> d;
        for (size_t k = 0; k < s.deps.size(); k++)
            d.push_back({ nodes[s.deps[k]], k < s.patterns.size() ? s.patterns[k] : rpGeneral });
        VSNode *n = api->createVideoFilter2(s.name.c_str(), &vi, filterGetFrame, filterFree, s.mode, d.data(), (int)d.size(), in, core);
        if (!n)
            mc::violation("createVideoFilter2 failed for %s", s.name.c_str());
        nodes.push_back(n);
        if (s.linear)
            api->setLinearFilter(n);
        if (s.cacheMode != -2)
            api->setCacheMode(n, s.cacheMode);
    }
}

void Graph::freeNodes() {
    for (size_t i = nodes.size(); i-- > 0;)
        api->freeNode(nodes[i]);
    nodes.clear();
}

void checkFrame(Graph *g, int node, int n, const VSFrame *f, const char *err) {
    bool valid = n >= 0 && n < g->specs[node].numFrames;
    if (!valid) {
        if (f || !err)
            mc::violation("request for invalid frame %d of node %d did not fail", n, node);
        return;
    }
    auto errs = g->errors(node, n);
    if (errs.empty()) {
        if (!f)
            mc::violation("request for frame %d of node %d failed: %s", n, node, err ? err : "(no message)");
        if (err && *err)
            mc::violation("request for frame %d of node %d returned both a frame and an error", n, node);
        if (stamp(f) != g->expected(node, n))
            mc::violation("request for frame %d of node %d returned the wrong frame", n, node);
    } else {
        if (f)
            mc::violation("request for frame %d of node %d succeeded although an input failed", n, node);
        if (!err || !errs.count(err))
            mc::violation("request for frame %d of node %d reported error '%s', not the message set by the failing filter", n, node, err ? err : "(null)");
    }
}

struct AsyncReq { Waiter *w; int node, n; int done; };

static void VS_CC asyncDone(void *userData, const VSFrame *f, int n, VSNode *node, const char *errorMsg) {
    AsyncReq *r = static_cast<AsyncReq *>(userData);
    Waiter *w = r->w;
    if (r->done++)
        mc::violation("completion callback ran twice for frame %d of node %d", r->n, r->node);
    if (n != r->n)
        mc::violation("completion callback reports frame %d for a request of frame %d", n, r->n);
    if (!w->g->nodes.empty() && node != w->g->nodes[r->node])
        mc::violation("completion callback reports the wrong node");
    if (w->inCallback)
        mc::violation("two completion callbacks run at the same time");
    w->inCallback++;
    __tsan_write8(&w->inCallback);
    checkFrame(w->g, r->node, n, f, errorMsg);
    mc::yieldPoint("callback");
    if (w->onDone)
        w->onDone(r->node, n);
    if (f) {
        if (w->keepFrames)
            w->kept.push_back(f);
        else
            api->freeFrame(f);
    }
    w->log += std::to_string(r->node) + ":" + std::to_string(n) + (errorMsg ? "E" : "") + " ";
    w->completions[{r->node, n}]++;
    w->inCallback--;
    delete r;
    {
        std::lock_guard<std::mutex> l(w->m);
        w->done++;
        if (--w->outstanding == 0)
            w->cv.notify_all();
    }
}

void Waiter::request(int node, int n) {
    {
        std::lock_guard<std::mutex> l(m);
        outstanding++;
        issued++;
    }
    api->getFrameAsync(n, g->nodes[node], asyncDone, new AsyncReq{ this, node, n, 0 });
}

void Waiter::wait() {
    std::unique_lock<std::mutex> l(m);
    while (outstanding)
        cv.wait(l);
}

void syncGet(Graph *g, int node, int n) {
    char buf[256] = "";
    const VSFrame *f = api->getFrame(n, g->nodes[node], buf, sizeof(buf));
    checkFrame(g, node, n, f, f ? nullptr : buf);
    api->freeFrame(f);
}

static void VS_CC logger(int type, const char *msg, void *) {
    mc::note("log %d: %s", type, msg);
    if (type == mtFatal) {
        fatalCount++;
        mc::noteFatal(msg);
    }
}

VSCore *makeCore(int threads, int64_t mem, int flags) {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    VSCore *c = api->createCore(ccfDisableAutoLoading | flags);
    api->addLogHandler(logger, nullptr, nullptr, c);
    if (threads > 0)
        api->setThreadCount(threads, c);
    if (mem >= 0)
        api->setMaxCacheSize(mem, c);
    return c;
}
void makeCoreSetup() { core = makeCore(2); }
}
