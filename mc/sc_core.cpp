// Schedules of the frame server itself: requests, modes, errors, caches, memory limit, lifetime.
#include "kit.h"
using namespace kit;

static void setup1() { core = makeCore(1); }
static void setup2() { core = makeCore(2); }
static void setup3() { core = makeCore(3); }
static void setupTiny1() { core = makeCore(1, 1); }
static void setupTiny2() { core = makeCore(2, 1); }
static void setupTiny3() { core = makeCore(3, 1); }

static std::vector<Req> same(int n) { return { { 0, n } }; }

static Spec source(const char *name, VSFilterMode m, int frames = 4) {
    Spec s;
    s.name = name;
    s.mode = m;
    s.numFrames = frames;
    return s;
}
static Spec pass(const char *name, VSFilterMode m, int dep, int frames = 4) {
    Spec s;
    s.name = name;
    s.mode = m;
    s.numFrames = frames;
    s.deps = { dep };
    s.reqs = same;
    return s;
}
static Spec multi(const char *name, VSFilterMode m, std::vector<int> deps, std::function<std::vector<Req>(int)> r, int frames = 4) {
    Spec s;
    s.name = name;
    s.mode = m;
    s.numFrames = frames;
    s.deps = deps;
    s.reqs = r;
    return s;
}

static void finish(Graph &g) {
    g.freeNodes();
    size_t n = g.specs.size();
    api->freeCore(core);
    if (numNodesFreed() != (int)n)
        mc::violation("%d of %d filter instances were freed after the last reference was released", numNodesFreed(), (int)n);
    for (auto p : g.insts)
        delete p;
    g.insts.clear();
}

static void once(Waiter &w) {
    for (auto &c : w.completions)
        if (c.second < 1)
            mc::violation("a request never completed");
    if (w.done != w.issued)
        mc::violation("%d requests issued but %d completions delivered", w.issued, w.done);
}

#define SCENARIO(fn, name, props, setup, flags, qb, tb, cpus, qs, ts) \
    static void fn##Body(); \
    static void fn() { fn##Body(); mc::expectNoLeaks("after everything was released"); } \
    static mc::Registrar fn##Reg({ name, props, setup, fn, flags, qb, tb, cpus, qs, ts }); \
    static void fn##Body()

// ------------------------------------------------------------------ request completion (C01)
SCENARIO(chainAsync, "chain_async", "C01", setup2, 0, 2, 3, 2, 8, 120) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    w.wait();
    once(w);
    mc::outcome(w.log);
    finish(g);
}

// every condition variable wait may also return spuriously
SCENARIO(syncSpurious, "sync_spurious", "C01", setup2, mc::fSpurious | mc::fDelay, 3, 4, 2, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallelRequests, a));
    g.build();
    Waiter w(&g);
    w.request(b, 1);
    syncGet(&g, b, 0);
    w.wait();
    once(w);
    finish(g);
}

SCENARIO(callbackChain, "callback_requests", "C01", setup2, mc::fDelay, 3, 4, 2, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmUnordered, a));
    g.build();
    Waiter w(&g);
    w.onDone = [&](int node, int n) {
        if (n == 0)
            w.request(b, 2);
        if (n == 2)
            w.request(a, 7); // outside the clip
    };
    w.request(b, 0);
    w.request(b, 1);
    w.wait();
    once(w);
    mc::outcome(w.log);
    finish(g);
}

SCENARIO(nestedSync, "sync_in_filter", "C01,C04", setup1, mc::fDelay, 3, 4, 1, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmUnordered));
    Spec s = pass("nested", fmParallel, a);
    s.syncInside = true;
    int b = g.add(s);
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    w.wait();
    once(w);
    finish(g);
}

SCENARIO(twoClients, "two_clients", "C01", setup2, mc::fDelay, 3, 4, 2, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    std::thread t([&] { syncGet(&g, b, 1); });
    w.request(b, 0);
    syncGet(&g, b, 1);
    t.join();
    w.wait();
    once(w);
    finish(g);
}

SCENARIO(resizePool, "resize_pool", "C01", setup2, mc::fDelay, 3, 4, 2, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    api->setThreadCount(1, core);
    w.request(b, 2);
    api->setThreadCount(3, core);
    w.request(b, 3);
    w.wait();
    once(w);
    finish(g);
}

// requests arrive while the pool is shrunk below the number of busy threads
SCENARIO(shrinkPool, "shrink_pool", "C01", setup3, mc::fSpurious | mc::fDelay, 2, 3, 3, 8, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(multi("two", fmParallel, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, n + 1 } }; }));
    g.build();
    Waiter w(&g);
    w.onDone = [&](int, int n) {
        if (n == 0)
            api->setThreadCount(1, core);
    };
    w.request(b, 0);
    w.request(b, 1);
    w.request(b, 2);
    w.wait();
    syncGet(&g, b, 3);
    once(w);
    finish(g);
}

SCENARIO(invalidFrames, "invalid_frames", "C01", setup2, mc::fDelay, 3, 4, 2, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmFrameState));
    int b = g.add(pass("pass", fmFrameState, a));
    g.build();
    Waiter w(&g);
    w.request(b, -1);
    w.request(b, 4);
    w.request(b, 3);
    syncGet(&g, b, -5);
    syncGet(&g, b, 4);
    syncGet(&g, b, 0);
    w.wait();
    once(w);
    mc::outcome(w.log);
    finish(g);
}

// both requests need the same source frame: the second latches on to a context in any stage
SCENARIO(sharedDep, "shared_dependency", "C01,C02", setup2, 0, 2, 3, 2, 10, 300) {
    Graph g;
    Spec s = source("src", fmParallel);
    s.cacheMode = 0;
    int a = g.add(s);
    int b = g.add(pass("left", fmParallel, a));
    int c = g.add(pass("right", fmParallel, a));
    int d = g.add(multi("join", fmParallel, { b, c, a }, [](int n) { return std::vector<Req>{ { 0, n }, { 1, n }, { 2, n } }; }));
    g.build();
    Waiter w(&g);
    w.request(d, 0);
    w.request(c, 0);
    w.wait();
    once(w);
    finish(g);
}

SCENARIO(sharedDepCached, "shared_dependency_cached", "C01,C05", setup2, 0, 2, 3, 2, 10, 300) {
    Graph g;
    Spec s = source("src", fmParallel);
    s.cacheMode = 1;
    int a = g.add(s);
    int b = g.add(pass("left", fmParallel, a));
    int c = g.add(pass("right", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(c, 0);
    w.wait();
    syncGet(&g, a, 0);
    // frame 0 of the source can only have been computed again by requests that were under way before it was cached
    if (g.insts[a]->calls[0] != 1)
        mc::violation("source frame 0 was computed %d times although it was being computed or cached", g.insts[a]->calls[0]);
    once(w);
    finish(g);
}

SCENARIO(threeThreads, "three_threads", "C01", setup3, mc::fDelay, 2, 3, 3, 8, 300) {
    Graph g;
    int a = g.add(source("src", fmUnordered));
    int b = g.add(multi("two", fmParallel, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, n + 1 } }; }));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    w.request(b, 2);
    w.wait();
    once(w);
    mc::outcome(w.log);
    finish(g);
}

// ------------------------------------------------------------------ filter modes and protocol (C02)
static void modeBody(VSFilterMode m, bool onSource) {
    Graph g;
    int a = g.add(source("src", onSource ? m : fmParallel));
    int b = g.add(pass("f", onSource ? fmParallel : m, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    w.request(b, 1);
    w.wait();
    once(w);
    finish(g);
}
SCENARIO(modeUnord, "mode_unordered", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { modeBody(fmUnordered, false); }
SCENARIO(modeUnordSrc, "mode_unordered_source", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { modeBody(fmUnordered, true); }
SCENARIO(modePR, "mode_parallel_requests", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { modeBody(fmParallelRequests, false); }
SCENARIO(modeFS, "mode_frame_state", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { modeBody(fmFrameState, false); }
SCENARIO(modeFSSrc, "mode_frame_state_source", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { modeBody(fmFrameState, true); }
SCENARIO(modeAll3, "modes_three_threads", "C02", setup3, mc::fDelay, 2, 3, 3, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("unordered", fmUnordered, a));
    int c = g.add(pass("pr", fmParallelRequests, a));
    int d = g.add(pass("fs", fmFrameState, b));
    g.build();
    Waiter w(&g);
    for (int n = 0; n < 2; n++) {
        w.request(c, n);
        w.request(d, n);
        w.request(b, n);
    }
    w.wait();
    once(w);
    finish(g);
}

// a second batch of requests after the first is ready, for every mode
static void batchBody(VSFilterMode m) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    Spec s = multi("batches", m, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, n + 1 }, { 0, n } }; });
    s.reqs2 = [](int n) { return n == 1 ? std::vector<Req>{} : std::vector<Req>{ { 0, 3 }, { 0, n } }; };
    s.releaseEarly = m == fmParallel;
    int b = g.add(s);
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    w.wait();
    once(w);
    finish(g);
}
SCENARIO(batchPar, "batches_parallel", "C02", setup2, 0, 1, 3, 2, 8, 200) { batchBody(fmParallel); }
SCENARIO(batchUnord, "batches_unordered", "C02", setup2, 0, 1, 3, 2, 8, 200) { batchBody(fmUnordered); }
SCENARIO(batchPR, "batches_parallel_requests", "C02", setup2, mc::fDelay, 3, 4, 2, 8, 200) { batchBody(fmParallelRequests); }
SCENARIO(batchFS, "batches_frame_state", "C02", setup2, 0, 2, 3, 2, 8, 200) { batchBody(fmFrameState); }

// requests beyond the end of the input are clamped to its last frame
SCENARIO(clampReq, "clamped_requests", "C02", setup2, 0, 1, 2, 2, 8, 100) {
    Graph g;
    int a = g.add(source("src", fmParallel, 2));
    Spec s = multi("beyond", fmParallel, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, n + 5 } }; });
    s.releaseEarly = true;
    int b = g.add(s);
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 3);
    w.wait();
    once(w);
    finish(g);
}

// every small request pattern: modes of a source and a filter, what the consumer above them asks for in its two
// batches, and which direct request for the filter competes with it
static const std::vector<Req> shapeFirst[] = { { { 0, 1 } }, { { 1, 1 } }, { { 0, 0 }, { 1, 1 } }, { { 1, 1 }, { 1, 0 } }, { { 1, 0 }, { 0, 1 }, { 1, 2 } } };
static const std::vector<Req> shapeSecond[] = { {}, { { 1, 0 } }, { { 0, 0 } }, { { 1, 2 } }, { { 1, 0 }, { 1, 1 } } };
static void shapesBody(VSFilterMode mm, int cacheMode) {
    static const VSFilterMode modes[] = { fmParallel, fmUnordered, fmFrameState, fmParallelRequests };
    VSFilterMode ms = modes[mc::choose(3, 0, "source mode")];
    unsigned r1 = mc::choose(5, 0, "first batch"), r2 = mc::choose(5, 0, "second batch"), other = mc::choose(3, 0, "competing request"), order = mc::choose(2, 0, "order");
    Graph g;
    Spec s0 = source("src", ms);
    s0.cacheMode = cacheMode;
    int a = g.add(s0);
    Spec s1 = pass("mid", mm, a);
    s1.cacheMode = cacheMode;
    int b = g.add(s1);
    Spec s2 = multi("top", fmParallel, { a, b }, [=](int) { return shapeFirst[r1]; });
    if (!shapeSecond[r2].empty())
        s2.reqs2 = [=](int) { return shapeSecond[r2]; };
    int c = g.add(s2);
    g.build();
    Waiter w(&g);
    if (order)
        w.request(b, other);
    w.request(c, 0);
    if (!order)
        w.request(b, other);
    w.wait();
    once(w);
    finish(g);
}
SCENARIO(shapesPar, "shapes_parallel", "C01,C02", setup2, mc::fDelay, 1, 2, 2, 25, 400) { shapesBody(fmParallel, 0); }
SCENARIO(shapesUnord, "shapes_unordered", "C01,C02", setup2, mc::fDelay, 1, 2, 2, 25, 400) { shapesBody(fmUnordered, 0); }
SCENARIO(shapesFS, "shapes_frame_state", "C01,C02", setup2, mc::fDelay, 1, 2, 2, 25, 400) { shapesBody(fmFrameState, 0); }
SCENARIO(shapesFSCached, "shapes_frame_state_cached", "C02,C05", setup2, mc::fDelay, 1, 2, 2, 25, 400) { shapesBody(fmFrameState, 1); }
SCENARIO(shapesPR, "shapes_parallel_requests", "C01,C02", setup2, mc::fDelay, 1, 2, 2, 25, 400) { shapesBody(fmParallelRequests, 0); }
SCENARIO(shapesPR1, "shapes_parallel_requests_one_thread", "C01,C02", setup1, mc::fDelay, 1, 2, 1, 25, 400) { shapesBody(fmParallelRequests, 1); }

// ------------------------------------------------------------------ errors (C03)
// every choice of failing node, frame and stage in a diamond; all requests in flight together
static void errorBody(VSFilterMode m, VSFilterMode ms) {
    Graph g;
    unsigned fn = mc::choose(4, 0, "failing node");
    unsigned ff = mc::choose(2, 0, "failing frame");
    unsigned st = 1 + mc::choose(fn == 0 ? 1 : 2, 0, "stage");
    auto failFor = [=](int node) {
        return [=](int n) { return (node == (int)fn && n == (int)ff) ? (int)st : 0; };
    };
    Spec s0 = source("src", ms);
    s0.fail = failFor(0);
    int a = g.add(s0);
    Spec s1 = pass("left", m, a);
    s1.fail = failFor(1);
    int b = g.add(s1);
    Spec s2 = multi("right", m, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, 1 } }; });
    s2.fail = failFor(2);
    int c = g.add(s2);
    Spec s3 = multi("join", m, { b, c }, [](int n) { return std::vector<Req>{ { 0, n }, { 1, n } }; });
    s3.fail = failFor(3);
    int d = g.add(s3);
    g.build();
    Waiter w(&g);
    w.request(d, 0);
    w.request(d, 1);
    w.request(b, 1);
    w.wait();
    once(w);
    mc::outcome(std::to_string(fn) + "/" + std::to_string(ff) + "/" + std::to_string(st) + ": " + w.log);
    syncGet(&g, d, ff); // later requests are processed normally
    syncGet(&g, a, 2);
    finish(g);
}
SCENARIO(errPar, "errors_parallel", "C03", setup2, mc::fDelay, 2, 3, 2, 12, 300) { errorBody(fmParallel, fmParallel); }
SCENARIO(errFS, "errors_frame_state", "C03", setup2, mc::fDelay, 2, 3, 2, 12, 300) { errorBody(fmFrameState, fmUnordered); }
SCENARIO(errPR, "errors_parallel_requests", "C03", setup2, mc::fDelay, 2, 3, 2, 12, 300) { errorBody(fmParallelRequests, fmFrameState); }
// two different failures below the same consumer: one of the two messages, once
SCENARIO(errTwo, "errors_two_inputs", "C03", setup2, 0, 2, 3, 2, 10, 200) {
    Graph g;
    Spec s0 = source("src", fmParallel);
    s0.fail = [](int n) { return n < 2 ? 1 : 0; };
    int a = g.add(s0);
    int b = g.add(multi("join", fmParallel, { a }, [](int n) { return std::vector<Req>{ { 0, 0 }, { 0, 1 }, { 0, n } }; }));
    g.build();
    Waiter w(&g);
    w.request(b, 2);
    w.request(a, 3);
    w.wait();
    once(w);
    finish(g);
}
// an error in the second batch and a failing sync request
SCENARIO(errBatch, "errors_second_batch", "C03", setup2, mc::fDelay, 3, 4, 2, 10, 200) {
    Graph g;
    Spec s0 = source("src", fmParallel);
    s0.fail = [](int n) { return n == 3 ? 1 : 0; };
    int a = g.add(s0);
    Spec s1 = pass("batches", fmParallelRequests, a);
    s1.reqs2 = [](int n) { return std::vector<Req>{ { 0, n ? 3 : 2 } }; };
    int b = g.add(s1);
    g.build();
    Waiter w(&g);
    w.request(b, 1);
    w.request(b, 0);
    syncGet(&g, b, 1);
    w.wait();
    once(w);
    finish(g);
}

// ------------------------------------------------------------------ memory pressure (C04)
static void pressureGraph(Graph &g, VSFilterMode m, int mode) {
    Spec s = source("src", fmParallel);
    s.cacheMode = mode;
    int a = g.add(s);
    Spec t = multi("two", m, { a }, [](int n) { return std::vector<Req>{ { 0, n }, { 0, n + 1 } }; });
    t.cacheMode = mode;
    g.add(t);
    g.build();
}
static void idleMemory(Graph &g) {
    // all requests are done and the workers idle: only caches hold frames
    mc::quiesce();
    api->clearCoreCaches(core);
    VSCoreInfo2 ci;
    api->getCoreInfo2(core, &ci);
    if (ci.usedFramebufferSize != 0)
        mc::violation("%lld bytes of frame memory still allocated after every request finished and all caches were cleared", (long long)ci.usedFramebufferSize);
}
static void pressureBody(VSFilterMode m, int mode) {
    Graph g;
    pressureGraph(g, m, mode);
    Waiter w(&g);
    w.request(1, 0);
    w.request(1, 1);
    w.request(1, 2);
    w.wait();
    once(w);
    finish(g);
}
SCENARIO(press1, "pressure_one_thread", "C04", setupTiny1, mc::fClock, 2, 3, 1, 10, 300) { pressureBody(fmParallel, 1); }
SCENARIO(press2, "pressure_two_threads", "C04", setupTiny2, mc::fClock | mc::fDelay, 3, 4, 2, 14, 400) { pressureBody(fmParallel, 1); }
SCENARIO(press3, "pressure_frame_state", "C04", setupTiny2, mc::fClock | mc::fDelay, 3, 4, 2, 10, 400) { pressureBody(fmFrameState, -2); }
SCENARIO(press4, "pressure_three_threads", "C04", setupTiny3, mc::fDelay, 2, 3, 3, 8, 400) { pressureBody(fmUnordered, 1); }
// requests keep arriving from callbacks while the pipeline is being flushed; frames are kept by the caller
SCENARIO(pressFlush, "pressure_flush_requests", "C04", setupTiny2, mc::fClock | mc::fDelay, 3, 4, 2, 14, 400) {
    Graph g;
    pressureGraph(g, fmParallel, 1);
    Waiter w(&g);
    w.keepFrames = true;
    w.onDone = [&](int, int n) {
        mc::advanceClock(1500000000);
        if (n < 3)
            w.request(1, n + 1);
    };
    w.request(1, 0);
    w.wait();
    once(w);
    syncGet(&g, 1, 0);
    for (auto f : w.kept)
        api->freeFrame(f);
    finish(g);
}
// a filter requests frames synchronously from inside its frame function while usage stays over the limit
// long enough for a flush: neither admission control nor the flush may hold back the nested request
static void pressNestedBody(VSFilterMode mode, int advance) {
    Graph g;
    Spec src = source("src", fmParallel);
    src.height = 40;
    int a = g.add(src);
    Spec s = pass("nested", mode, a);
    s.syncInside = true;
    s.height = 40;
    int b = g.add(s);
    g.build();
    Waiter w(&g);
    w.keepFrames = true;
    w.onDone = [&](int, int n) {
        mc::advanceClock((int64_t)advance * 100000000);
        if (n < 3)
            w.request(b, n + 1);
    };
    w.request(b, 0);
    if (mode == fmParallel)
        w.request(b, 3);
    w.wait();
    once(w);
    for (auto f : w.kept)
        api->freeFrame(f);
    finish(g);
}
SCENARIO(pressNested1, "pressure_nested_one_thread", "C04,C01", setupTiny1, mc::fDelay, 3, 4, 1, 8, 300) { pressNestedBody(fmParallel, 21); }
SCENARIO(pressNested2, "pressure_nested_two_threads", "C04,C01", setupTiny2, mc::fDelay, 4, 5, 2, 8, 300) { pressNestedBody(fmUnordered, 15); }
// temporary allocations inside a filter: admission control must only delay, never starve
SCENARIO(pressAdmit, "pressure_admission", "C04", [] { core = makeCore(2, 4096); }, mc::fDelay, 3, 4, 2, 10, 300) {
    Graph g;
    Spec s = source("src", fmParallel);
    s.tempFrames = 3;
    s.height = 40;
    int a = g.add(s);
    g.build();
    Waiter w(&g);
    for (int n = 0; n < 4; n++)
        w.request(a, n);
    w.wait();
    once(w);
    finish(g);
}
// the limit is lowered and raised while requests are in flight
SCENARIO(pressLimit, "pressure_limit_change", "C04", setup2, mc::fClock | mc::fDelay, 3, 4, 2, 10, 300) {
    Graph g;
    pressureGraph(g, fmParallel, 1);
    Waiter w(&g);
    w.request(1, 0);
    w.request(1, 1);
    api->setMaxCacheSize(1, core);
    w.request(1, 2);
    api->setMaxCacheSize(1 << 20, core);
    w.wait();
    once(w);
    idleMemory(g);
    finish(g);
}

// ------------------------------------------------------------------ caches under concurrency (C05, C06)
SCENARIO(cacheToggle, "cache_toggle", "C05,C06", setup2, mc::fDelay, 3, 4, 2, 12, 300) {
    Graph g;
    Spec s = source("src", fmParallel);
    s.cacheMode = 1;
    int a = g.add(s);
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    api->setCacheMode(g.nodes[a], 0);
    api->clearNodeCache(g.nodes[a]);
    api->setCacheOptions(g.nodes[b], 1, 1, 1);
    api->setCacheMode(g.nodes[a], -1);
    api->clearCoreCaches(core);
    w.wait();
    once(w);
    idleMemory(g);
    finish(g);
}
// consumers come and go on two threads: the state of the source's cache must follow its consumers
static const VSFrame *VS_CC neverCalled(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) {
    mc::violation("filter called although nobody requested a frame from it");
}
static VSNode *consumer(Graph &g, int dep, int pattern) {
    VSVideoInfo vi = *api->getVideoInfo(g.nodes[dep]);
    VSFilterDependency d = { g.nodes[dep], pattern };
    return api->createVideoFilter2("consumer", &vi, neverCalled, nullptr, fmParallel, &d, 1, nullptr, core);
}
SCENARIO(cacheConsumers, "cache_consumers", "C05,C06", setup1, mc::fDelay, 4, 6, 1, 12, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    Spec s = pass("pass", fmParallel, a);
    s.patterns = { rpStrictSpatial };
    int b = g.add(s);
    g.build();
    std::thread t([&] { api->freeNode(consumer(g, a, rpGeneral)); });
    VSNode *y = consumer(g, a, rpGeneral);
    t.join();
    // two consumers: the cache of the source is on now
    syncGet(&g, b, 0);
    syncGet(&g, b, 0);
    syncGet(&g, a, 0);
    if (g.insts[a]->calls[0] != 1)
        mc::violation("source frame 0 was computed %d times although the source has a cache", g.insts[a]->calls[0]);
    idleMemory(g); // every enabled cache must be known to the core
    api->freeNode(y);
    // one strictly spatial consumer: no cache any more
    syncGet(&g, a, 1);
    mc::quiesce();
    syncGet(&g, a, 1);
    if (g.insts[a]->calls[1] != 2)
        mc::violation("source frame 1 was computed %d times, expected 2 without a cache", g.insts[a]->calls[1]);
    finish(g);
}

// ------------------------------------------------------------------ lifetime under concurrency (C07)
SCENARIO(freeOutstanding, "free_node_outstanding", "C07,C01", setup2, 0, 2, 3, 2, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    Waiter w(&g);
    w.request(b, 0);
    w.request(b, 1);
    auto nodes = g.nodes;
    // the pending requests do not own the node but callers may drop every other reference once they complete
    api->freeNode(nodes[a]);
    w.wait();
    api->freeNode(nodes[b]);
    g.nodes.clear();
    finish(g);
}
SCENARIO(twoReleases, "concurrent_release", "C07,C06", setup2, 0, 5, 7, 2, 10, 300) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    int c = g.add(pass("pass2", fmParallel, a));
    g.build();
    syncGet(&g, b, 0);
    auto nodes = g.nodes;
    g.nodes.clear();
    std::thread t([&] { api->freeNode(nodes[b]); api->freeNode(nodes[a]); });
    api->freeNode(nodes[c]);
    t.join();
    finish(g);
}
// the core outlives freeCore until the last node is gone, whoever releases it
SCENARIO(coreFirst, "free_core_first", "C07", setup2, 0, 5, 7, 2, 8, 200) {
    Graph g;
    int a = g.add(source("src", fmParallel));
    int b = g.add(pass("pass", fmParallel, a));
    g.build();
    char buf[32];
    const VSFrame *f = api->getFrame(1, g.nodes[b], buf, sizeof(buf));
    VSMap *m = api->createMap();
    api->mapSetNode(m, "n", g.nodes[a], maAppend);
    api->freeNode(g.nodes[a]);
    std::thread t([&] {
        api->freeNode(g.nodes[b]);
        api->freeFrame(f);
    });
    api->freeMap(m);
    t.join();
    g.nodes.clear();
    api->freeCore(core);
    if (numNodesFreed() != 2)
        mc::violation("%d of 2 filter instances freed", numNodesFreed());
    for (auto p : g.insts)
        delete p;
}
// frames, maps and functions released by whoever comes last, after freeCore too
SCENARIO(sharedFrames, "shared_frame_release", "C07,C08,C06", setup1, 0, 5, 7, 1, 8, 200) {
    VSFrame *f = newFrame(8, 2);
    setStamp(f, 42);
    VSMap *p = api->getFramePropertiesRW(f);
    api->mapSetInt(p, "x", 1, maReplace);
    const VSFrame *ref = api->addFrameRef(f);
    std::thread t([&] {
        VSFrame *c = api->copyFrame(ref, core);
        setStamp(c, 7);
        api->mapSetInt(api->getFramePropertiesRW(c), "x", 2, maAppend);
        if (stamp(c) != 7 || api->mapNumElements(api->getFramePropertiesRO(c), "x") != 2)
            mc::violation("copy lost its own changes");
        api->freeFrame(c);
        api->freeFrame(ref);
    });
    VSFrame *d = api->copyFrame(f, core);
    setStamp(d, 8);
    api->mapSetInt(api->getFramePropertiesRW(d), "x", 3, maReplace);
    if (stamp(f) != 42 || api->mapGetInt(api->getFramePropertiesRO(f), "x", 0, nullptr) != 1 || api->mapNumElements(api->getFramePropertiesRO(f), "x") != 1)
        mc::violation("writing to copies changed the original frame");
    if (stamp(d) != 8 || api->mapGetInt(api->getFramePropertiesRO(d), "x", 0, nullptr) != 3)
        mc::violation("copy lost its own changes");
    api->freeFrame(f);
    t.join();
    if (stamp(d) != 8 || api->mapGetInt(api->getFramePropertiesRO(d), "x", 0, nullptr) != 3)
        mc::violation("copy changed by somebody else");
    api->freeFrame(d);
    api->freeCore(core);
}
