// Test-filter kit: closed filter graphs with a reference semantics and contract monitors.
// Compiled without instrumentation; only one controlled thread runs at a time, so plain
// variables are safe here, and touch() reports accesses to the race detector explicitly.
#pragma once
#include "mc.h"
#include "VapourSynth4.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <cstring>
#include <mutex>
#include <condition_variable>
#include <thread>

extern "C" {
void __tsan_read8(void *);
void __tsan_write8(void *);
void __tsan_read_range(void *, size_t);
void __tsan_write_range(void *, size_t);
}

namespace kit {

extern const VSAPI *api;
extern VSCore *core;

struct Req { int dep; int n; };

struct Spec {
    std::string name = "f";
    VSFilterMode mode = fmParallel;
    int numFrames = 4;
    std::vector<int> deps;                          // indices of earlier nodes
    std::vector<VSRequestPattern> patterns;
    std::function<std::vector<Req>(int n)> reqs;    // empty function: source
    std::function<std::vector<Req>(int n)> reqs2;   // optional second batch after the first is ready
    std::function<int(int n)> fail;                 // 0 no, 1 at arInitial, 2 at arAllFramesReady
    int width = 8, height = 1;
    int tempFrames = 0;                             // frames allocated and released within the call
    bool passThrough = false;                       // return the first requested frame itself
    bool linear = false;                            // setLinearFilter + cacheFrame ahead
    bool syncInside = false;                        // fetch the dependency with a nested getFrame (pool thread)
    bool releaseEarly = false;
    int cacheMode = -2;                             // -2: leave alone
    std::function<void(int n, int ar)> hook;        // called inside the filter
    std::function<void(int n, VSFrame *f)> dress;   // called on every new frame
};

struct Inst;

struct Graph {
    std::vector<Spec> specs;
    std::vector<VSNode *> nodes;
    std::vector<Inst *> insts;
    int add(const Spec &s);
    uint64_t expected(int node, int n) const;                 // value stamped in the frame
    std::set<std::string> errors(int node, int n) const;      // possible error messages, empty: must succeed
    void build();
    void freeNodes();
    uint64_t maxCalls = 0;
};

struct Inst {
    Graph *g;
    int id;
    int freed = 0;
    int active = 0;                 // calls in progress
    int readyActive = 0;            // arAllFramesReady/arError calls in progress
    void *frameStateOwner = nullptr;
    uint64_t scratch = 0;           // touched in exclusive sections
    std::vector<int> calls;         // arInitial calls per frame
    std::set<void *> ctxs;
};

struct Ctx { int n; int stage; bool inCall; std::vector<Req> req; void *frameCtx; };

uint64_t stamp(const VSFrame *f);
void setStamp(VSFrame *f, uint64_t v);
VSFrame *newFrame(int w, int h);
uint64_t mixv(uint64_t a, uint64_t b);

// a set of asynchronous requests with exactly-once accounting
struct Waiter {
    std::mutex m;
    std::condition_variable cv;
    int outstanding = 0;
    int issued = 0, done = 0;
    int inCallback = 0;
    Graph *g;
    std::map<std::pair<int, int>, int> completions; // (node, n) -> count
    std::function<void(int node, int n)> onDone;     // runs in the callback, may issue more
    bool keepFrames = false;
    std::vector<const VSFrame *> kept;
    std::string log;
    explicit Waiter(Graph *g) : g(g) {}
    void request(int node, int n);
    void wait();
};

void checkFrame(Graph *g, int node, int n, const VSFrame *f, const char *err);
void syncGet(Graph *g, int node, int n);
VSCore *makeCore(int threads, int64_t mem = -1, int flags = 0);
void makeCoreSetup(); // zygote: creates kit::core with one core
extern int64_t fatalCount;
int numNodesFreed();
void logHandlerCheck();
}
