// C07: lifetimes. Every state of a small object graph reachable by API operations is visited (breadth first over the
// reference model) and every operation is executed on the real objects from each of them.
#include "vk.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <deque>
#include <new>
#include <set>
#include <thread>
#include <malloc.h>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;

// live C++ allocations of the whole program; freed memory is overwritten so that late uses show
namespace { std::atomic<long> liveNew{0}; }
#ifndef __SANITIZE_ADDRESS__
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); liveNew++; return p; }
void *operator new[](size_t n) { return ::operator new(n); }
void operator delete(void *p) noexcept { if (!p) return; liveNew--; memset(p, 0xdd, malloc_usable_size(p)); free(p); }
void operator delete(void *p, size_t) noexcept { ::operator delete(p); }
void operator delete[](void *p) noexcept { ::operator delete(p); }
void operator delete[](void *p, size_t) noexcept { ::operator delete(p); }
#endif

namespace {
// objects: what they are and what they refer to
enum Kind { NODE, FRAME, FUNC, MAP };
enum { SA, SB, SC, SF, SG, SFN, SM, SM2, SCORE, NSLOT };     // two sources+filters, frames, function, maps, core
const char *slotName[] = {"source", "filter", "filter2", "frame", "frame2", "function", "map", "map2", "core"};

enum Op { MK_A, MK_B, MK_C, MK_FN, MK_M, GET_F, COPY_G, MAP_A, MAP_B, MAP_F, MAP_FN, MAP_CLEAR, MAP_DEL, COPY_M2, PROP_B, PROP_FN, GETREF_A, SET_NULLDEP,
          FREE_A, FREE_B, FREE_C, FREE_F, FREE_G, FREE_FN, FREE_M, FREE_M2, FREE_CORE, NOP };
const char *opName[] = {"create source", "create filter(source)", "create filter2(filter,source)", "create function owning a source reference", "create map", "get frame of source", "copy frame to frame2",
    "map: append source", "map: append filter", "map: set frame", "map: set function", "clear map", "map: delete key", "map2 = copy of map", "frame property = filter", "frame property = function", "exchange source reference via map", "",
    "free source", "free filter", "free filter2", "free frame", "free frame2", "free function", "free map", "free map2", "free core"};

// abstract state: the ids are canonical (creation order per kind is irrelevant for what can happen next)
struct Model {
    struct O { Kind k; std::string tag; std::vector<int> refs; };
    std::vector<O> o;                 // all objects ever created (alive ones matter)
    int slot[NSLOT];
    std::map<std::string, std::vector<int>> mm[2];     // contents of the maps
    std::map<int, std::vector<int>> props;             // frame -> property values
    bool coreFreed = false;
    Model() { for (int &s : slot) s = -1; slot[SCORE] = 0; }
    std::set<int> alive() const {
        std::set<int> a;
        std::deque<int> q;
        auto add = [&](int x) { if (x >= 0 && a.insert(x).second) q.push_back(x); };
        for (int s = 0; s < SM; s++) add(slot[s]);
        for (int m = 0; m < 2; m++) for (auto &e : mm[m]) for (int x : e.second) add(x);
        while (!q.empty()) {
            int x = q.front(); q.pop_front();
            for (int r : o[x].refs) add(r);
            auto it = props.find(x);
            if (it != props.end()) for (int r : it->second) add(r);
        }
        return a;
    }
    std::string key() const {
        // canonical numbering in order of discovery from the slots
        std::map<int, int> num;
        std::string k;
        std::function<void(int)> put = [&](int x) {
            if (x < 0) { k += "-"; return; }
            auto it = num.find(x);
            if (it != num.end()) { k += std::to_string(it->second); return; }
            int n = (int)num.size();
            num[x] = n;
            k += o[x].tag + std::to_string(n) + "(";
            for (int r : o[x].refs) put(r);
            auto p = props.find(x);
            if (p != props.end()) { k += "|"; for (int r : p->second) put(r); }
            k += ")";
        };
        for (int s = 0; s < SM; s++) { put(slot[s]); k += ","; }
        for (int m = 0; m < 2; m++) { k += slot[SM + m] >= 0 ? "m{" : "-{"; for (auto &e : mm[m]) { k += e.first + ":"; for (int x : e.second) put(x); } k += "}"; }
        k += coreFreed ? "F" : "C";
        return k;
    }
    int mk(Kind k, const char *tag, std::vector<int> refs) { o.push_back({k, tag, refs}); return (int)o.size() - 1; }
    // applies op, false if it is not possible here
    bool apply(int op, int &made) {
        made = -1;
        bool c = !coreFreed;
        auto has = [&](int s) { return slot[s] >= 0; };
        switch (op) {
        case MK_A: if (!c || has(SA)) return false; made = slot[SA] = mk(NODE, "a", {}); return true;
        case MK_B: if (!c || has(SB) || !has(SA)) return false; made = slot[SB] = mk(NODE, "b", {slot[SA]}); return true;
        case MK_C: if (!c || has(SC) || !has(SB) || !has(SA)) return false; made = slot[SC] = mk(NODE, "c", {slot[SB], slot[SA]}); return true;
        case MK_FN: if (!c || has(SFN)) return false; { std::vector<int> r; if (has(SA)) r.push_back(slot[SA]); made = slot[SFN] = mk(FUNC, "f", r); } return true;
        case MK_M: if (has(SM)) return false; slot[SM] = 0; return true;
        case GET_F: if (!c || has(SF) || !has(SA)) return false; made = slot[SF] = mk(FRAME, "F", {}); return true;
        case COPY_G: if (!c || has(SG) || !has(SF)) return false; made = slot[SG] = mk(FRAME, "G", {}); if (props.count(slot[SF])) props[made] = props[slot[SF]]; return true;
        case MAP_A: case MAP_B: { int s = op == MAP_A ? SA : SB; if (!has(SM) || !has(s) || mm[0]["n"].size() >= 2) { if (mm[0]["n"].empty()) mm[0].erase("n"); return false; } mm[0]["n"].push_back(slot[s]); return true; }
        case MAP_F: if (!has(SM) || !has(SF)) return false; mm[0]["v"] = {slot[SF]}; return true;
        case MAP_FN: if (!has(SM) || !has(SFN)) return false; mm[0]["u"] = {slot[SFN]}; return true;
        case MAP_CLEAR: if (!has(SM) || mm[0].empty()) return false; mm[0].clear(); return true;
        case MAP_DEL: if (!has(SM) || !mm[0].count("n")) return false; mm[0].erase("n"); return true;
        case COPY_M2: if (has(SM2) || !has(SM)) return false; slot[SM2] = 0; mm[1] = mm[0]; return true;
        case PROP_B: if (!has(SG) || !has(SB)) return false; props[slot[SG]] = {slot[SB]}; return true;
        case PROP_FN: if (!has(SG) || !has(SFN)) return false; props[slot[SG]] = {slot[SFN]}; return true;
        case FREE_A: case FREE_B: case FREE_C: case FREE_F: case FREE_G: case FREE_FN: {
            static const int s[] = {SA, SB, SC, SF, SG, SFN};
            int k = s[op - FREE_A];
            if (!has(k)) return false;
            slot[k] = -1;
            return true;
        }
        case GETREF_A: if (!has(SM) || !mm[0].count("n") || has(SA)) return false; slot[SA] = -1; if (o[mm[0]["n"][0]].tag != "a") return false; slot[SA] = mm[0]["n"][0]; return true;
        case FREE_M: if (!has(SM)) return false; slot[SM] = -1; mm[0].clear(); return true;
        case FREE_M2: if (!has(SM2)) return false; slot[SM2] = -1; mm[1].clear(); return true;
        case FREE_CORE: if (coreFreed) return false; coreFreed = true; return true;
        }
        return false;
    }
};

struct Inst { int id; std::vector<std::atomic<int>> *freed; VSNode *dep[2] = {nullptr, nullptr}; };
std::vector<std::atomic<int>> *counters;
const VSFrame *VS_CC srcGet(int n, int reason, void *, void **, VSFrameContext *, VSCore *c, const VSAPI *a) {
    if (reason != arInitial) return nullptr;
    VSVideoFormat g;
    a->queryVideoFormat(&g, cfGray, stInteger, 8, 0, 0, c);
    return a->newVideoFrame(&g, 16, 8, nullptr, c);
}
void VS_CC nodeFree(void *u, VSCore *, const VSAPI *a) {
    Inst *i = static_cast<Inst *>(u);
    (*i->freed)[i->id]++;
    for (VSNode *d : i->dep) if (d) a->freeNode(d);
    delete i;
}
struct FnInst { int id; std::vector<std::atomic<int>> *freed; VSNode *n; };
void VS_CC fnCall(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
void VS_CC fnFree(void *u) {
    FnInst *i = static_cast<FnInst *>(u);
    (*i->freed)[i->id]++;
    if (i->n) api->freeNode(i->n);
    delete i;
}

struct Real {
    Model m;
    VSNode *node[3] = {};
    VSFrame *fr[2] = {};
    const VSFrame *frc = nullptr;
    VSFunction *fn = nullptr;
    VSMap *map[2] = {};
    VSCore *core;
    bool holdDep;                          // filters keep their own reference to their inputs, released in their free function
    std::vector<std::atomic<int>> freed = std::vector<std::atomic<int>>(64);
    int logsAtFree = 0;
    static void VS_CC onLog(int, const char *, void *u) { ++*static_cast<int *>(u); }

    explicit Real(bool holdDep, int flags) : holdDep(holdDep) {
        core = api->createCore(ccfDisableAutoLoading | flags);
        api->setThreadCount(1, core);
        static int sink;
        api->addLogHandler(onLog, nullptr, &sink, core);
    }
    VSNode *mkNode(int id, const char *name, std::initializer_list<VSNode *> deps) {
        VSVideoInfo vi = {};
        api->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core);
        vi.width = 16; vi.height = 8; vi.numFrames = 3;
        std::vector<VSFilterDependency> d;
        Inst *i = new Inst{id, &freed};
        int k = 0;
        for (VSNode *n : deps) { d.push_back({n, rpGeneral}); if (holdDep) i->dep[k++] = api->addNodeRef(n); }
        VSNode *n = api->createVideoFilter2(name, &vi, srcGet, nodeFree, fmParallel, d.data(), (int)d.size(), i, core);
        CHECK(n, "node creation failed");
        api->setCacheMode(n, cmForceDisable);
        return n;
    }
    bool run(int op) {
        int made;
        Model before = m;
        if (!m.apply(op, made)) { m = before; return false; }
        switch (op) {
        case MK_A: node[0] = mkNode(made, "A", {}); break;
        case MK_B: node[1] = mkNode(made, "B", {node[0]}); break;
        case MK_C: node[2] = mkNode(made, "C", {node[1], node[0]}); break;
        case MK_FN: fn = api->createFunction(fnCall, new FnInst{made, &freed, node[0] ? api->addNodeRef(node[0]) : nullptr}, fnFree, core); break;
        case MK_M: map[0] = api->createMap(); break;
        case GET_F: { char e[200]; const VSFrame *f = api->getFrame(1, node[0], e, sizeof e); CHECK(f, "getFrame: %s", e); frc = f; break; }
        case COPY_G: fr[1] = api->copyFrame(frc, core); break;
        case MAP_A: CHECK(!api->mapSetNode(map[0], "n", node[0], maAppend), "mapSetNode"); break;
        case MAP_B: { VSNode *r = api->addNodeRef(node[1]); CHECK(!api->mapConsumeNode(map[0], "n", r, maAppend), "mapConsumeNode"); break; }
        case MAP_F: CHECK(!api->mapSetFrame(map[0], "v", frc, maReplace), "mapSetFrame"); break;
        case MAP_FN: { VSFunction *r = api->addFunctionRef(fn); CHECK(!api->mapConsumeFunction(map[0], "u", r, maReplace), "mapConsumeFunction"); break; }
        case MAP_CLEAR: api->clearMap(map[0]); break;
        case MAP_DEL: CHECK(api->mapDeleteKey(map[0], "n"), "mapDeleteKey"); break;
        case COPY_M2: map[1] = api->createMap(); api->copyMap(map[0], map[1]); break;
        case PROP_B: { VSMap *p = api->getFramePropertiesRW(fr[1]); CHECK(!api->mapSetNode(p, "p", node[1], maReplace) || true, "prop"); api->mapDeleteKey(p, "p"); api->mapSetNode(p, "p", node[1], maReplace); break; }
        case PROP_FN: { VSMap *p = api->getFramePropertiesRW(fr[1]); api->mapDeleteKey(p, "p"); api->mapSetFunction(p, "p", fn, maReplace); break; }
        case GETREF_A: { int err; node[0] = api->mapGetNode(map[0], "n", 0, &err); CHECK(!err && node[0], "mapGetNode"); break; }
        case FREE_A: api->freeNode(node[0]); node[0] = nullptr; break;
        case FREE_B: api->freeNode(node[1]); node[1] = nullptr; break;
        case FREE_C: api->freeNode(node[2]); node[2] = nullptr; break;
        case FREE_F: api->freeFrame(frc); frc = nullptr; break;
        case FREE_G: api->freeFrame(fr[1]); fr[1] = nullptr; break;
        case FREE_FN: api->freeFunction(fn); fn = nullptr; break;
        case FREE_M: api->freeMap(map[0]); map[0] = nullptr; break;
        case FREE_M2: api->freeMap(map[1]); map[1] = nullptr; break;
        case FREE_CORE: api->freeCore(core); break;
        }
        return true;
    }
    void verify() {
        auto alive = m.alive();
        for (size_t i = 0; i < m.o.size(); i++) {
            if (m.o[i].k == FRAME) continue;
            bool a = alive.count((int)i);
            int f = freed[i];
            if (a) CHECK(f == 0, "%s #%zu was freed while still referenced", m.o[i].k == NODE ? "node" : "function", i);
            else {
                CHECK(f <= 1, "%s #%zu freed %d times", m.o[i].k == NODE ? "node" : "function", i, f);
                // the worker that produced a frame may drop its reference a moment later
                for (int k = 0; freed[i] == 0 && k < 4000; k++) std::this_thread::sleep_for(std::chrono::microseconds(500));
                CHECK(freed[i] == 1, "%s #%zu was not freed although nothing refers to it", m.o[i].k == NODE ? "node" : "function", i);
            }
        }
    }
};
std::string describe(const std::vector<int> &p) {
    std::string s;
    for (int op : p) s += (s.empty() ? "" : "; ") + std::string(opName[op]);
    return s;
}
// releases what is left in the given order of slots
void finish(Real &r, const std::vector<int> &order) {
    for (int op : order) if (r.run(op)) r.verify();
}
void execPath(const std::vector<int> &path, const std::vector<int> &order, bool holdDep, int flags) {
    long before = liveNew;
    {
        Real r(holdDep, flags);
        for (int op : path) {
            CHECK(r.run(op), "model error: %s", opName[op]);
            step();
        }
        r.verify();
        finish(r, order);
        for (size_t i = 0; i < r.m.o.size(); i++) if (r.m.o[i].k != FRAME) CHECK(r.freed[i] == 1, "object #%zu was freed %d times in the end", i, r.freed[i].load());
    }
    for (int k = 0; liveNew != before && k < 4000; k++) std::this_thread::sleep_for(std::chrono::microseconds(500));
    CHECK(liveNew == before, "%ld allocations leaked after everything was released", liveNew - before);
    exec();
}
void explore(int maxLen, bool holdDep, int flags, const std::set<int> &skip) {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    { // warm up lazily created state
        Real r(false, 0);
        for (int op : {MK_A, GET_F, FREE_F, FREE_A, FREE_CORE}) r.run(op);
        r.verify();
    }
    std::set<std::string> seen;
    std::deque<std::pair<Model, std::vector<int>>> q;
    Model start;
    seen.insert(start.key());
    q.push_back({start, {}});
    // release orders tried at the end of every path: rotations of the natural order
    std::vector<int> rel = {FREE_CORE, FREE_A, FREE_B, FREE_C, FREE_F, FREE_G, FREE_FN, FREE_M, FREE_M2};
    uint64_t idx = 0;
    while (!q.empty()) {
        auto cur_ = q.front();
        q.pop_front();
        if ((int)cur_.second.size() >= maxLen) continue;
        for (int op = 0; op < NOP; op++) {
            if (skip.count(op)) continue;
            Model n = cur_.first;
            int made;
            if (!n.apply(op, made)) continue;
            auto path = cur_.second;
            path.push_back(op);
            idx++;
            if (item()) {
                std::vector<int> order = rel;
                std::rotate(order.begin(), order.begin() + idx % rel.size(), order.end());
                if (idx / rel.size() % 2) std::reverse(order.begin(), order.end());
                cur("%s | then release in order %s", describe(path).c_str(), describe(order).c_str());
                execPath(path, order, holdDep, flags);
                state(seq::hash(n.key()));
            }
            if (seen.insert(n.key()).second) q.push_back({n, path});
        }
    }
}
}

SEQ_CASE(lifeGraph, "life_states", "C07", true, "every state within 10 (thorough 13) operations of an object graph with a source, two filters on it, frame, frame copy, function owning a node reference, two maps and the core (create, put into maps and frame properties, copy, clear, release in any order, core freed at any point); after each state, everything is released in one of 18 orders") {
    explore(seq::thorough ? 13 : 10, false, 0, {});
}
SEQ_CASE(lifeHold, "life_states_owning", "C07", true, "as life_states with filters that own references to their inputs, within 9 (thorough 11) operations; graph inspection enabled") {
    explore(seq::thorough ? 11 : 9, true, ccfEnableGraphInspection, {});
}
SEQ_CASE(lifeOrders, "life_release_orders", "C07", true, "a full graph (source, two filters, two frames, function, two maps, property references, core): quick: all 2 x 7! release orders with either the maps last or source and filter first; thorough: all 9! orders") {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    { Real r(false, 0); for (int op : {MK_A, GET_F, FREE_F, FREE_A, FREE_CORE}) r.run(op); r.verify(); }
    std::vector<int> build = {MK_A, MK_B, MK_C, MK_FN, MK_M, GET_F, COPY_G, PROP_B, MAP_A, MAP_B, MAP_F, MAP_FN, COPY_M2};
    std::vector<int> rel = {FREE_CORE, FREE_A, FREE_B, FREE_C, FREE_F, FREE_G, FREE_FN, FREE_M, FREE_M2};
    std::sort(rel.begin(), rel.end());
    do {
        if (!seq::thorough) {
            // three of them in their natural place at the end
            bool ok = rel[8] == FREE_M2 && rel[7] == FREE_M;
            bool ok2 = rel[0] == FREE_A && rel[1] == FREE_B;
            if (!ok && !ok2) continue;
        }
        if (!item()) continue;
        cur("full graph released in order %s", describe(rel).c_str());
        execPath(build, rel, false, 0);
        state(seq::hash(describe(rel)));
    } while (std::next_permutation(rel.begin(), rel.end()));
}

SEQ_CASE(lifeConsume, "life_set_and_consume", "C07,C09", true, "storing a node (video, audio), frame (video, audio) or function in a map by reference or by handing the reference over, in replace and append mode, under every key (valid, invalid, empty) that is absent, holds one or two values of the same kind, an empty array or another kind, then every release order: result code, content and exactly one free of every object") {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    VSCore *c = api->createCore(ccfDisableAutoLoading);
    api->setThreadCount(1, c);
    static std::atomic<int> freedN[4];
    auto mk = [&](int kind, int id) -> void * {          // 0 video node, 1 audio node, 2 video frame, 3 audio frame, 4 function
        struct U { static void VS_CC nf(void *u, VSCore *, const VSAPI *) { freedN[(intptr_t)u]++; } static void VS_CC ff(void *u) { freedN[(intptr_t)u]++; } };
        if (kind == 0) {
            VSVideoInfo vi = {}; api->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, c); vi.width = 16; vi.height = 8; vi.numFrames = 3;
            return api->createVideoFilter2("V", &vi, srcGet, U::nf, fmParallel, nullptr, 0, (void *)(intptr_t)id, c);
        }
        if (kind == 1) {
            VSAudioInfo ai = {}; api->queryAudioFormat(&ai.format, stInteger, 16, 1, c); ai.sampleRate = 100; ai.numSamples = 50;
            return api->createAudioFilter2("A", &ai, srcGet, U::nf, fmParallel, nullptr, 0, (void *)(intptr_t)id, c);
        }
        if (kind == 2) { VSVideoFormat g; api->queryVideoFormat(&g, cfGray, stInteger, 8, 0, 0, c); return api->newVideoFrame(&g, 16, 8, nullptr, c); }
        if (kind == 3) { VSAudioFormat g; api->queryAudioFormat(&g, stInteger, 16, 1, c); return api->newAudioFrame(&g, 10, nullptr, c); }
        return api->createFunction(fnCall, (void *)(intptr_t)id, U::ff, c);
    };
    auto addRef = [&](int kind, void *p) -> void * { return kind < 2 ? (void *)api->addNodeRef((VSNode *)p) : kind < 4 ? (void *)api->addFrameRef((VSFrame *)p) : (void *)api->addFunctionRef((VSFunction *)p); };
    auto drop = [&](int kind, void *p) { kind < 2 ? api->freeNode((VSNode *)p) : kind < 4 ? api->freeFrame((VSFrame *)p) : api->freeFunction((VSFunction *)p); };
    auto put = [&](VSMap *m, const char *key, int kind, void *p, bool consume, int mode) -> int {
        if (kind < 2) return consume ? api->mapConsumeNode(m, key, (VSNode *)p, mode) : api->mapSetNode(m, key, (VSNode *)p, mode);
        if (kind < 4) return consume ? api->mapConsumeFrame(m, key, (VSFrame *)p, mode) : api->mapSetFrame(m, key, (VSFrame *)p, mode);
        return consume ? api->mapConsumeFunction(m, key, (VSFunction *)p, mode) : api->mapSetFunction(m, key, (VSFunction *)p, mode);
    };
    static const int types[] = {ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame, ptFunction};
    auto count = [&](int id, int kind) { return kind == 2 || kind == 3 ? -1 : freedN[id].load(); };
    auto used = [&] { VSCoreInfo ci; api->getCoreInfo(c, &ci); return ci.usedFramebufferSize; };
    CHECK(used() == 0, "memory in use before the start");
    // what the key holds before: absent, empty array, one of the same kind, two of the same kind, an int, one of each other kind
    for (int kind = 0; kind < 5; kind++) for (int consume = 0; consume < 2; consume++) for (int mode : {maReplace, maAppend}) for (const char *key : {"k", "", "1k", "k k", "_K9"}) for (int pre = 0; pre < 9; pre++) for (int shared = 0; shared < 2; shared++) for (int order = 0; order < 6; order++) {
        if (pre >= 4 && pre - 4 == kind) continue;
        bool valid = !strcmp(key, "k") || !strcmp(key, "_K9");
        if (!valid && (pre || shared)) continue;
        if (!item()) continue;
        cur("%s kind %d mode %d key '%s', key held %d before, map shared %d, release order %d", consume ? "consume" : "set", kind, mode, key, pre, shared, order);
        exec();
        for (auto &f : freedN) f = 0;
        VSMap *m = api->createMap(), *m2 = nullptr;
        void *a = mk(kind, 0), *b = nullptr, *d = nullptr;
        int okind = -1;
        if (pre == 1) api->mapSetEmpty(m, key, types[kind]);
        if (pre == 2 || pre == 3) { b = mk(kind, 1); CHECK(!put(m, key, kind, b, false, maReplace), "set failed"); okind = kind; }
        if (pre == 3) { d = mk(kind, 2); CHECK(!put(m, key, kind, addRef(kind, d), true, maAppend), "consume failed"); }
        if (pre == 4 + kind) abort();
        if (pre >= 4) { okind = pre - 4; b = mk(okind, 1); CHECK(!put(m, key, okind, addRef(okind, b), true, maReplace), "consume failed"); }
        if (shared) { m2 = api->createMap(); api->copyMap(m, m2); }
        bool expectOk = valid && (mode == maReplace || pre < 4);
        void *ref = consume ? addRef(kind, a) : a;
        int rc = put(m, key, kind, ref, consume, mode);
        CHECK((rc == 0) == expectOk, "returned %d", rc);
        int n = !expectOk ? (pre >= 4 ? 1 : valid ? 0 : -1) : mode == maReplace ? 1 : 1 + (pre == 2) + 2 * (pre == 3);
        CHECK(api->mapNumElements(m, key) == n, "%d elements, expected %d", api->mapNumElements(m, key), n);
        CHECK(api->mapGetType(m, key) == (n < 0 ? ptUnset : expectOk ? types[kind] : types[okind]), "wrong type");
        if (m2) CHECK(api->mapNumElements(m2, key) == (pre == 0 ? -1 : pre == 1 ? 0 : pre == 3 ? 2 : 1), "the copy changed");
        step(2);
        bool inM = expectOk, bIn = pre >= 2 && (!expectOk || mode == maAppend) ;
        // release: 0 handles, 1 map, 2 copy in one of the orders
        static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        bool h = true, mm = true, cc = m2 != nullptr;
        for (int k = 0; k < 3; k++) {
            int w = ord[order][k];
            if (w == 0) { drop(kind, a); if (b) drop(okind, b); if (d) drop(kind, d); h = false; }
            else if (w == 1) { api->freeMap(m); mm = false; }
            else if (m2) { api->freeMap(m2); cc = false; }
            int ea = !h && !(mm && inM), eb = b && !h && !(mm && bIn) && !cc, ed = d && !h && !(mm && bIn) && !cc;
            if (count(0, kind) >= 0) CHECK(freedN[0] == ea, "the object was freed %d times after step %d, expected %d", freedN[0].load(), k, ea);
            if (b && count(1, okind) >= 0) CHECK(freedN[1] == eb, "the earlier object was freed %d times after step %d, expected %d", freedN[1].load(), k, eb);
            if (d && count(2, kind) >= 0) CHECK(freedN[2] == ed, "the second earlier object was freed %d times after step %d, expected %d", freedN[2].load(), k, ed);
            step();
        }
        CHECK(used() == 0, "%lld bytes of frame memory still in use", (long long)used());
        state(seq::mix(seq::mix(kind * 2 + consume, mode * 16 + pre), shared * 8 + order));
    }
    api->freeCore(c);
}
