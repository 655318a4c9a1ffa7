// Runtime of the schedule explorer: a cooperative scheduler over real threads, a happens-before
// race detector, a poisoning arena allocator and a virtual clock. Everything reaches it through
// link-time interposition: the pthread entry points and the calls gcc -fsanitize=thread emits.
// Compiled WITHOUT -fsanitize=thread.
#include "rt.h"
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <linux/futex.h>
#include <exception>

using std::atomic;

namespace mc {

Shared *g_sh;
atomic<uint64_t> *g_visited;
Result *g_res;
const Scenario *g_scn;
bool g_traceOn;
int g_horizonMul = 1;
bool g_noPrune;

static constexpr int MAXT = 12;

// ---------------------------------------------------------------- arena allocator
static constexpr uintptr_t ARENA = 0x200000000000ull;
static constexpr size_t ARENA_SIZE = 1ull << 30;
static constexpr uintptr_t SHADOW = 0x210000000000ull;  // 64 bytes per 8
static constexpr uintptr_t GMAP = 0x230000000000ull;    // 1 byte per 16
static atomic<uintptr_t> g_bump;
static atomic<int> g_arenaInit;
static bool g_child;            // inside an execution
static size_t g_liveBase;
static uintptr_t g_childStart;
static atomic<long> g_live;

struct BlkHdr { uint64_t size; uint64_t magic; };
static constexpr uint64_t MAGIC_LIVE = 0x6d634c4956450001ull, MAGIC_FREE = 0x6d63465245450002ull;

static constexpr uint64_t IGN = 1ull << 63;
static bool ignoreAlloc();

static void arenaInit() {
    int e = 0;
    if (!g_arenaInit.compare_exchange_strong(e, 1)) {
        while (g_arenaInit.load() != 2) {}
        return;
    }
    auto map = [](uintptr_t at, size_t sz) {
        void *p = mmap(reinterpret_cast<void *>(at), sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(at)) {
            static const char m[] = "mc: cannot map arena\n";
            (void)!write(2, m, sizeof(m) - 1);
            _exit(2);
        }
    };
    map(ARENA, ARENA_SIZE);
    map(SHADOW, ARENA_SIZE * 8);
    map(GMAP, ARENA_SIZE / 16);
    g_bump.store(ARENA + 4096);
    g_arenaInit.store(2);
}

static inline uint8_t *gstate(uintptr_t a) { return reinterpret_cast<uint8_t *>(GMAP + ((a - ARENA) >> 4)); }

static void *arenaAlloc(size_t size, size_t align) {
    if (g_arenaInit.load(std::memory_order_acquire) != 2)
        arenaInit();
    if (align < 16)
        align = 16;
    size_t need = ((size + 15) & ~size_t(15)) + 32; // header before, redzone after
    uintptr_t cur = g_bump.load(), user, nxt;
    do {
        user = (cur + 16 + align - 1) & ~(uintptr_t(align) - 1);
        nxt = user - 16 + need;
    } while (!g_bump.compare_exchange_weak(cur, nxt));
    if (nxt > ARENA + ARENA_SIZE) {
        errno = ENOMEM;
        return nullptr;
    }
    BlkHdr *h = reinterpret_cast<BlkHdr *>(user - 16);
    h->size = size;
    h->magic = MAGIC_LIVE | (ignoreAlloc() ? IGN : 0);
    memset(gstate(user), 1, (size + 15) >> 4);
    g_live++;
    return reinterpret_cast<void *>(user);
}

static void raceFree(uintptr_t a, size_t sz, void *pc);
static void freeCheckSync(uintptr_t a, size_t sz);

static void arenaFree(void *p, void *pc) {
    if (!p)
        return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a < ARENA || a >= ARENA + ARENA_SIZE)
        return; // not ours (very early libc allocations)
    BlkHdr *h = reinterpret_cast<BlkHdr *>(a - 16);
    if (h->magic == MAGIC_FREE)
        violation("double free of block %p (%llu bytes) pc=%p", p, (unsigned long long)h->size, pc);
    if ((h->magic & ~IGN) != MAGIC_LIVE)
        violation("free of invalid pointer %p pc=%p", p, pc);
    size_t sz = h->size;
    if (g_child) {
        raceFree(a, sz, pc);
        freeCheckSync(a, sz);
    }
    h->magic = MAGIC_FREE;
    memset(gstate(a), 2, (sz + 15) >> 4);
    g_live--;
}

// ---------------------------------------------------------------- threads
enum OpKind : uint8_t { opNone, opRun, opLock, opTry, opUnlock, opWait, opSignal, opJoin, opAtomic, opYield, opGuard, opOnce, opCreate, opQuiet };
static const char *opName[] = { "none", "run", "lock", "trylock", "unlock", "condwait", "signal", "join", "atomic", "yield", "guard", "once", "create", "quiesce" };

struct Dtor { void (*fn)(void *); void *arg; };

struct Thr {
    int id;
    bool live, finished, detached;
    OpKind op;
    uintptr_t addr;     // object
    uintptr_t addr2;    // mutex of a cond wait
    uintptr_t pc;
    bool signaled, timed, timedOut, spuriousWake;
    int joinTarget;
    uint32_t vc[MAXT];
    uint64_t h;
    atomic<int> go;
    pthread_t real;
    void *(*fn)(void *);
    void *arg, *ret;
    Dtor dtors[64];
    int ndtors;
};

static Thr g_thr[MAXT];
static int g_nthr;
static bool g_multi;          // a second thread exists or existed
static thread_local Thr *self __attribute__((tls_model("initial-exec")));
static thread_local int g_quiet __attribute__((tls_model("initial-exec")));
static bool g_inCreate;
static bool ignoreAlloc() { return g_child && (!self || g_inCreate); } // thread bookkeeping of libc, not a leak of the library
static uint64_t g_fp;         // fingerprint of the happens-before history
static uint64_t g_steps, g_switches;
static uint64_t g_check = 0x1234;
static uint32_t g_idx;        // next choice point
static uint32_t g_cost;
static const Item *g_item;
static uint32_t g_devPos;
static int64_t g_clock = 1000000000000ll;
static uint64_t g_clockHash = 77;
static uint64_t g_outcome = 0;
static char g_lastFatal[1024];

static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0xff51afd7ed558ccdull; x ^= x >> 32;
    return x;
}

struct Obj {
    uintptr_t addr;
    uint64_t h, reads;
    uint32_t vc[MAXT];
    int16_t owner;     // mutex owner thread id, -1 free
    uint16_t rec;
    uint16_t readers, writers; // thread bitmasks since multi-threaded (atomics)
    bool tried;
    uint8_t npcs;
    uintptr_t pcs[8];
};
static constexpr size_t OBJTAB = 1 << 14, OBJIDX = 1 << 15;
static Obj g_obj[OBJTAB];          // dense, so that an execution dirties few pages
static uint16_t g_objIdx[OBJIDX];  // 1-based
static size_t g_nobj;

static Obj *objOf(uintptr_t a) {
    size_t i = mix(a, 5) & (OBJIDX - 1);
    while (g_objIdx[i]) {
        Obj *o = &g_obj[g_objIdx[i] - 1];
        if (o->addr == a)
            return o;
        i = (i + 1) & (OBJIDX - 1);
    }
    if (g_nobj + 1 >= OBJTAB)
        violation("mc-internal: object table full");
    Obj *o = &g_obj[g_nobj++];
    g_objIdx[i] = g_nobj;
    o->addr = a;
    o->h = mix(a, 11);
    o->owner = -1;
    return o;
}

static bool pcIn(atomic<uint64_t> *tab, uint64_t pc) {
    size_t i = mix(pc, 3) & (Shared::PCTAB - 1);
    while (true) {
        uint64_t v = tab[i].load(std::memory_order_relaxed);
        if (v == pc)
            return true;
        if (!v)
            return false;
        i = (i + 1) & (Shared::PCTAB - 1);
    }
}
static void pcAdd(uint64_t pc) {
    if (pcIn(g_sh->pcsNext, pc))
        return;
    size_t i = mix(pc, 3) & (Shared::PCTAB - 1);
    while (true) {
        uint64_t v = 0;
        if (g_sh->pcsNext[i].compare_exchange_strong(v, pc)) {
            g_sh->newPCs++;
            return;
        }
        if (v == pc)
            return;
        i = (i + 1) & (Shared::PCTAB - 1);
    }
}

static void fwait(atomic<int> *f, int v) { syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(atomic<int> *f) { syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void finishChild(int status) {
    g_res->npts = g_idx < MAXPTS ? g_idx : MAXPTS;
    g_res->steps = g_steps;
    g_res->switches = g_switches;
    g_res->maxThreads = g_nthr;
    g_res->outcomeHash = g_outcome;
    g_res->status = status;
    _exit(0);
}

static void dumpThreads(char *buf, size_t n) {
    size_t k = 0;
    for (int i = 0; i < g_nthr && k < n; i++) {
        Thr &t = g_thr[i];
        if (t.finished)
            k += snprintf(buf + k, n - k, " T%d:finished", i);
        else
            k += snprintf(buf + k, n - k, " T%d:%s%s@%p", i, opName[t.op], t.op == opWait ? (t.signaled ? "(signaled)" : "(waiting)") : "", (void *)t.pc);
        if (!t.finished && (t.op == opLock || (t.op == opWait && t.signaled))) {
            Obj *o = objOf(t.op == opWait ? t.addr2 : t.addr);
            if (k < n)
                k += snprintf(buf + k, n - k, "[held by T%d]", o->owner);
        }
    }
}

void violation(const char *fmt, ...) {
    static atomic<int> once;
    if (!g_child) {
        va_list ap;
        va_start(ap, fmt);
        vfprintf(stderr, fmt, ap);
        va_end(ap);
        fprintf(stderr, "\n");
        _exit(2);
    }
    if (once.exchange(1))
        _exit(0);
    char m[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof(m), fmt, ap);
    va_end(ap);
    size_t k = snprintf(g_res->msg, sizeof(g_res->msg), "%s", m);
    if (g_lastFatal[0] && k < sizeof(g_res->msg))
        snprintf(g_res->msg + k, sizeof(g_res->msg) - k, " | fatal log: %s", g_lastFatal);
    if (g_traceOn)
        fprintf(stderr, "VIOLATION: %s\n", g_res->msg);
    finishChild(stViolation);
    __builtin_unreachable();
}

void noteFatal(const char *m) { snprintf(g_lastFatal, sizeof(g_lastFatal), "%s", m); }

static uint64_t g_own[1 << 12];
static bool ownKey(uint64_t k, bool add) {
    size_t i = mix(k, 4) & 4095;
    for (int n = 0; n < 16; n++, i = (i + 1) & 4095) {
        if (g_own[i] == k)
            return true;
        if (!g_own[i]) {
            if (add)
                g_own[i] = k;
            return false;
        }
    }
    return false;
}

// records a choice; returns the alternative to take
static unsigned pick(unsigned n, const uint8_t *cost, uint64_t key) {
    if (n > MAXALT)
        n = MAXALT;
    g_check = mix(g_check, n * 1000 + (key & 0xff));
    uint32_t i = g_idx++;
    if (i >= MAXPTS)
        finishChild(stTruncated);
    bool free_ = g_item->lastIdx == ~0u || i > g_item->lastIdx;
    if (free_ && !g_noPrune && !(g_scn->flags & fNoPrune)) {
        uint64_t k = mix(mix(g_fp, key), mix(g_clockHash, n)) & ~63ull;
        size_t mask = g_sh->visitedMask;
        size_t s = mix(k, 9) & mask;
        for (int probe = 0; probe < 64; probe++, s = (s + 1) & mask) {
            uint64_t v = g_visited[s].load(std::memory_order_relaxed);
            if (!v) {
                uint64_t e = 0;
                if (g_visited[s].compare_exchange_strong(e, k | (g_cost + 1))) {
                    g_sh->visitedCount++;
                    ownKey(k, true);
                    break;
                }
                v = e;
            }
            if ((v & ~63ull) == k) {
                if ((v & 63) <= g_cost + 1) {
                    if (ownKey(k, false))
                        g_sh->counters[31]++; // an execution must never cut itself short
                    g_idx = i; // this point and everything after it is explored elsewhere
                    finishChild(stPruned);
                }
                g_visited[s].compare_exchange_strong(v, k | (g_cost + 1));
                break;
            }
        }
    }
    Pt &p = g_res->pts[i];
    p.check = g_check;
    p.nalts = n;
    p.costBefore = g_cost;
    memcpy(p.cost, cost, n);
    unsigned c = 0;
    if (g_devPos < g_item->ndev && (g_item->dev[g_devPos] >> 8) == i) {
        c = g_item->dev[g_devPos] & 0xff;
        g_devPos++;
        if (c >= n)
            finishChild(stDiverged);
        if (i == g_item->lastIdx && g_item->check && g_check != g_item->check)
            finishChild(stDiverged);
    }
    g_cost += cost[c];
    if (c)
        g_check = mix(g_check, c);
    return c;
}

static bool mutexFree(uintptr_t a, int id, bool recursive) {
    Obj *o = objOf(a);
    return o->owner < 0 || (recursive && o->owner == id);
}
static bool isRecursive(uintptr_t m) { return (reinterpret_cast<pthread_mutex_t *>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

static bool enabled(Thr &t) {
    if (!t.live || t.finished)
        return false;
    switch (t.op) {
    case opLock: return mutexFree(t.addr, t.id, isRecursive(t.addr));
    case opWait: return t.signaled && mutexFree(t.addr2, t.id, false);
    case opJoin: return g_thr[t.joinTarget].finished;
    case opGuard: return objOf(t.addr)->owner < 0;
    case opQuiet: return false; // only when nothing else can run, see sched
    default: return true;
    }
}

static void switchTo(Thr *t) {
    if (t == self)
        return;
    g_switches++;
    Thr *me = self;
    t->go.store(1, std::memory_order_release);
    fwake(&t->go);
    if (me->finished)
        return;
    while (me->go.load(std::memory_order_acquire) == 0)
        fwait(&me->go, 0);
    me->go.store(0, std::memory_order_relaxed);
}

static void event(Thr *t, Obj *o, bool write, uint64_t kind) {
    uint64_t nh;
    if (write) {
        nh = mix(mix(t->h, o->h), mix(o->reads, kind));
        o->h = nh;
        o->reads = 0;
    } else {
        nh = mix(mix(t->h, o->h), kind ^ 0x55);
        o->reads += nh;
    }
    g_fp -= mix(t->id + 1, t->h);
    t->h = nh;
    g_fp += mix(t->id + 1, t->h);
}

// a step that involves no shared object
static void localEvent(Thr *t, uint64_t kind) {
    g_fp -= mix(t->id + 1, t->h);
    t->h = mix(t->h, kind);
    g_fp += mix(t->id + 1, t->h);
}

static void sched(bool isYield = false) {
    Thr *me = self;
    g_steps++;
    if (g_steps > 400000ull * g_horizonMul)
        violation("no termination within %llu steps (livelock)", (unsigned long long)g_steps);
    if (!g_multi)
        if (!me->finished && enabled(*me))
            return;
    Thr *alts[MAXALT];
    uint8_t cost[MAXALT];
    bool spur[MAXALT];
    unsigned n = 0;
    bool meEn = !me->finished && enabled(*me);
    // preempting in front of an atomic or an unlock costs two deviations, in front of a blocking
    // synchronisation operation one
    uint8_t base = (meEn && !isYield) ? ((me->op == opAtomic || me->op == opUnlock) ? 2 : 1) : 0;
    uint8_t other = base; // the first alternative to a thread that cannot continue is free
    bool delay = g_scn->flags & fDelay;
    if (meEn) { alts[n] = me; spur[n] = false; cost[n++] = 0; }
    for (int k = 1; k <= g_nthr; k++) {
        Thr &t = g_thr[(me->id + k) % g_nthr];
        if (&t != me && n < MAXALT && enabled(t)) { alts[n] = &t; spur[n] = false; cost[n] = (delay && n > 0 && !other) ? 1 : other; n++; }
    }
    if (n == 0)
        for (int i = 0; i < g_nthr && n < MAXALT; i++)
            if (g_thr[i].live && !g_thr[i].finished && g_thr[i].op == opQuiet) { alts[n] = &g_thr[i]; spur[n] = false; cost[n++] = 0; }
    if (n == 0) {
        bool any = false;
        for (int i = 0; i < g_nthr; i++)
            any |= g_thr[i].live && !g_thr[i].finished;
        // timed waits time out when nothing else can run
        for (int i = 0; i < g_nthr && n < MAXALT; i++) {
            Thr &t = g_thr[i];
            if (t.live && !t.finished && t.op == opWait && t.timed && mutexFree(t.addr2, t.id, false)) { alts[n] = &t; spur[n] = true; cost[n++] = 0; }
        }
        if (n == 0 && any) {
            char b[1500] = "";
            dumpThreads(b, sizeof(b));
            violation("deadlock:%s", b);
        }
        if (n == 0)
            return;
    } else if (g_scn->flags & fSpurious) {
        for (int i = 0; i < g_nthr && n < MAXALT; i++) {
            Thr &t = g_thr[i];
            if (t.live && !t.finished && t.op == opWait && !t.signaled && mutexFree(t.addr2, t.id, false)) { alts[n] = &t; spur[n] = true; cost[n++] = base + 1; }
        }
    } else {
        for (int i = 0; i < g_nthr && n < MAXALT; i++) {
            Thr &t = g_thr[i];
            if (t.live && !t.finished && t.op == opWait && t.timed && !t.signaled && mutexFree(t.addr2, t.id, false)) { alts[n] = &t; spur[n] = true; cost[n++] = base + 1; }
        }
    }
    unsigned c = 0;
    if (n > 1)
        c = pick(n, cost, mix(me->id, (meEn ? 2 : 4) + (isYield ? 1 : 0)));
    if (spur[c]) {
        alts[c]->signaled = true;
        alts[c]->spuriousWake = true;
        if (alts[c]->timed)
            alts[c]->timedOut = true;
    }
    if (g_traceOn && alts[c] != me)
        fprintf(stderr, "  -- switch T%d -> T%d%s\n", me->id, alts[c]->id, (meEn && cost[c]) ? " (preempt)" : "");
    switchTo(alts[c]);
}

static void trace(const char *what, uintptr_t a, uintptr_t pc) {
    if (g_traceOn)
        fprintf(stderr, "T%d %s obj=%p pc=%p\n", self->id, what, (void *)a, (void *)pc);
}

static inline void tick(Thr *t) { t->vc[t->id]++; }
static inline void joinVC(uint32_t *a, const uint32_t *b) {
    for (int i = 0; i < MAXT; i++)
        if (b[i] > a[i])
            a[i] = b[i];
}

static void block(OpKind k, uintptr_t addr, uintptr_t addr2, uintptr_t pc, bool isYield = false) {
    Thr *t = self;
    t->op = k;
    t->addr = addr;
    t->addr2 = addr2;
    t->pc = pc;
    sched(isYield);
    t->op = opRun;
}

#define ACTIVE (g_child && self)

// ---------------------------------------------------------------- race detector
struct RCell { uint32_t clk; uint8_t tid, mask; uint16_t pad; uint64_t pc; };
struct Cell { RCell w; RCell r[3]; };
static_assert(sizeof(Cell) == 64);
static constexpr size_t XTAB = 1 << 15, XIDX = 1 << 16;
static uintptr_t g_xkey[XTAB];
static Cell g_xcell[XTAB];
static uint16_t g_xidx[XIDX];
static size_t g_nx;

static Cell *cellOf(uintptr_t g) { // g = addr >> 3
    uintptr_t a = g << 3;
    if (a >= ARENA && a < ARENA + ARENA_SIZE)
        return reinterpret_cast<Cell *>(SHADOW + ((a - ARENA) >> 3) * sizeof(Cell));
    size_t i = mix(g, 21) & (XIDX - 1);
    while (g_xidx[i]) {
        if (g_xkey[g_xidx[i] - 1] == g)
            return &g_xcell[g_xidx[i] - 1];
        i = (i + 1) & (XIDX - 1);
    }
    if (g_nx + 1 >= XTAB)
        return nullptr;
    g_xkey[g_nx] = g;
    g_xidx[i] = ++g_nx;
    return &g_xcell[g_nx - 1];
}

[[noreturn]] static void raceReport(uintptr_t a, bool w, uintptr_t pc, const RCell &o, bool ow, Thr *t) {
    violation("data race on %p: T%d %s at pc=%p vs T%d %s at pc=%p", (void *)a, t->id, w ? "write" : "read", (void *)pc, o.tid, ow ? "write" : "read", (void *)(uintptr_t)o.pc);
}

static inline void accessGran(Thr *t, uintptr_t g, uint8_t mask, bool write, uintptr_t pc) {
    Cell *c = cellOf(g);
    if (!c)
        return;
    if (c->w.mask & mask) {
        if (c->w.tid != t->id && c->w.clk > t->vc[c->w.tid])
            raceReport(g << 3, write, pc, c->w, true, t);
    }
    if (write) {
        for (auto &r : c->r)
            if ((r.mask & mask) && r.tid != t->id && r.clk > t->vc[r.tid])
                raceReport(g << 3, write, pc, r, false, t);
        if (c->w.tid == t->id && c->w.clk == t->vc[t->id])
            c->w.mask |= mask;
        else
            c->w = { t->vc[t->id], (uint8_t)t->id, mask, 0, pc };
        c->w.pc = pc;
    } else {
        RCell *slot = nullptr;
        for (auto &r : c->r) {
            if (r.mask && r.tid == t->id) {
                if (r.clk == t->vc[t->id])
                    r.mask |= mask;
                else
                    r = { t->vc[t->id], (uint8_t)t->id, mask, 0, pc };
                return;
            }
            if (!slot && (!r.mask || r.clk <= t->vc[r.tid]))
                slot = &r;
        }
        if (!slot)
            slot = &c->r[(t->id + t->vc[t->id]) % 3];
        *slot = { t->vc[t->id], (uint8_t)t->id, mask, 0, pc };
    }
}

static void access(uintptr_t a, size_t sz, bool write, uintptr_t pc) {
    Thr *t = self;
    if (!g_child || !t || g_quiet)
        return;
    if (a >= ARENA && a < ARENA + ARENA_SIZE) {
        uint8_t s = *gstate(a), s2 = *gstate(a + sz - 1);
        if (s != 1 || s2 != 1)
            violation("%s of %s heap memory at %p size %zu by T%d pc=%p", write ? "write" : "read", (s == 2 || s2 == 2) ? "freed" : "unallocated", (void *)a, sz, t->id, (void *)pc);
    }
    if (!g_multi || (g_scn->flags & fNoRace))
        return;
    uintptr_t end = a + sz;
    while (a < end) {
        uintptr_t g = a >> 3;
        uintptr_t ge = (g + 1) << 3;
        uintptr_t e = end < ge ? end : ge;
        uint8_t mask = 0;
        for (uintptr_t b = a; b < e; b++)
            mask |= 1 << (b & 7);
        accessGran(t, g, mask, write, pc);
        a = e;
    }
}

static void raceFree(uintptr_t a, size_t sz, void *pc) {
    Thr *t = self;
    if (!t || g_quiet || !g_multi || (g_scn->flags & fNoRace))
        return;
    if (sz > 4096)
        sz = 4096;
    for (uintptr_t g = a >> 3; g < (a + sz + 7) >> 3; g++)
        accessGran(t, g, 0xff, true, reinterpret_cast<uintptr_t>(pc));
}

static void freeCheckSync(uintptr_t a, size_t sz) {
    if (!g_multi)
        return;
    for (int i = 0; i < g_nthr; i++) {
        Thr &t = g_thr[i];
        if (!t.live || t.finished || &t == self)
            continue;
        if ((t.op == opLock || t.op == opTry || t.op == opUnlock || t.op == opWait) && ((t.addr >= a && t.addr < a + sz) || (t.op == opWait && t.addr2 >= a && t.addr2 < a + sz)))
            violation("memory of a mutex/condition variable freed while T%d is using it (%s at %p)", i, opName[t.op], (void *)t.pc);
    }
}

// ---------------------------------------------------------------- scenario API
unsigned choose(unsigned n, unsigned c, const char *tag) {
    if (!ACTIVE || n < 2)
        return 0;
    if (n > MAXALT)
        violation("mc-internal: too many alternatives");
    uint8_t cost[MAXALT];
    for (unsigned i = 0; i < n; i++)
        cost[i] = i ? c : 0;
    uint64_t th = 0;
    for (const char *p = tag; *p; p++)
        th = mix(th, *p);
    unsigned r = pick(n, cost, mix(self->id + 100, th));
    Thr *t = self;
    g_fp -= mix(t->id + 1, t->h);
    t->h = mix(t->h, mix(th, r));
    g_fp += mix(t->id + 1, t->h);
    if (g_traceOn)
        fprintf(stderr, "T%d choose %s = %u\n", t->id, tag, r);
    return r;
}
void outcome(const std::string &s) {
    for (char ch : s)
        g_outcome = mix(g_outcome, (unsigned char)ch);
    size_t k = strlen(g_res->outcomeStr);
    snprintf(g_res->outcomeStr + k, sizeof(g_res->outcomeStr) - k, "%s;", s.c_str());
}
int tid() { return self ? self->id : -1; }
bool exploring() { return g_child; }
void yieldPoint(const char *) {
    if (ACTIVE && g_multi)
        block(opYield, 0, 0, (uintptr_t)__builtin_return_address(0), true), localEvent(self, opYield);
}
void quiesce() {
    if (ACTIVE && g_multi)
        block(opQuiet, 0, 0, (uintptr_t)__builtin_return_address(0)), localEvent(self, opQuiet);
}
void advanceClock(int64_t ns) { g_clock += ns; g_clockHash = mix(g_clockHash, ns); }
size_t liveBlocks() { return g_live.load(); }
void note(const char *fmt, ...) {
    if (!g_traceOn)
        return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "T%d note: ", self ? self->id : -1);
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
}
void count(int slot, uint64_t n) { g_sh->counters[slot] += n; }
Quiet::Quiet() { g_quiet++; }
Quiet::~Quiet() { g_quiet--; }

// walks the arena for blocks allocated in this execution and still live
void expectNoLeaks(const char *when) {
    if (g_scn->flags & fNoLeak)
        return;
    uintptr_t end = g_bump.load();
    size_t blocks = 0, bytes = 0;
    uintptr_t first = 0;
    size_t firstSz = 0;
    // block headers are found by scanning the state map for allocated runs
    for (uintptr_t a = g_childStart; a < end; a += 16) {
        if (*gstate(a) == 1 && *gstate(a - 16) != 1) {
            BlkHdr *h = reinterpret_cast<BlkHdr *>(a - 16);
            if (h->magic == MAGIC_LIVE) {
                blocks++;
                bytes += h->size;
                if (!first) {
                    first = a;
                    firstSz = h->size;
                }
            }
        }
    }
    if (blocks)
        violation("memory leak at %s: %zu blocks, %zu bytes still allocated (first: %zu bytes at %p)", when, blocks, bytes, firstSz, (void *)first);
}

// ---------------------------------------------------------------- child
static void onSignal(int sig, siginfo_t *si, void *) {
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL";
    if (g_child)
        violation("crash: %s (address %p) in T%d", n, sig == SIGABRT ? nullptr : si->si_addr, self ? self->id : -1);
    _exit(2);
}

void rtInit() {
    if (g_arenaInit.load() != 2)
        arenaInit();
}

static void runBody(const Item &it, void (*body)());
void runChild(const Item &it) { runBody(it, g_scn->run); }

std::string sequential(void (*fn)()) {
    Result *r = static_cast<Result *>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    static Item it;
    memset((void *)&it, 0, sizeof(it));
    it.lastIdx = ~1u;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        g_res = r;
        g_noPrune = true;
        runBody(it, fn);
    }
    int st = 0;
    waitpid(p, &st, 0);
    std::string m;
    if (r->status != stOk)
        m = r->msg[0] ? (const char *)r->msg : "the sequential run did not finish";
    munmap(r, sizeof(Result));
    return m;
}

static void runBody(const Item &it, void (*body)()) {
    g_item = &it;
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    static char altstk[65536];
    stack_t ss = { altstk, 0, sizeof(altstk) };
    sigaltstack(&ss, nullptr);
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL })
        sigaction(s, &sa, nullptr);
    std::set_terminate([]() { violation("std::terminate called in T%d", self ? self->id : -1); });
    g_res->status = stNone;
    g_res->npts = 0;
    g_res->msg[0] = 0;
    g_res->outcomeStr[0] = 0;
    Thr &t = g_thr[0];
    t.id = 0;
    t.live = true;
    t.op = opRun;
    t.h = 42;
    t.vc[0] = 1;
    t.real = 0;
    g_nthr = 1;
    self = &t;
    g_fp = mix(1, t.h);
    g_childStart = g_bump.load() + 16;
    g_child = true;
    body();
    finishChild(stOk);
    __builtin_unreachable();
}

static void runDtors(Thr *t) {
    while (t->ndtors > 0) {
        Dtor d = t->dtors[--t->ndtors];
        d.fn(d.arg);
    }
}

static void *trampoline(void *p) {
    Thr *t = static_cast<Thr *>(p);
    self = t;
    while (t->go.load(std::memory_order_acquire) == 0)
        fwait(&t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
    t->op = opRun;
    t->ret = t->fn(t->arg);
    runDtors(t);
    Obj *o = objOf((uintptr_t)t);
    event(t, o, true, 90);
    joinVC(o->vc, t->vc);
    t->finished = true;
    if (g_traceOn)
        fprintf(stderr, "T%d finished\n", t->id);
    self = t;
    sched();
    self = nullptr;
    return t->ret;
}

template <class F> static F real(const char *n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

} // namespace mc

using namespace mc;
#define PC ((uintptr_t)__builtin_return_address(0))

extern "C" {

// ---- allocation
void *malloc(size_t n) { return arenaAlloc(n, 16); }
void free(void *p) { arenaFree(p, __builtin_return_address(0)); }
void *calloc(size_t a, size_t b) { size_t r; if (__builtin_mul_overflow(a, b, &r)) return nullptr; return arenaAlloc(r, 16); }
void *realloc(void *p, size_t n) {
    if (!p)
        return arenaAlloc(n, 16);
    if (!n) {
        arenaFree(p, __builtin_return_address(0));
        return nullptr;
    }
    void *q = arenaAlloc(n, 16);
    size_t old = reinterpret_cast<BlkHdr *>((uintptr_t)p - 16)->size;
    memcpy(q, p, old < n ? old : n);
    arenaFree(p, __builtin_return_address(0));
    return q;
}
void *memalign(size_t al, size_t n) { return arenaAlloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return arenaAlloc(n, al); }
int posix_memalign(void **p, size_t al, size_t n) { *p = arenaAlloc(n, al); return *p ? 0 : ENOMEM; }
void *valloc(size_t n) { return arenaAlloc(n, 4096); }
size_t malloc_usable_size(void *p) { return p ? reinterpret_cast<BlkHdr *>((uintptr_t)p - 16)->size : 0; }
}
// operator new/delete come from libstdc++ and call malloc/free; override delete for a useful pc
void operator delete(void *p) noexcept { arenaFree(p, __builtin_return_address(0)); }
void operator delete(void *p, std::size_t) noexcept { arenaFree(p, __builtin_return_address(0)); }
void operator delete[](void *p) noexcept { arenaFree(p, __builtin_return_address(0)); }
void operator delete[](void *p, std::size_t) noexcept { arenaFree(p, __builtin_return_address(0)); }

extern "C" {

// ---- mutexes
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!ACTIVE)
        return 0;
    uintptr_t a = (uintptr_t)m;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("lock of a mutex in freed memory %p pc=%p", m, (void *)PC);
    block(opLock, a, 0, PC);
    Thr *t = self;
    Obj *o = objOf(a);
    if (o->owner == t->id)
        o->rec++;
    else {
        o->owner = t->id;
        o->rec = 1;
    }
    event(t, o, true, opLock);
    joinVC(t->vc, o->vc);
    trace("lock", a, PC);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ACTIVE)
        return 0;
    uintptr_t a = (uintptr_t)m;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("trylock of a mutex in freed memory %p pc=%p", m, (void *)PC);
    block(opTry, a, 0, PC);
    Thr *t = self;
    Obj *o = objOf(a);
    if (g_multi && !o->tried) {
        o->tried = true;
        for (int i = 0; i < o->npcs; i++)
            pcAdd(o->pcs[i]);
    }
    if (o->owner >= 0 && !(isRecursive(a) && o->owner == t->id)) {
        event(t, o, false, opTry);
        trace("trylock-busy", a, PC);
        return EBUSY;
    }
    if (o->owner == t->id)
        o->rec++;
    else {
        o->owner = t->id;
        o->rec = 1;
    }
    event(t, o, true, opTry);
    joinVC(t->vc, o->vc);
    trace("trylock-ok", a, PC);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!ACTIVE)
        return 0;
    uintptr_t a = (uintptr_t)m;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("unlock of a mutex in freed memory %p pc=%p", m, (void *)PC);
    Thr *t = self;
    Obj *o = objOf(a);
    if (g_multi) {
        if (o->tried)
            pcAdd(PC);
        else if (o->npcs < 8) {
            bool have = false;
            for (int i = 0; i < o->npcs; i++)
                have |= o->pcs[i] == PC;
            if (!have)
                o->pcs[o->npcs++] = PC;
        }
        if (pcIn(g_sh->pcs, PC))
            block(opUnlock, a, 0, PC);
    }
    if (o->owner != t->id)
        violation("unlock of a mutex not held by the calling thread T%d pc=%p", t->id, (void *)PC);
    trace("unlock", a, PC);
    if (--o->rec == 0) {
        o->owner = -1;
        memcpy(o->vc, t->vc, sizeof(o->vc));
        tick(t);
    }
    event(t, o, true, opUnlock);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) {
    memset(m, 0, sizeof(*m));
    if (at) {
        int k;
        pthread_mutexattr_gettype(at, &k);
        m->__data.__kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (ACTIVE && objOf((uintptr_t)m)->owner >= 0)
        violation("mutex destroyed while locked pc=%p", (void *)PC);
    return 0;
}

// ---- condition variables
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uintptr_t pc) {
    if (!ACTIVE)
        return 0;
    Thr *t = self;
    uintptr_t a = (uintptr_t)c, b = (uintptr_t)m;
    Obj *mo = objOf(b), *co = objOf(a);
    if (mo->owner != t->id)
        violation("condition wait without holding the mutex pc=%p", (void *)pc);
    trace("cond-wait", a, pc);
    // release
    mo->owner = -1;
    mo->rec = 0;
    memcpy(mo->vc, t->vc, sizeof(mo->vc));
    tick(t);
    event(t, mo, true, opUnlock);
    event(t, co, true, opWait);
    t->signaled = false;
    t->timed = timed;
    t->timedOut = false;
    t->spuriousWake = false;
    block(opWait, a, b, pc);
    // reacquire
    if (mo->owner >= 0)
        violation("mc-internal: cond reacquire");
    mo->owner = t->id;
    mo->rec = 1;
    event(t, co, true, opWait + 100 + (t->spuriousWake ? 1 : 0));
    event(t, mo, true, opLock);
    joinVC(t->vc, mo->vc);
    trace(t->spuriousWake ? "cond-woke-spuriously" : "cond-woke", a, pc);
    return t->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, false, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return condWait(c, m, true, PC); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return condWait(c, m, true, PC); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!ACTIVE)
        return 0;
    uintptr_t a = (uintptr_t)c;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("signal of a condition variable in freed memory %p pc=%p", c, (void *)PC);
    if (g_multi)
        block(opSignal, a, 0, PC);
    Thr *w[MAXALT];
    unsigned n = 0;
    for (int i = 0; i < g_nthr && n < MAXALT; i++) {
        Thr &t = g_thr[i];
        if (t.live && !t.finished && t.op == opWait && t.addr == a && !t.signaled)
            w[n++] = &t;
    }
    event(self, objOf(a), true, opSignal);
    if (n) {
        unsigned k = choose(n, 1, "notify_one");
        w[k]->signaled = true;
    }
    trace("signal", a, PC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!ACTIVE)
        return 0;
    uintptr_t a = (uintptr_t)c;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("broadcast of a condition variable in freed memory %p pc=%p", c, (void *)PC);
    if (g_multi)
        block(opSignal, a, 0, PC);
    for (int i = 0; i < g_nthr; i++) {
        Thr &t = g_thr[i];
        if (t.live && !t.finished && t.op == opWait && t.addr == a)
            t.signaled = true;
    }
    event(self, objOf(a), true, opSignal + 50);
    trace("broadcast", a, PC);
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (ACTIVE)
        for (int i = 0; i < g_nthr; i++) {
            Thr &t = g_thr[i];
            if (t.live && !t.finished && t.op == opWait && t.addr == (uintptr_t)c && !t.signaled)
                violation("condition variable destroyed while T%d waits on it pc=%p", i, (void *)PC);
        }
    return 0;
}

// ---- threads
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!ACTIVE)
        return rc(out, at, fn, arg);
    if (g_nthr >= MAXT)
        violation("more than %d threads created", MAXT);
    Thr *me = self;
    Thr &t = g_thr[g_nthr];
    t.id = g_nthr;
    t.live = true;
    t.op = opRun;
    t.pc = PC;
    t.fn = fn;
    t.arg = arg;
    memcpy(t.vc, me->vc, sizeof(t.vc));
    t.vc[t.id] = 1;
    tick(me);
    t.h = mix(me->h, 1234 + t.id);
    event(me, objOf((uintptr_t)&t), true, opCreate);
    g_fp += mix(t.id + 1, t.h);
    g_nthr++;
    g_multi = true;
    g_inCreate = true;
    int r = rc(&t.real, nullptr, trampoline, &t);
    g_inCreate = false;
    if (r)
        violation("mc-internal: pthread_create failed");
    *out = (pthread_t)(0x100000 + t.id * 64);
    trace("create", (uintptr_t)&t, PC);
    block(opCreate, 0, 0, PC);
    localEvent(me, opCreate);
    return 0;
}
static Thr *byHandle(pthread_t h) {
    uintptr_t v = ((uintptr_t)h - 0x100000) / 64;
    return v < (uintptr_t)g_nthr ? &g_thr[v] : nullptr;
}
int pthread_join(pthread_t h, void **ret) {
    static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!ACTIVE)
        return rj(h, ret);
    Thr *t = byHandle(h);
    if (!t || t->detached)
        violation("join of an invalid thread pc=%p", (void *)PC);
    if (t == self)
        violation("thread joins itself pc=%p", (void *)PC);
    self->joinTarget = t->id;
    block(opJoin, (uintptr_t)t, 0, PC);
    rj(t->real, nullptr);
    event(self, objOf((uintptr_t)t), true, opJoin);
    joinVC(self->vc, t->vc);
    if (ret)
        *ret = t->ret;
    t->detached = true;
    trace("join", (uintptr_t)t, PC);
    return 0;
}
int pthread_detach(pthread_t h) {
    static auto rd = real<int (*)(pthread_t)>("pthread_detach");
    if (!ACTIVE)
        return rd(h);
    Thr *t = byHandle(h);
    t->detached = true;
    return rd(t->real);
}
pthread_t pthread_self(void) {
    static auto rs = real<pthread_t (*)()>("pthread_self");
    if (!ACTIVE)
        return rs();
    return (pthread_t)(0x100000 + self->id * 64);
}
int sched_yield(void) {
    if (ACTIVE && g_multi)
        block(opYield, 0, 0, PC, true), localEvent(self, opYield);
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) {
    if (!ACTIVE) {
        return syscall(SYS_nanosleep, ts, nullptr);
    }
    advanceClock(ts->tv_sec * 1000000000ll + ts->tv_nsec);
    if (g_multi)
        block(opYield, 0, 0, PC, true), localEvent(self, opYield);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *r) { return nanosleep(ts, r); }
int usleep(useconds_t u) { timespec ts = { u / 1000000, (long)(u % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }

// ---- lazily initialised statics
int __cxa_guard_acquire(long long *g) {
    if (__atomic_load_n((char *)g, __ATOMIC_ACQUIRE)) {
        if (ACTIVE)
            joinVC(self->vc, objOf((uintptr_t)g)->vc);
        return 0;
    }
    if (!ACTIVE)
        return 1;
    block(opGuard, (uintptr_t)g, 0, PC);
    Obj *o = objOf((uintptr_t)g);
    event(self, o, true, opGuard);
    joinVC(self->vc, o->vc);
    if (*(char *)g)
        return 0;
    o->owner = self->id;
    return 1;
}
void __cxa_guard_release(long long *g) {
    __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
    if (ACTIVE) {
        Obj *o = objOf((uintptr_t)g);
        o->owner = -1;
        joinVC(o->vc, self->vc);
        tick(self);
        event(self, o, true, opGuard + 50);
    }
}
void __cxa_guard_abort(long long *g) {
    if (ACTIVE)
        objOf((uintptr_t)g)->owner = -1;
}
int pthread_once(pthread_once_t *c, void (*fn)(void)) {
    int *st = (int *)c;
    if (!ACTIVE) {
        if (!*st) {
            *st = 2;
            fn();
        }
        return 0;
    }
    block(opGuard, (uintptr_t)c, 0, PC);
    Obj *o = objOf((uintptr_t)c);
    event(self, o, true, opOnce);
    joinVC(self->vc, o->vc);
    if (*st)
        return 0;
    o->owner = self->id;
    fn();
    *st = 2;
    o->owner = -1;
    joinVC(o->vc, self->vc);
    tick(self);
    return 0;
}
int __cxa_thread_atexit_impl(void (*fn)(void *), void *arg, void *dso) {
    if (ACTIVE && self->id != 0) {
        if (self->ndtors >= 64)
            violation("mc-internal: dtors");
        self->dtors[self->ndtors++] = { fn, arg };
        return 0;
    }
    static auto rd = real<int (*)(void (*)(void *), void *, void *)>("__cxa_thread_atexit_impl");
    return rd(fn, arg, dso);
}

// ---- clock, cpu count
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!g_child)
        return syscall(SYS_clock_gettime, id, ts);
    if (self && id == CLOCK_MONOTONIC && (g_scn->flags & fClock) && g_multi) {
        static const int64_t jumps[] = { 0, 160000000ll, 600000000ll, 2100000000ll };
        unsigned k = choose(4, 1, "clock");
        if (k)
            advanceClock(jumps[k]);
    }
    ts->tv_sec = g_clock / 1000000000ll;
    ts->tv_nsec = g_clock % 1000000000ll;
    return 0;
}
int sched_getaffinity(pid_t, size_t sz, cpu_set_t *s) {
    memset(s, 0, sz);
    int n = g_scn ? g_scn->cpus : 2;
    for (int i = 0; i < n; i++)
        CPU_SET(i, s);
    return 0;
}
int get_nprocs(void) { return g_scn ? g_scn->cpus : 2; }
int sysinfo(struct sysinfo *i) { memset(i, 0, sizeof(*i)); i->totalram = 8ull << 30; i->mem_unit = 1; return 0; }

void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) {
    const char *b = strrchr(file, '/');
    violation("assertion failed: %s (%s:%u, %s)", expr, b ? b + 1 : file, line, fn);
}

// ---- what -fsanitize=thread emits
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access((uintptr_t)a, n, true, PC); }

static void atomicOp(uintptr_t a, size_t sz, bool rd, bool wr, int mo, uintptr_t pc) {
    if (!ACTIVE)
        return;
    Thr *t = self;
    if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
        violation("atomic access of %s heap memory at %p by T%d pc=%p", *gstate(a) == 2 ? "freed" : "unallocated", (void *)a, t->id, (void *)pc);
    if (!g_multi)
        return;
    Obj *o = objOf(a);
    if (!(g_scn->flags & fNoAtomicPoints)) {
        if (wr)
            o->writers |= 1 << t->id;
        else
            o->readers |= 1 << t->id;
        bool have = false;
        for (int i = 0; i < o->npcs; i++)
            have |= o->pcs[i] == pc;
        bool shared = o->writers && __builtin_popcount(o->writers | o->readers) > 1;
        if (!have) {
            if (o->npcs < 8)
                o->pcs[o->npcs++] = pc;
            if (shared)
                pcAdd(pc);
        }
        if (shared && !o->tried) {
            o->tried = true;
            for (int i = 0; i < o->npcs; i++)
                pcAdd(o->pcs[i]);
        }
        if (pcIn(g_sh->pcs, pc))
            block(opAtomic, a, 0, pc);
        // freed while this thread was preempted in front of the access
        if (a >= ARENA && a < ARENA + ARENA_SIZE && *gstate(a) != 1)
            violation("atomic access of freed heap memory at %p by T%d pc=%p", (void *)a, t->id, (void *)pc);
    }
    event(t, o, wr, opAtomic);
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (rd && acq)
        joinVC(t->vc, o->vc);
    if (wr) {
        if (rel) {
            if (rd)
                joinVC(o->vc, t->vc);  // RMW continues the release sequence
            else
                memcpy(o->vc, t->vc, sizeof(o->vc));
            tick(t);
        } else if (!rd) {
            memset(o->vc, 0, sizeof(o->vc)); // a relaxed store breaks the release sequence
        }
    }
    if (g_traceOn)
        fprintf(stderr, "T%d atomic%s%s obj=%p pc=%p\n", t->id, rd ? "R" : "", wr ? "W" : "", (void *)a, (void *)pc);
}

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, false, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), false, true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) { atomicOp((uintptr_t)a, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void mcInsertPC(uint64_t v) {
    size_t i = mc::mix(v, 3) & (Shared::PCTAB - 1);
    while (g_sh->pcs[i].load() && g_sh->pcs[i].load() != v)
        i = (i + 1) & (Shared::PCTAB - 1);
    g_sh->pcs[i] = v;
}
