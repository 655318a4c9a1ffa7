// The explorer: deviation-bounded exhaustive enumeration of the schedules (and environment
// answers) of each scenario. Every execution runs in a forked child of a per-worker zygote.
#include "rt.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstdarg>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <poll.h>

namespace mc {
std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> v;
    return v;
}
Registrar::Registrar(const Scenario &s) { scenarios().push_back(s); }
}
using namespace mc;

static double now() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void rawSleepUs(long us) {
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, nullptr);
}

static constexpr int NBUCKET = 8;
static constexpr size_t QCAP = 1500000;
static Item *g_queue[NBUCKET];
static Result *g_results; // one per worker
static int g_workers = 8;

static void qlock() {
    uint64_t e = 0;
    while (!g_sh->lock.compare_exchange_weak(e, 1)) {
        e = 0;
        rawSleepUs(1);
    }
}
static void qunlock() { g_sh->lock.store(0); }

static bool push(const Item &it) {
    size_t n = g_sh->queued[it.cost].load();
    if (n >= QCAP) {
        g_sh->capHit = 1;
        return false;
    }
    memcpy(&g_queue[it.cost][n], &it, offsetof(Item, dev) + it.ndev * sizeof(uint32_t));
    g_sh->queued[it.cost] = n + 1;
    return true;
}

struct RunOut { int status; std::string msg; int sig; bool timeout; };

// runs one execution in a forked child
static RunOut execute(const Item &it, Result *res, double limit, bool traceOn, int horizon) {
    g_res = res;
    res->status = stNone;
    res->npts = 0;
    res->msg[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_traceOn = traceOn;
        g_horizonMul = horizon;
        g_noPrune = horizon > 1; // replays are never cut short
        if (!traceOn) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            dup2(fd, 1);
        }
        runChild(it);
        _exit(0);
    }
    RunOut o { stNone, "", 0, false };
    double t0 = now();
    int st = 0;
    int spins = 0;
    // a pidfd lets us wait with a timeout without a signal handler
    int pfd = syscall(SYS_pidfd_open, p, 0);
    if (pfd >= 0) {
        struct pollfd pf = { pfd, POLLIN, 0 };
        if (poll(&pf, 1, (int)(limit * 1000)) == 0) {
            o.timeout = true;
            kill(p, SIGKILL);
        }
        close(pfd);
        waitpid(p, &st, 0);
    } else {
        while (waitpid(p, &st, WNOHANG) == 0) {
            rawSleepUs(spins++ < 200 ? 50 : 1000);
            if (now() - t0 > limit) {
                o.timeout = true;
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
        }
    }
    o.status = res->status;
    if (o.timeout) {
        o.status = stViolation;
        o.msg = "execution did not finish within the wall-clock limit (uncontrolled infinite loop or block)";
    } else if (WIFSIGNALED(st)) {
        o.status = stViolation;
        o.sig = WTERMSIG(st);
        o.msg = "execution killed by signal " + std::to_string(o.sig);
    } else if (o.status == stNone) {
        o.status = stViolation;
        o.msg = "execution ended without a result (exit status " + std::to_string(WEXITSTATUS(st)) + ")";
    } else
        o.msg = res->msg;
    return o;
}

static std::vector<std::pair<std::string, std::string>> g_known; // scenario, substring of a recorded finding
static bool isKnown(const std::string &msg) {
    for (auto &k : g_known)
        if (k.first == g_scn->name && msg.find(k.second) != std::string::npos)
            return true;
    return false;
}

struct VioShared { std::atomic<int> set; Item item; char msg[4096]; };
static VioShared *g_vio;

static void workerMain(int id, int bound, double deadline) {
    Result *res = &g_results[id];
    bool busy = false;
    while (true) {
        if (g_sh->stop.load() || now() > deadline)
            break;
        Item it;
        bool got = false;
        qlock();
        for (int c = 0; c <= bound; c++) {
            size_t n = g_sh->queued[c].load();
            if (n) {
                Item &src = g_queue[c][n - 1];
                memcpy(&it, &src, offsetof(Item, dev) + src.ndev * sizeof(uint32_t));
                g_sh->queued[c] = n - 1;
                got = true;
                break;
            }
        }
        if (got && !busy) { g_sh->busy++; busy = true; }
        if (!got && busy) { g_sh->busy--; busy = false; }
        bool done = !got && g_sh->busy.load() == 0;
        qunlock();
        if (done)
            break;
        if (!got) {
            rawSleepUs(200);
            continue;
        }
        RunOut o = execute(it, res, 20, false, 1);
        g_sh->executions++;
        g_sh->transitions += res->steps;
        g_sh->switches += res->switches;
        if (o.status == stViolation && isKnown(o.msg)) {
            g_sh->counters[30]++;
        } else if (o.status == stViolation) {
            // replay before report
            RunOut a = execute(it, res, 120, false, 4);
            RunOut b = a.status == stViolation ? execute(it, res, 120, false, 4) : a;
            if (a.status == stViolation && b.status == stViolation && !a.timeout && !b.timeout ? true : (a.status == stViolation && b.status == stViolation)) {
                int e = 0;
                if (g_vio->set.compare_exchange_strong(e, 1)) {
                    memcpy(&g_vio->item, &it, sizeof(it));
                    snprintf(g_vio->msg, sizeof(g_vio->msg), "%s", b.msg.c_str());
                    g_vio->set = 2;
                }
                g_sh->stop = 1;
                break;
            }
            g_sh->timeouts++;
            continue;
        }
        if (o.status == stDiverged) { g_sh->diverged++; continue; }
        if (o.status == stTruncated) { g_sh->truncated++; g_sh->capHit = 1; }
        if (o.status == stPruned) g_sh->pruned++;
        if (o.status == stOk) {
            g_sh->completed++;
            uint64_t h = res->outcomeHash | 1;
            size_t s = h % Shared::OUTTAB;
            for (int k = 0; k < 100; k++, s = (s + 1) % Shared::OUTTAB) {
                uint64_t v = 0;
                if (g_sh->outHash[s].compare_exchange_strong(v, h)) {
                    uint32_t n = g_sh->outcomes++;
                    if (n < 8)
                        memcpy(g_sh->outSample[n], res->outcomeStr, 512);
                    v = h;
                }
                if (v == h) {
                    g_sh->outCount[s]++;
                    break;
                }
            }
        }
        uint64_t mp = g_sh->maxPts.load();
        while (res->npts > mp && !g_sh->maxPts.compare_exchange_weak(mp, res->npts)) {}
        uint64_t mt = g_sh->maxThreads.load();
        while (res->maxThreads > mt && !g_sh->maxThreads.compare_exchange_weak(mt, res->maxThreads)) {}
        // expand
        uint32_t first = it.lastIdx == ~0u ? 0 : it.lastIdx + 1;
        qlock();
        for (uint32_t i = res->npts; i-- > first;) {
            Pt &p = res->pts[i];
            for (int alt = p.nalts - 1; alt >= 1; alt--) {
                int c = p.costBefore + p.cost[alt];
                if (c > bound)
                    continue;
                if (it.ndev >= MAXDEV) { g_sh->capHit = 1; continue; }
                Item n;
                memcpy(&n, &it, offsetof(Item, dev) + it.ndev * sizeof(uint32_t));
                n.dev[n.ndev++] = i << 8 | alt;
                n.lastIdx = i;
                n.cost = c;
                n.check = p.check;
                push(n);
            }
        }
        qunlock();
    }
    if (busy)
        g_sh->busy--;
    _exit(0);
}

static void resetShared(bool keepPCs) {
    static std::atomic<uint64_t> pcsSave[Shared::PCTAB];
    for (size_t i = 0; i < Shared::PCTAB; i++)
        pcsSave[i] = keepPCs ? g_sh->pcs[i].load() : 0;
    memset((void *)g_sh, 0, sizeof(*g_sh));
    for (size_t i = 0; i < Shared::PCTAB; i++) {
        g_sh->pcs[i] = pcsSave[i].load();
        g_sh->pcsNext[i] = pcsSave[i].load();
    }
    g_sh->visitedMask = (1ull << 25) - 1;
    madvise((void *)g_visited, sizeof(uint64_t) << 25, MADV_REMOVE);
}

static size_t numPCs(std::atomic<uint64_t> *t) {
    size_t n = 0;
    for (size_t i = 0; i < Shared::PCTAB; i++)
        n += t[i].load() != 0;
    return n;
}

// one exploration; returns false when the deadline was hit
static bool explore(int bound, double deadline) {
    Item root;
    memset(&root, 0, sizeof(root));
    root.lastIdx = ~0u;
    push(root);
    std::vector<pid_t> ps;
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < g_workers; i++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            // controlled threads never run in parallel, keep them on one cpu
            unsigned long mask[16] = {};
            int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
            if (ncpu > 0)
                mask[(i % ncpu) / 64] |= 1ul << ((i % ncpu) % 64);
            syscall(SYS_sched_setaffinity, 0, sizeof(mask), mask);
            workerMain(i, bound, deadline);
        }
        ps.push_back(p);
    }
    for (pid_t p : ps)
        waitpid(p, nullptr, 0);
    bool complete = !g_sh->stop.load();
    for (int c = 0; c <= bound; c++)
        if (g_sh->queued[c].load())
            complete = false;
    if (g_sh->busy.load() && !g_sh->stop.load())
        complete = false;
    return complete;
}

static std::string jsonStr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static void writeReplay(const char *path, const Scenario &s, const Item &it, const char *msg) {
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); return; }
    fprintf(f, "scenario %s\nmessage %s\nlast %u\ndevs", s.name, msg, it.lastIdx);
    for (int i = 0; i < it.ndev; i++)
        fprintf(f, " %u:%u", it.dev[i] >> 8, it.dev[i] & 0xff);
    fprintf(f, "\npcs");
    for (size_t i = 0; i < Shared::PCTAB; i++)
        if (uint64_t v = g_sh->pcs[i].load())
            fprintf(f, " %llx", (unsigned long long)v);
    fprintf(f, "\n");
    fclose(f);
}

static int replay(const char *path, bool verbose) {
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    static char line[1 << 20];
    std::string name;
    Item it;
    memset(&it, 0, sizeof(it));
    resetShared(false);
    while (fgets(line, sizeof(line), f)) {
        if (!strncmp(line, "scenario ", 9)) { name = line + 9; name.erase(name.find_last_not_of("\n") + 1); }
        else if (!strncmp(line, "last ", 5)) it.lastIdx = strtoul(line + 5, nullptr, 10);
        else if (!strncmp(line, "devs", 4)) {
            char *p = line + 4;
            while (char *q = strchr(p, ' ')) {
                unsigned a, b;
                if (sscanf(q + 1, "%u:%u", &a, &b) != 2) break;
                it.dev[it.ndev++] = a << 8 | b;
                p = q + 1;
            }
        } else if (!strncmp(line, "pcs", 3)) {
            char *p = line + 3;
            while (char *q = strchr(p, ' ')) {
                unsigned long long v;
                if (sscanf(q + 1, "%llx", &v) != 1) break;
                // same insertion as the runtime
                extern void mcInsertPC(uint64_t);
                mcInsertPC(v);
                p = q + 1;
            }
        }
    }
    fclose(f);
    for (auto &s : scenarios())
        if (s.name == name) {
            g_scn = &s;
            if (s.setup)
                s.setup();
            it.lastIdx = ~1u; // no pruning anywhere during a replay
            RunOut o = execute(it, &g_results[0], 120, verbose, 4);
            printf("replay status=%d msg=%s\n", o.status, o.msg.c_str());
            return o.status == stViolation ? 1 : 0;
        }
    fprintf(stderr, "unknown scenario %s\n", name.c_str());
    return 2;
}

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NOREEXEC")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("MC_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
        execv(argv[0], argv);
    }
    rtInit();
    std::set<std::string> want;
    int boundOverride = -1;
    double secsOverride = -1, scale = 1;
    bool thorough = false, list = false, verbose = false;
    const char *replayPath = nullptr, *outPath = nullptr, *replayDir = ".", *property = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--bound") boundOverride = atoi(argv[++i]);
        else if (a == "--secs") secsOverride = atof(argv[++i]);
        else if (a == "--scale") scale = atof(argv[++i]);
        else if (a == "--thorough") thorough = true;
        else if (a == "--workers") g_workers = atoi(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--out") outPath = argv[++i];
        else if (a == "--replay") replayPath = argv[++i];
        else if (a == "--replay-dir") replayDir = argv[++i];
        else if (a == "--property") property = argv[++i];
        else if (a == "--known") {
            std::string k = argv[++i];
            size_t e = k.find('=');
            if (e != std::string::npos)
                g_known.emplace_back(k.substr(0, e), k.substr(e + 1));
        }
        else if (a == "-v") verbose = true;
        else want.insert(a);
    }
    if (list) {
        for (auto &s : scenarios())
            printf("%s %s %d %d\n", s.name, s.property, s.quickBound, s.thoroughBound);
        return 0;
    }
    auto shmap = [](size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(2); }
        return p;
    };
    g_sh = static_cast<Shared *>(shmap(sizeof(Shared)));
    g_visited = static_cast<std::atomic<uint64_t> *>(shmap(sizeof(uint64_t) << 25));
    g_results = static_cast<Result *>(shmap(sizeof(Result) * g_workers));
    g_vio = static_cast<VioShared *>(shmap(sizeof(VioShared)));
    for (int i = 0; i < NBUCKET; i++)
        g_queue[i] = static_cast<Item *>(shmap(sizeof(Item) * QCAP));

    if (replayPath)
        return replay(replayPath, verbose);

    FILE *out = outPath ? fopen(outPath, "w") : nullptr;
    int rc = 0;
    for (auto &s : scenarios()) {
        if (!want.empty() && !want.count(s.name))
            continue;
        if (property) {
            std::string p = std::string(",") + s.property + ",";
            if (p.find(std::string(",") + property + ",") == std::string::npos)
                continue;
        }
        // each scenario gets its own zygote process
        fflush(stdout);
        if (out) fflush(out);
        pid_t z = fork();
        if (z == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_scn = &s;
            double t0 = now();
            if (s.setup)
                s.setup();
            int bound = boundOverride >= 0 ? boundOverride : thorough ? s.thoroughBound : s.quickBound;
            double secs = secsOverride >= 0 ? secsOverride : (thorough ? s.thoroughSecs : s.quickSecs) * scale;
            double deadline = t0 + secs;
            resetShared(false);
            g_vio->set = 0;
            int rounds = 0, boundDone = -1;
            bool closed = false, complete = false;
            uint64_t totalExec = 0, totalTrans = 0;
            // collect rounds find which atomics are shared between threads, the main rounds use that set
            for (int b = 0; b <= bound && !g_vio->set; ) {
                rounds++;
                resetShared(true);
                complete = explore(b, deadline);
                totalExec += g_sh->executions;
                totalTrans += g_sh->transitions;
                size_t before = numPCs(g_sh->pcs), after = numPCs(g_sh->pcsNext);
                closed = before == after;
                if (g_vio->set)
                    break;
                if (!closed) {
                    for (size_t i = 0; i < Shared::PCTAB; i++)
                        g_sh->pcs[i] = g_sh->pcsNext[i].load();
                    if (!complete)
                        break;
                    continue; // same bound again with the larger set of scheduling points
                }
                if (!complete)
                    break;
                boundDone = b;
                if (verbose)
                    fprintf(stderr, "  %s bound %d: %llu executions, %llu states, %.1fs\n", s.name, b, (unsigned long long)g_sh->executions, (unsigned long long)g_sh->visitedCount, now() - t0);
                b++;
            }
            bool vio = g_vio->set == 2;
            std::string rp;
            if (vio) {
                rp = std::string(replayDir) + "/" + s.name + ".replay";
                writeReplay(rp.c_str(), s, g_vio->item, g_vio->msg);
            }
            std::string js = "{";
            auto kv = [&js](const char *k, const std::string &v) { js += (js.size() > 1 ? ", " : "") + std::string("\"") + k + "\": " + v; };
            kv("scenario", jsonStr(s.name));
            kv("properties", jsonStr(s.property));
            kv("bound_requested", std::to_string(bound));
            kv("bound_completed", std::to_string(boundDone));
            kv("rounds", std::to_string(rounds));
            kv("executions", std::to_string(totalExec));
            kv("transitions", std::to_string(totalTrans));
            kv("last_round_executions", std::to_string(g_sh->executions.load()));
            kv("states", std::to_string(g_sh->visitedCount.load()));
            kv("pruned", std::to_string(g_sh->pruned.load()));
            kv("completed", std::to_string(g_sh->completed.load()));
            kv("diverged", std::to_string(g_sh->diverged.load()));
            kv("truncated", std::to_string(g_sh->truncated.load()));
            kv("unconfirmed", std::to_string(g_sh->timeouts.load()));
            kv("self_pruned", std::to_string(g_sh->counters[31].load()));
            if (g_sh->counters[30].load()) {
                std::string ks = "[";
                for (auto &k : g_known)
                    if (k.first == s.name)
                        ks += (ks.size() > 1 ? ", " : "") + jsonStr(std::string(s.name) + ": " + k.second);
                kv("known", ks + "]");
                kv("known_executions", std::to_string(g_sh->counters[30].load()));
            }
            kv("cap_hit", g_sh->capHit ? "true" : "false");
            kv("switches", std::to_string(g_sh->switches.load()));
            kv("max_choice_points", std::to_string(g_sh->maxPts.load()));
            kv("max_threads", std::to_string(g_sh->maxThreads.load()));
            kv("shared_atomic_sites", std::to_string(numPCs(g_sh->pcs)));
            kv("points_closed", closed ? "true" : "false");
            kv("distinct_outcomes", std::to_string(g_sh->outcomes.load()));
            std::string os = "[";
            for (uint32_t i = 0; i < std::min<uint32_t>(8, g_sh->outcomes); i++)
                os += (i ? ", " : "") + jsonStr(g_sh->outSample[i]);
            kv("outcomes", os + "]");
            std::string cs = "[";
            for (int i = 0; i < 32; i++)
                cs += (i ? ", " : "") + std::to_string(g_sh->counters[i].load());
            kv("counters", cs + "]");
            char tb[32];
            snprintf(tb, 32, "%.2f", now() - t0);
            kv("wall_s", tb);
            kv("violation", vio ? jsonStr(g_vio->msg) : "null");
            kv("replay", vio ? jsonStr(rp) : "null");
            js += "}";
            printf("%s\n", js.c_str());
            fflush(stdout);
            if (out) {
                fprintf(out, "%s\n", js.c_str());
                fflush(out);
            }
            _exit(vio ? 1 : 0);
        }
        int st = 0;
        waitpid(z, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) {
            fprintf(stderr, "scenario %s: zygote failed (status %x)\n", s.name, st);
            rc = 2;
        } else if (WEXITSTATUS(st) == 1 && rc == 0)
            rc = 1;
    }
    if (out)
        fclose(out);
    return rc;
}
