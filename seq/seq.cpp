#include "seq.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace seq {
bool thorough = false;

static std::vector<Case> &cases() { static std::vector<Case> v; return v; }
Registrar::Registrar(const Case &c) { cases().push_back(c); }

struct ShardState {
    char cur[3000];
    char msg[3000];
    int failed;
    int knownHits;
    char knownMsg[300];
    uint64_t progress;
    uint64_t execs, steps, items;
    char samples[3][600];
    int nsamples;
};
static const size_t TAB = 1 << 22;
struct Shared { std::atomic<uint64_t> tab[TAB]; std::atomic<uint64_t> distinct; std::atomic<int> stop; };
static Shared *sh;
static ShardState *me, *all;
static int g_shard, g_nshards;
static uint64_t g_idx;
static bool g_sharded;
static std::vector<std::pair<std::string, std::string>> g_known;
static const Case *g_case;

bool item() {
    if (sh->stop.load(std::memory_order_relaxed))
        return false;
    uint64_t i = g_idx++;
    if (g_sharded && i % g_nshards != (uint64_t)g_shard)
        return false;
    me->items++;
    return true;
}
void cur(const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vsnprintf(me->cur, sizeof(me->cur), fmt, a);
    va_end(a);
    me->progress++;
}
void fail(const char *fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vsnprintf(me->msg, sizeof(me->msg), fmt, a);
    va_end(a);
    me->failed = 1;
    sh->stop = 1;
    if (getenv("SEQ_ABORT"))
        abort();
    _exit(1);
}
void failOrKnown(const char *fmt, ...) {
    char b[3000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof(b), fmt, a);
    va_end(a);
    std::string full = std::string(me->cur) + ": " + b;
    for (auto &k : g_known)
        if (k.first == g_case->name && full.find(k.second) != std::string::npos) {
            if (!me->knownHits++)
                snprintf(me->knownMsg, sizeof(me->knownMsg), "%s", k.second.c_str());
            return;
        }
    fail("%s", b);
}
void exec(uint64_t n) { me->execs += n; me->progress++; }
void step(uint64_t n) { me->steps += n; }
void state(uint64_t h) {
    h |= 1;
    for (size_t i = h % TAB, k = 0; k < 64; k++, i = (i + 1) % TAB) {
        uint64_t v = 0;
        if (sh->tab[i].compare_exchange_strong(v, h)) {
            sh->distinct++;
            return;
        }
        if (v == h)
            return;
    }
    // table neighbourhood full: not counted
}
void sample(const std::string &s) {
    if (me->nsamples < 3)
        snprintf(me->samples[me->nsamples++], 600, "%s", s.c_str());
}
uint64_t hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return h ^ (h >> 29);
}
} // namespace seq

using namespace seq;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string js(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

int main(int argc, char **argv) {
    std::vector<std::string> want;
    std::string replayDir = ".", property;
    int workers = 8, onlyShard = -1;
    bool list = false;
    double stall = 120;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--property") property = argv[++i];
        else if (a == "--replay-dir") replayDir = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--shard") onlyShard = atoi(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--known") {
            std::string k = argv[++i];
            size_t e = k.find('=');
            if (e != std::string::npos)
                g_known.emplace_back(k.substr(0, e), k.substr(e + 1));
        } else if (a == "--replay") {
            FILE *f = fopen(argv[++i], "r");
            char l[4096], nm[256];
            int shd, nsh, th;
            if (!f || !fgets(l, sizeof(l), f) || sscanf(l, "case %255s shard %d of %d thorough %d", nm, &shd, &nsh, &th) != 4) {
                fprintf(stderr, "bad replay file\n");
                return 2;
            }
            want.push_back(nm);
            onlyShard = shd; workers = nsh; thorough = th;
            fclose(f);
        } else want.push_back(a);
    }
    if (list) {
        for (auto &c : cases())
            printf("%s %s\n", c.name, c.property);
        return 0;
    }
    int rc = 0;
    for (auto &c : cases()) {
        bool sel = want.empty();
        for (auto &w : want)
            sel |= w == c.name;
        if (!property.empty() && (std::string(",") + c.property + ",").find("," + property + ",") == std::string::npos)
            sel = false;
        if (!sel)
            continue;
        double t0 = now();
        sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        all = static_cast<ShardState *>(mmap(nullptr, sizeof(ShardState) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        g_nshards = workers;
        g_sharded = c.shard;
        g_case = &c;
        int n = c.shard ? workers : 1;
        std::vector<pid_t> pid(n, 0);
        std::vector<int> status(n, -1);
        std::vector<std::string> errf(n);
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < n; i++) {
            if (onlyShard >= 0 && c.shard && i != onlyShard)
                continue;
            char b[600];
            snprintf(b, sizeof(b), "%s/%s.%d.stderr", replayDir.c_str(), c.name, i);
            errf[i] = b;
            pid[i] = fork();
            if (pid[i] == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                if (!getenv("SEQ_VERBOSE")) {
                    int fd = open(b, O_CREAT | O_TRUNC | O_WRONLY, 0644);
                    if (fd >= 0) dup2(fd, 2);
                    dup2(2, 1);
                }
                g_shard = i;
                me = &all[i];
                c.run();
                _exit(0);
            }
        }
        std::vector<uint64_t> lastP(n, 0);
        std::vector<double> lastT(n, now());
        int left = 0;
        for (int i = 0; i < n; i++)
            left += pid[i] > 0;
        while (left) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                for (int i = 0; i < n; i++)
                    if (pid[i] == p) { status[i] = st; pid[i] = 0; left--; }
                continue;
            }
            for (int i = 0; i < n; i++)
                if (pid[i] > 0) {
                    if (all[i].progress != lastP[i]) { lastP[i] = all[i].progress; lastT[i] = now(); }
                    else if (now() - lastT[i] > stall) {
                        kill(pid[i], SIGKILL);
                        snprintf(all[i].msg, sizeof(all[i].msg), "no progress for %.0f s (endless loop or deadlock)", stall);
                        all[i].failed = 1;
                    }
                }
            usleep(2000);
        }
        std::string vio, replay;
        uint64_t execs = 0, steps = 0, items = 0;
        std::string samples;
        int known = 0;
        std::string knownMsg;
        for (int i = 0; i < n; i++) {
            execs += all[i].execs; steps += all[i].steps; items += all[i].items;
            known += all[i].knownHits;
            if (all[i].knownHits && knownMsg.empty()) knownMsg = all[i].knownMsg;
            for (int k = 0; k < all[i].nsamples && i < 2; k++)
                samples += (samples.empty() ? "" : ", ") + js(all[i].samples[k]);
            bool bad = all[i].failed || (status[i] != -1 && status[i] != 0);
            if (bad && vio.empty()) {
                std::string m = all[i].failed ? all[i].msg : "";
                std::string err;
                if (FILE *f = fopen(errf[i].c_str(), "r")) {
                    char b[6000];
                    size_t r = fread(b, 1, sizeof(b) - 1, f);
                    err.assign(b, r);
                    fclose(f);
                }
                if (m.empty()) {
                    char b[100];
                    snprintf(b, sizeof(b), WIFSIGNALED(status[i]) ? "crashed with signal %d" : "exited with status %d",
                             WIFSIGNALED(status[i]) ? WTERMSIG(status[i]) : WEXITSTATUS(status[i]));
                    m = std::string(b) + " " + err.substr(0, 1500);
                }
                vio = std::string(all[i].cur) + ": " + m;
                replay = replayDir + "/" + c.name + ".replay";
                if (FILE *f = fopen(replay.c_str(), "w")) {
                    fprintf(f, "case %s shard %d of %d thorough %d\n%s\n%s\n%s\n", c.name, i, workers, thorough, all[i].cur, m.c_str(), err.c_str());
                    fclose(f);
                }
            }
            if (!errf[i].empty() && !getenv("SEQ_KEEP"))
                unlink(errf[i].c_str());
        }
        printf("{\"scenario\": %s, \"properties\": %s, \"bounds\": %s, \"items\": %llu, \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"samples\": [%s], \"wall_s\": %.2f",
               js(c.name).c_str(), js(c.property).c_str(), js(c.bounds).c_str(), (unsigned long long)items, (unsigned long long)execs, (unsigned long long)steps,
               (unsigned long long)sh->distinct.load(), samples.c_str(), now() - t0);
        if (known)
            printf(", \"known\": [%s], \"known_executions\": %d", js(std::string(c.name) + ": " + knownMsg).c_str(), known);
        if (vio.empty())
            printf(", \"violation\": null, \"replay\": null}\n");
        else {
            printf(", \"violation\": %s, \"replay\": %s}\n", js(vio).c_str(), js(replay).c_str());
            rc = 1;
        }
        fflush(stdout);
        munmap(sh, sizeof(Shared));
        munmap(all, sizeof(ShardState) * workers);
    }
    return rc;
}
