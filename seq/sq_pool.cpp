// C13: the frame buffer pool through the public API, with every system allocation it makes observed
#include "vk.h"
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <dlfcn.h>
#include <deque>
#include <mutex>
#include <thread>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;

// system allocations of aligned memory (frame buffers are the only large ones): total held, including what the pool keeps
namespace {
std::atomic<bool> watch{false};
std::mutex wm;
struct { void *p; size_t n; } slots[256];     // guarded by wm; fixed size since this runs inside the allocator
size_t heldBytes;
void noteAlloc(void *p, size_t n) {
    if (!watch || !p) return;
    std::lock_guard<std::mutex> l(wm);
    for (auto &s : slots) if (!s.p) { s.p = p; s.n = n; heldBytes += n; return; }
}
void noteFree(void *p) {
    if (!watch || !p || ((uintptr_t)p & 63)) return;
    std::lock_guard<std::mutex> l(wm);
    if (!heldBytes) return;
    for (auto &s : slots) if (s.p == p) { heldBytes -= s.n; s.p = nullptr; return; }
}
size_t heldNow() { std::lock_guard<std::mutex> l(wm); return heldBytes; }
}
extern "C" int posix_memalign(void **out, size_t align, size_t n) {
    static auto real = reinterpret_cast<int (*)(void **, size_t, size_t)>(dlsym(RTLD_NEXT, "posix_memalign"));
    int r = real(out, align, n);
    if (!r) noteAlloc(*out, n);
    return r;
}
extern "C" void __libc_free(void *);
extern "C" void free(void *p) { noteFree(p); __libc_free(p); }

namespace {
int64_t used() { VSCoreInfo i; api->getCoreInfo(core, &i); return i.usedFramebufferSize; }
int64_t limitNow() { VSCoreInfo i; api->getCoreInfo(core, &i); return i.maxFramebufferSize; }

struct Buf { const VSFrame *f; uint8_t *p; size_t n; uint32_t seed; int64_t block; };
// marks the first and last bytes and one byte per page
void paint(Buf &b, uint32_t seed) {
    b.seed = seed;
    for (size_t i = 0; i < b.n; i += 4096) b.p[i] = (uint8_t)(seed + i / 4096 * 7);
    b.p[b.n - 1] = (uint8_t)(seed ^ 0x5a);
}
bool intact(const Buf &b) {
    for (size_t i = 0; i < b.n; i += 4096) if (i != b.n - 1 && b.p[i] != (uint8_t)(b.seed + i / 4096 * 7)) return false;
    return b.p[b.n - 1] == (uint8_t)(b.seed ^ 0x5a);
}
struct Pool {
    VSVideoFormat g;
    std::deque<Buf> live;
    uint32_t serial = 1;
    int64_t total = 0;                    // what the live buffers occupy
    void alloc(size_t bytes) {
        // one row, width = bytes
        int64_t before = used();
        VSFrame *f = api->newVideoFrame(&g, (int)bytes, 1, nullptr, core);
        CHECK(f, "allocation failed");
        Buf b{f, api->getWritePtr(f, 0), (size_t)api->getStride(f, 0), 0, 0};
        CHECK(b.n >= bytes && b.n < bytes + 128, "stride %zu for width %zu", b.n, bytes);
        CHECK((uintptr_t)b.p % 64 == 0 && b.n % 64 == 0, "buffer or stride is not aligned: %p, %zu", (void *)b.p, b.n);
        b.block = used() - before;
        CHECK(b.block >= (int64_t)b.n && b.block <= (int64_t)(b.n + b.n / 7 + 8192), "a buffer of %zu bytes is accounted as %ld", b.n, (long)b.block);
        for (auto &o : live) CHECK(b.p + b.n <= o.p || o.p + o.n <= b.p, "buffer overlaps a live buffer");
        paint(b, serial++);
        live.push_back(b);
        total += b.block;
    }
    void release(size_t i) {
        Buf b = live[i];
        CHECK(intact(b), "content of a live buffer changed");
        live.erase(live.begin() + i);
        int64_t before = used();
        size_t h0 = heldNow();
        api->freeFrame(b.f);
        CHECK(before - used() == b.block, "releasing a buffer accounted as %ld changed the reported use by %ld", (long)b.block, (long)(before - used()));
        total -= b.block;
        size_t h = heldNow();
        // a buffer that went back to the system adds nothing to the pool
        if (h > h0 - std::min<size_t>(h0, b.block) || b.block > (1 << 20)) trimmed("a release");
        CHECK((int64_t)h >= used(), "more memory reported in use than allocated");
    }
    void limit(int64_t n) {
        int64_t r = api->setMaxCacheSize(n, core);
        if (n > 0) CHECK(r == n && limitNow() == n, "setMaxCacheSize(%ld) returned %ld", (long)n, (long)r);
        trimmed("a limit change");
    }
    void trimmed(const char *after) {
        int64_t h = (int64_t)heldNow(), u = used();
        CHECK(h >= u, "more memory reported in use (%ld) than allocated (%ld)", (long)u, (long)h);
        CHECK(h <= limitNow() || h == u, "after %s %ld bytes are kept for reuse although %ld held exceed the limit %ld", after, (long)(h - u), (long)h, (long)limitNow());
    }
    void check() {
        CHECK(used() == total, "reported use is %ld, live buffers occupy %ld", (long)used(), (long)total);
        for (auto &b : live) CHECK(intact(b), "content of a live buffer changed");
        for (size_t i = 0; i < live.size(); i++) for (size_t j = i + 1; j < live.size(); j++)
            CHECK(live[i].p + live[i].n <= live[j].p || live[j].p + live[j].n <= live[i].p, "two live buffers overlap");
        step();
        uint64_t h = 3;
        for (auto &b : live) h = seq::mix(h, b.block);
        state(seq::mix(seq::mix(h, heldNow() - used()), limitNow()));
    }
};
const int64_t BIG = 1ll << 33;
}

SEQ_CASE(poolHistories, "pool_histories", "C13", true, "every sequence of 5 (thorough 6) of: allocate a buffer of 64 B, just below and just above the pooling threshold, 1.06, 1.12, 1.13 and 2 MiB, release the oldest/newest/middle one, set the limit to 1 B, 2.2 MiB, 4.5 MiB or 8 GiB; then free the core with or without live buffers") {
    const size_t K = 1 << 20;
    const std::vector<size_t> sizes = {64, K - 16384, K + 1, K + K * 6 / 100, K + K * 12 / 100, K + K * 13 / 100 + 4096, 2 * K};
    const std::vector<int64_t> limits = {1, 2ll * K + K / 5, 4ll * K + K / 2, BIG};
    const int OPS = (int)sizes.size() + 3 + (int)limits.size();
    int depth = seq::thorough ? 6 : 5;
    newCore(1);
    watch = true;
    for (int len = depth; len <= depth; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (item()) {
                Pool p;
                p.g = fmt(cfGray, stInteger, 8);
                std::string d;
                p.limit(1);
                p.limit(BIG);
                CHECK(used() == 0 && heldNow() == 0, "memory remains after releasing everything: %ld used, %zu held", (long)used(), heldNow());
                for (int op : ix) {
                    if (op < (int)sizes.size()) { d += "alloc " + std::to_string(sizes[op]) + "; "; cur("%s", d.c_str()); p.alloc(sizes[op]); }
                    else if (op < (int)sizes.size() + 3) {
                        int k = op - (int)sizes.size();
                        d += "release " + std::to_string(k) + "; ";
                        cur("%s", d.c_str());
                        if (!p.live.empty()) p.release(k == 0 ? 0 : k == 1 ? p.live.size() - 1 : p.live.size() / 2);
                    } else {
                        int64_t l = limits[op - sizes.size() - 3];
                        d += "limit " + std::to_string(l) + "; ";
                        cur("%s", d.c_str());
                        p.limit(l);
                    }
                    p.check();
                }
                while (!p.live.empty()) { p.release(0); p.check(); }
                exec();
            }
            int q = len - 1;
            while (q >= 0 && ++ix[q] == OPS) ix[q--] = 0;
            if (q < 0) break;
        }
    }
    dropCore();
    CHECK(heldNow() == 0, "%zu bytes were not returned when the core was freed", heldNow());
    watch = false;
}
SEQ_CASE(poolReuse, "pool_reuse", "C13", true, "every pair and triple of sizes around the reuse limits (fractions of 4 KiB steps up to 1.3 MiB): release one, allocate the next; the reused buffer is large enough and accounted exactly; core freed before the buffers") {
    const size_t K = 1 << 20;
    std::vector<size_t> sizes;
    for (int k = -2; k <= 44; k += seq::thorough ? 1 : 2) for (int o : {-1, 0, 64}) sizes.push_back(K - 8192 + k * 4096 + o);
    for (size_t a : sizes) for (size_t b : sizes) {
        if (!item()) continue;
        for (int mode = 0; mode < 3; mode++) {
            cur("sizes %zu then %zu, mode %d", a, b, mode);
            newCore(1);
            watch = true;
            Pool p;
            p.g = fmt(cfGray, stInteger, 8);
            p.alloc(a);
            if (mode == 2) p.alloc(b);
            p.release(0);
            p.check();
            p.alloc(b);
            p.check();
            p.alloc(a);
            p.check();
            if (mode == 1) {
                // buffers outlive the core
                int l = logged;
                api->freeCore(core);
                CHECK(logged > l, "freeing the core with live frames was not reported");
                for (auto &x : p.live) { CHECK(intact(x), "content changed by freeing the core"); api->freeFrame(x.f); }
            } else {
                while (!p.live.empty()) { p.release(p.live.size() - 1); p.check(); }
                dropCore();
            }
            CHECK(heldNow() == 0, "%zu bytes leaked", heldNow());
            watch = false;
            exec();
            state(seq::mix(a, b));
        }
    }
}
// what a frame with several planes, copies and shared planes accounts for
SEQ_CASE(poolShared, "pool_shared_planes", "C13", true, "frames of 3 planes (4 formats x 5 sizes), copies, plane sharing, copy-on-write of each subset of planes, release in every order: use equals the distinct plane buffers") {
    newCore(1);
    watch = true;
    std::vector<VSVideoFormat> fs = {fmt(cfYUV, stInteger, 8, 1, 1), fmt(cfRGB, stFloat, 32), fmt(cfYUV, stInteger, 16, 2, 0), fmt(cfRGB, stInteger, 8)};
    for (auto &f : fs) for (int w : {4, 64, 1040, 1200, 2000}) for (int wmask = 0; wmask < 64; wmask++) {
        if (!item()) continue;
        int h = w;
        cur("%s %dx%d, writes %02x", fname(f).c_str(), w, h, wmask);
        CHECK(used() == 0, "memory in use before: %ld", (long)used());
        VSFrame *a = api->newVideoFrame(&f, w, h, nullptr, core);
        int64_t one = used();
        int64_t sum = 0;
        for (int p = 0; p < 3; p++) sum += api->getStride(a, p) * api->getFrameHeight(a, p);
        CHECK(one >= sum && one <= sum + sum / 7 + 3 * 8192, "%ld bytes accounted for %ld", (long)one, (long)sum);
        VSFrame *b = api->copyFrame(a, core);
        CHECK(used() == one, "a copy changed the reported use");
        const VSFrame *src[3] = {a, b, a};
        int pl[3] = {0, 1, 2};
        VSFrame *c = api->newVideoFrame2(&f, w, h, src, pl, nullptr, core);
        CHECK(used() == one, "a plane-sharing frame changed the reported use");
        // reference: distinct buffers per plane
        int64_t extra[3];
        for (int p = 0; p < 3; p++) {
            int64_t u0 = used();
            bool wb = wmask >> p & 1, wc = wmask >> (p + 3) & 1;
            if (wb) api->getWritePtr(b, p)[0] = 1;
            int64_t u1 = used();
            CHECK(!wb == (u1 == u0), "write to a shared plane %s memory", wb ? "did not take" : "took");
            if (wb) { api->getWritePtr(b, p)[0] = 2; CHECK(used() == u1, "second write took memory again"); }
            if (wc) api->getWritePtr(c, p)[0] = 3;
            int64_t u2 = used();
            CHECK(!wc == (u2 == u1), "write to a shared plane %s memory", wc ? "did not take" : "took");
            extra[p] = u2 - u0;
            // the last sharer writes in place
            if (wb && wc) { api->getWritePtr(a, p)[0] = 9; CHECK(used() == u2, "writing an unshared plane took memory"); }
        }
        CHECK(used() == one + extra[0] + extra[1] + extra[2], "sum");
        VSFrame *fr[3] = {a, b, c};
        int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        const int *o = ord[(w + wmask) % 6];
        api->freeFrame(fr[o[0]]); int64_t x1 = used();
        api->freeFrame(fr[o[1]]); int64_t x2 = used();
        CHECK(x2 <= x1 && x2 >= sum, "releasing frames: %ld %ld", (long)x1, (long)x2);
        api->freeFrame(fr[o[2]]);
        CHECK(used() == 0, "%ld bytes remain in use", (long)used());
        exec(); step(8);
        state(seq::mix(w, wmask));
    }
    dropCore();
    CHECK(heldNow() == 0, "%zu bytes leaked", heldNow());
    watch = false;
}
