// Pixel helpers shared by the filter checkers.
#pragma once
#include "vk.h"
#include <algorithm>
#include <climits>
#include <cfloat>
using namespace vk;
using seq::cur;

namespace {
struct Session {
    Session() { newCore(1); }
    ~Session() { dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str()); }
};
const char *const LEVELS[] = {"none", "sse2", "avx2", "avx512"};
[[maybe_unused]] void setLevel(const char *l) {
    R r = call("SetMaxCPU", A().s("cpu", l), nullptr);
    CHECK(r.ok(), "SetMaxCPU(%s): %s", l, r.err.c_str());
}
[[maybe_unused]] VSVideoFormat half() { return fmt(cfGray, stFloat, 16); }
[[maybe_unused]] std::vector<VSVideoFormat> grays() {
    std::vector<VSVideoFormat> v;
    for (int b : {8, 9, 10, 12, 16}) v.push_back(gray(b));
    v.push_back(half());
    v.push_back(gray(32));
    return v;
}
bool isF(const VSVideoFormat &f) { return f.sampleType == stFloat; }
[[maybe_unused]] double maxOf(const VSVideoFormat &f) { return isF(f) ? 1.0 : (double)((1ll << f.bitsPerSample) - 1); }

struct Plane {
    int w = 0, h = 0;
    std::vector<double> v;
    double at(int x, int y) const { return v[(size_t)y * w + x]; }
    double mir(int x, int y) const {
        if (x < 0) x = -x - 1;
        if (x >= w) x = 2 * w - 1 - x;
        if (y < 0) y = -y - 1;
        if (y >= h) y = 2 * h - 1 - y;
        x = std::clamp(x, 0, w - 1); y = std::clamp(y, 0, h - 1);
        return at(x, y);
    }
};
[[maybe_unused]] Plane load(const F &f, int pl) {
    Plane p; p.w = f.w(pl); p.h = f.h(pl);
    p.v.resize((size_t)p.w * p.h);
    const uint8_t *b = api->getReadPtr(f.p, pl);
    ptrdiff_t st = api->getStride(f.p, pl);
    for (int y = 0; y < p.h; y++)
        for (int x = 0; x < p.w; x++)
            p.v[(size_t)y * p.w + x] = sampleAt(b + y * st, x, f.f());
    return p;
}
typedef std::function<double(int n, int pl, int x, int y)> Fill;
[[maybe_unused]] N still(const VSVideoInfo &vi, Fill fill, std::function<void(int, VSFrame *)> props = nullptr) {
    VSVideoFormat f = vi.format;
    return source(vi, [f, fill, props](int n, VSFrame *fr) {
        for (int pl = 0; pl < f.numPlanes; pl++)
            for (int y = 0; y < api->getFrameHeight(fr, pl); y++)
                for (int x = 0; x < api->getFrameWidth(fr, pl); x++)
                    putSample(api->getWritePtr(fr, pl) + y * api->getStride(fr, pl), x, f, fill(n, pl, x, y));
        setInt(fr, "n", n);
        if (props) props(n, fr);
    });
}
[[maybe_unused]] double noise(const VSVideoFormat &f, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    uint32_t r = rnd(a, b, c, d);
    if (isF(f)) return ((r >> 8) & 0xffff) / 65536.0 * 1.5 - 0.5;
    int m = (1 << f.bitsPerSample) - 1;
    switch (r & 7) { case 0: return 0; case 1: return m; case 2: return (r >> 8) & 1; case 3: return m - ((r >> 8) & 1); }
    return (r >> 8) & m;
}

struct Range { double lo, hi; };
// interval accepted for a value that is exactly x up to a relative computation error e
[[maybe_unused]] Range stored(double x, double e, const VSVideoFormat &f) {
    e += 1e-7;
    if (f.sampleType == stInteger) {
        double m = maxOf(f);
        return {std::clamp(std::ceil(x - .5 - e), 0., m), std::clamp(std::floor(x + .5 + e), 0., m)};
    }
    if (f.bitsPerSample == 16) e += std::fabs(x) / 2048 + 6e-8;
    return {x - e, x + e};
}
const double U = 1.2e-7;         // one rounding in single precision
[[maybe_unused]] void compare(const F &g, int pl, const std::vector<Range> &r, const char *what) {
    const uint8_t *b = api->getReadPtr(g.p, pl);
    ptrdiff_t st = api->getStride(g.p, pl);
    int w = g.w(pl), h = g.h(pl);
    VSVideoFormat f = g.f();
    CHECK((size_t)w * h == r.size(), "%s: plane %d is %dx%d", what, pl, w, h);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            double v = sampleAt(b + y * st, x, f);
            const Range &e = r[(size_t)y * w + x];
            if (!(v >= e.lo && v <= e.hi))
                seq::fail("%s: plane %d (%d,%d) of %dx%d is %.9g, expected %.9g..%.9g", what, pl, x, y, w, h, v, e.lo, e.hi);
        }
    seq::step((uint64_t)w * h);
}
[[maybe_unused]] void equalPlane(const F &g, const F &s, int pl, const char *what) {
    CHECK(g.w(pl) == s.w(pl) && g.h(pl) == s.h(pl), "%s: plane %d changed its size", what, pl);
    for (int y = 0; y < g.h(pl); y++)
        CHECK(!memcmp(api->getReadPtr(g.p, pl) + y * api->getStride(g.p, pl), api->getReadPtr(s.p, pl) + y * api->getStride(s.p, pl), (size_t)g.w(pl) * g.f().bytesPerSample),
              "%s: unprocessed plane %d differs from the source", what, pl);
}
}
