// C16: neighbourhood, convolution, blur and temporal averaging filters against a reference in double precision,
// on every processor path.
#include "px.h"

namespace {

struct Op {
    std::string func, desc;
    std::function<void(A &)> args;
    std::function<Range(const Plane &p, int x, int y, const VSVideoFormat &f)> px;      // one of the two
    std::function<std::vector<Range>(const Plane &p, const VSVideoFormat &f)> plane;
    int minW = 1, minH = 1;      // an error is acceptable below
};
std::vector<Range> expected(const Op &o, const Plane &p, const VSVideoFormat &f) {
    if (o.plane) return o.plane(p, f);
    std::vector<Range> r((size_t)p.w * p.h);
    for (int y = 0; y < p.h; y++)
        for (int x = 0; x < p.w; x++)
            r[(size_t)y * p.w + x] = o.px(p, x, y, f);
    return r;
}
// applies the op on all processor paths and compares every processed plane
void runOp(const N &src, const Op &o, int planeMask = 7, int levels = 15) {
    F s = get(src, 0);
    VSVideoFormat f = s.f();
    std::vector<std::vector<Range>> exp(f.numPlanes);
    int minw = INT_MAX, minh = INT_MAX;
    for (int pl = 0; pl < f.numPlanes; pl++)
        if (planeMask >> pl & 1) {
            minw = std::min(minw, s.w(pl)); minh = std::min(minh, s.h(pl));
            exp[pl] = expected(o, load(s, pl), f);
        }
    bool small = minw < o.minW || minh < o.minH;
    for (int l = 0; l < 4; l++) {
        if (!(levels >> l & 1)) continue;
        setLevel(LEVELS[l]);
        A a;
        a.n("clip", src);
        if (o.args) o.args(a);
        if (planeMask != 7)
            for (int pl = 0; pl < 3; pl++)
                if (planeMask >> pl & 1) a.i("planes", pl);
        cur("%s(%s) %s %dx%d planes=%d cpu=%s", o.func.c_str(), o.desc.c_str(), fname(f).c_str(), s.w(), s.h(), planeMask, LEVELS[l]);
        R r = call(o.func.c_str(), a);
        if (!r.ok()) {
            CHECK(small, "rejected: %s", r.err.c_str());
            continue;
        }
        const VSVideoInfo &vi = r.node.vi(), &si = src.vi();
        CHECK(sameFormat(vi.format, si.format) && vi.width == si.width && vi.height == si.height && vi.numFrames == si.numFrames
              && vi.fpsNum == si.fpsNum && vi.fpsDen == si.fpsDen, "the clip's properties changed");
        std::string err;
        F g = get(r.node, 0, &err);
        CHECK(g, "frame 0: %s", err.c_str());
        CHECK(sameFormat(g.f(), f), "the frame's format changed");
        CHECK(g.propInt("n") == 0, "the frame properties are not those of the source");
        for (int pl = 0; pl < f.numPlanes; pl++)
            if (planeMask >> pl & 1) compare(g, pl, exp[pl], "result");
            else equalPlane(g, s, pl, "result");
        seq::exec();
    }
}

double nb(const Plane &p, int x, int y, int i) {       // 0..8 row by row
    return p.mir(x + i % 3 - 1, y + i / 3 - 1);
}
Op minmax(bool max, int mask, double thr, bool viaDefault = false) {
    Op o; o.func = max ? "Maximum" : "Minimum"; o.minW = o.minH = 4;
    char d[64]; snprintf(d, sizeof d, "coordinates=%02x thr=%g", mask, thr); o.desc = d;
    o.args = [=](A &a) { if (!viaDefault) for (int i = 0; i < 8; i++) a.i("coordinates", mask >> i & 1); if (thr >= 0) a.d("threshold", thr); };
    o.px = [=](const Plane &p, int x, int y, const VSVideoFormat &f) -> Range {
        double c = p.at(x, y), v = c;
        for (int i = 0; i < 8; i++)
            if (mask >> i & 1) { double t = nb(p, x, y, i < 4 ? i : i + 1); v = max ? std::max(v, t) : std::min(v, t); }
        if (thr >= 0) {
            double lim = max ? c + thr : c - thr;
            if (f.sampleType == stInteger) lim = std::clamp(lim, 0., maxOf(f));
            v = max ? std::min(v, lim) : std::max(v, lim);
            if (isF(f)) return stored(v, U * (std::fabs(c) + thr), f);
        }
        return {v, v};
    };
    return o;
}
Op median() {
    Op o; o.func = "Median"; o.minW = o.minH = 4;
    o.px = [](const Plane &p, int x, int y, const VSVideoFormat &) -> Range {
        double v[9];
        for (int i = 0; i < 9; i++) v[i] = nb(p, x, y, i);
        std::nth_element(v, v + 4, v + 9);
        return {v[4], v[4]};
    };
    return o;
}
Op flate(bool in, double thr) {
    Op o; o.func = in ? "Inflate" : "Deflate"; o.minW = o.minH = 4; o.desc = "thr=" + std::to_string(thr);
    o.args = [=](A &a) { if (thr >= 0) a.d("threshold", thr); };
    o.px = [=](const Plane &p, int x, int y, const VSVideoFormat &f) -> Range {
        double c = p.at(x, y), s = 0, mag = 0;
        for (int i = 0; i < 9; i++) if (i != 4) { double t = nb(p, x, y, i); s += t; mag += std::fabs(t); }
        double v = f.sampleType == stInteger ? std::floor((s + 4) / 8) : s / 8;
        v = in ? std::max(v, c) : std::min(v, c);
        if (thr >= 0) {
            double lim = in ? c + thr : c - thr;
            if (f.sampleType == stInteger) lim = std::clamp(lim, 0., maxOf(f));
            v = in ? std::min(v, lim) : std::max(v, lim);
        }
        if (!isF(f)) return {v, v};
        return stored(v, U * (mag + std::fabs(c) + std::max(thr, 0.)), f);
    };
    return o;
}
Op edge(bool sobel, double scale) {
    Op o; o.func = sobel ? "Sobel" : "Prewitt"; o.minW = o.minH = 4; o.desc = "scale=" + std::to_string(scale);
    o.args = [=](A &a) { if (scale >= 0) a.d("scale", scale); };
    double sc = scale < 0 ? 1 : (double)(float)scale;
    o.px = [=](const Plane &p, int x, int y, const VSVideoFormat &f) -> Range {
        auto a = [&](int dy, int dx) { return p.mir(x + dx - 1, y + dy - 1); };
        double k = sobel ? 2 : 1;
        double gx = a(2, 0) + k * a(2, 1) + a(2, 2) - a(0, 0) - k * a(0, 1) - a(0, 2);
        double gy = a(0, 2) + k * a(1, 2) + a(2, 2) - a(0, 0) - k * a(1, 0) - a(2, 0);
        double v = std::sqrt(gx * gx + gy * gy) * sc, mag = 0;
        for (int i = 0; i < 9; i++) mag += 2 * std::fabs(nb(p, x, y, i));
        return stored(v, isF(f) ? U * 6 * mag * sc + 1e-6 * v : 4 * U * v, f);
    };
    return o;
}
struct Conv { std::vector<double> m; std::string mode; double div = 0, bias = 0; bool sat = true; };
Range conv1(const std::vector<Range> &in, const std::vector<double> &m, const Conv &c, double div, const VSVideoFormat &f) {
    double lo = 0, hi = 0, mag = 0;
    for (size_t i = 0; i < m.size(); i++) {
        double a = m[i] * in[i].lo, b = m[i] * in[i].hi;
        lo += std::min(a, b); hi += std::max(a, b);
        mag += std::max(std::fabs(a), std::fabs(b));
    }
    lo = lo / div; hi = hi / div;
    if (lo > hi) std::swap(lo, hi);
    double big = std::max(std::fabs(lo), std::fabs(hi));
    double e = (isF(f) ? (m.size() + 4) * U * mag / std::fabs(div) : 4 * U * big) + U * (big + std::fabs(c.bias));
    lo += c.bias; hi += c.bias;
    if (!c.sat) {
        if (lo < 0 && hi > 0) { hi = std::max(-lo, hi); lo = 0; }
        else if (hi <= 0) { double t = -lo; lo = -hi; hi = t; }
    }
    Range a = stored(lo, e, f), b = stored(hi, e, f);
    return {a.lo, b.hi};
}
Op conv(Conv c, const char *what) {
    Op o; o.func = "Convolution";
    char d[128]; snprintf(d, sizeof d, "%s mode=%s n=%zu div=%g bias=%g sat=%d", what, c.mode.c_str(), c.m.size(), c.div, c.bias, c.sat); o.desc = d;
    bool sq = c.mode == "s";
    int n = sq ? (int)std::lround(std::sqrt((double)c.m.size())) : (int)c.m.size();
    int rad = n / 2;
    o.minW = std::max(4, c.mode == "v" ? 4 : rad + 1); o.minH = std::max(4, c.mode == "h" ? 4 : rad + 1);
    o.args = [c](A &a) {
        a.d("matrix", c.m);
        a.s("mode", c.mode);
        if (c.div != 0) a.d("divisor", c.div);
        if (c.bias != 0) a.d("bias", c.bias);
        if (!c.sat) a.i("saturate", 0);
    };
    o.plane = [c, n, rad, sq](const Plane &p, const VSVideoFormat &f) {
        std::vector<double> m = c.m;
        double sum = 0;
        for (double &x : m) { if (!isF(f)) x = std::round(x); else x = (float)x; sum += x; }
        if (std::fabs(sum) < FLT_EPSILON) sum = 1;
        double div = c.div != 0 ? (double)(float)c.div : sum;
        std::vector<Range> r((size_t)p.w * p.h), in(m.size());
        auto pt = [](double v) { return Range{v, v}; };
        if (sq || c.mode == "h" || c.mode == "v") {
            for (int y = 0; y < p.h; y++)
                for (int x = 0; x < p.w; x++) {
                    for (size_t i = 0; i < m.size(); i++)
                        in[i] = pt(sq ? p.mir(x + (int)i % n - rad, y + (int)i / n - rad) : c.mode == "h" ? p.mir(x + (int)i - rad, y) : p.mir(x, y + (int)i - rad));
                    r[(size_t)y * p.w + x] = conv1(in, m, c, div, f);
                }
            return r;
        }
        std::vector<Range> t((size_t)p.w * p.h);
        for (int y = 0; y < p.h; y++)
            for (int x = 0; x < p.w; x++) {
                for (int i = 0; i < n; i++) in[i] = pt(p.mir(x, y + i - rad));
                t[(size_t)y * p.w + x] = conv1(in, m, c, div, f);
            }
        for (int y = 0; y < p.h; y++)
            for (int x = 0; x < p.w; x++) {
                for (int i = 0; i < n; i++) {
                    int q = x + i - rad;
                    if (q < 0) q = -q - 1;
                    if (q >= p.w) q = 2 * p.w - 1 - q;
                    in[i] = t[(size_t)y * p.w + q];
                }
                r[(size_t)y * p.w + x] = conv1(in, m, c, div, f);
            }
        return r;
    };
    return o;
}
std::vector<Op> ops3x3(const VSVideoFormat &f) {
    double m = maxOf(f);
    std::vector<Op> v;
    auto q = [&](double x) { return isF(f) ? x / 255 : std::floor(x * m / 255); };
    v.push_back(minmax(false, 255, -1, true));
    v.push_back(minmax(true, 255, -1, true));
    v.push_back(minmax(false, 0xA5, q(3)));
    v.push_back(minmax(true, 0x5A, q(3)));
    v.push_back(minmax(false, 0x81, q(130)));
    v.push_back(minmax(true, 0x18, q(130)));
    v.push_back(median());
    v.push_back(flate(false, -1));
    v.push_back(flate(true, -1));
    v.push_back(flate(false, q(2)));
    v.push_back(flate(true, q(100)));
    v.push_back(edge(false, -1));
    v.push_back(edge(true, -1));
    v.push_back(edge(false, 0.37));
    v.push_back(edge(true, 2.5));
    return v;
}
std::vector<Conv> kernels(int n, bool sq) {
    std::vector<Conv> v;
    std::string s = sq ? "s" : "";
    size_t k = sq ? (size_t)n * n : n;
    auto mk = [&](std::function<double(size_t)> g, double div, double bias, bool sat) { Conv c; c.mode = s; for (size_t i = 0; i < k; i++) c.m.push_back(g(i)); c.div = div; c.bias = bias; c.sat = sat; v.push_back(c); };
    mk([](size_t) { return 1; }, 0, 0, true);
    mk([=](size_t i) { return (double)(rnd(i, k, 3) % 255) - 127; }, 37.0 * n, 20, true);
    mk([=](size_t i) { return (double)(rnd(i, k, 5) % 2047) - 1023; }, 300.0 * n, 0, false);
    mk([=](size_t i) { return i & 1 ? -1023 : 1023; }, 0, 0, true);
    mk([](size_t) { return 1023; }, 0, 0, true);
    mk([=](size_t i) { return (double)(rnd(i, k, 7) % 256) - 128; }, 40.0 * n, -3.5, false);
    return v;
}

// all neighbourhoods over three values: 3x3 blocks side by side
const int BW = 144, BH = 137;
double block(int x, int y, const double val[3], int rot) {
    int b = (y / 3) * BW + (x / 3), cell = (y % 3) * 3 + x % 3;
    if (b >= 19683) b -= 19683;
    b = (b + rot) % 19683;
    for (int i = 0; i < cell; i++) b /= 3;
    return val[b % 3];
}

SEQ_CASE(neigh, "c16-neighbourhoods", "C16", true,
         "all 3^9 neighbourhoods over {low, mid, high} for Minimum, Maximum, Median, Deflate, Inflate, Prewitt, Sobel and 3x3 Convolution; 7 formats; 4 processor levels") {
    Session s;
    for (auto &f : grays()) {
        double m = maxOf(f);
        std::vector<std::array<double, 3>> sets;
        if (isF(f)) sets = {{-0.5, 0.25, 1.0}};
        else sets = {{0, std::floor(m / 2), m}, {std::floor(m / 2), std::floor(m / 2) + 1, m - 1}};
        for (auto &vs : sets) {
            std::vector<Op> ops = ops3x3(f);
            for (auto &c : kernels(3, true)) ops.push_back(conv(c, "3x3"));
            for (auto &o : ops) {
                if (!seq::item()) continue;
                N src = still(mkvi(f, BW * 3, BH * 3, 1), [&](int, int, int x, int y) { return block(x, y, vs.data(), 0); });
                runOp(src, o);
            }
        }
    }
}

SEQ_CASE(coords, "c16-coordinates", "C16", true,
         "Minimum and Maximum with all 256 coordinate sets and every threshold class; 7 formats; 4 processor levels") {
    Session s;
    for (auto &f : grays()) {
        double m = maxOf(f);
        for (int mask = 0; mask < 256; mask++) {
            if (!seq::item()) continue;
            N src = still(mkvi(f, 37, 11, 1), [&](int, int, int x, int y) { return noise(f, mask, x, y, 1); });
            for (int mx = 0; mx < 2; mx++)
                for (double thr : {-1.0, 0.0, isF(f) ? 0.01 : 1.0, isF(f) ? 0.5 : std::floor(m / 2), m})
                    runOp(src, minmax(mx, mask, thr));
        }
    }
}

SEQ_CASE(widths, "c16-sizes", "C16", true,
         "every width 1..139 (1..300 thorough) at heights 1..9 for all 3x3 filters; 7 formats; 4 processor levels") {
    Session s;
    int maxw = seq::thorough ? 300 : 139;
    for (auto &f : grays())
        for (int w = 1; w <= maxw; w++) {
            if (!seq::item()) continue;
            std::vector<Op> ops = ops3x3(f);
            for (auto &c : kernels(3, true)) ops.push_back(conv(c, "3x3"));
            std::vector<int> hs = seq::thorough || w <= 8 ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 9} : std::vector<int>{4 + w % 3};
            for (int h : hs) {
                N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, w, x, y, h); });
                for (auto &o : ops) runOp(src, o);
            }
            seq::state(seq::mix(f.bitsPerSample * 2 + f.sampleType, w));
        }
}

SEQ_CASE(convsq, "c16-square-convolution", "C16", true,
         "square convolutions 5x5..11x11: widths around every vector length, extreme and mixed coefficients, bias, divisor, saturate; 7 formats; 4 processor levels") {
    Session s;
    for (auto &f : grays())
        for (int n : {5, 7, 9, 11}) {
            std::vector<Conv> ks = kernels(n, true);
            for (size_t ki = 0; ki < ks.size(); ki++) {
                Op o = conv(ks[ki], "square");
                int step = seq::thorough ? 1 : 3;
                for (int w = n / 2 + 1 + (int)ki % step; w <= (seq::thorough ? 200 : 140); w += step) {
                    if (!seq::item()) continue;
                    int h = n / 2 + 1 + w % (n / 2 + 1);
                    N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, w, x, y, h); });
                    runOp(src, o);
                }
            }
            // all samples at the maximum: the largest sums
            for (auto &c : ks) {
                if (!seq::item()) continue;
                N src = still(mkvi(f, 70, n, 1), [&](int, int, int, int) { return maxOf(f); });
                runOp(src, conv(c, "all max"));
            }
        }
}

SEQ_CASE(impulse, "c16-impulse-response", "C16", true,
         "a single coefficient at every position of every square, horizontal, vertical and separable kernel size: the response must be the shifted plane; 8, 16 bit, half, float; 4 processor levels") {
    Session s;
    for (auto &f : {gray(8), gray(16), half(), gray(32)}) {
        for (int n : {3, 5, 7, 9, 11})
            for (int k = 0; k < n * n; k++) {
                if (!seq::item()) continue;
                Conv c; c.mode = "s"; c.m.assign(n * n, 0); c.m[k] = k % 3 == 2 ? 130 : 1; c.div = c.m[k];
                int w = 64 + n + k % 21, h = n;
                N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, k, x, y, n); });
                runOp(src, conv(c, "impulse"));
            }
        for (const char *mode : {"h", "v", "hv"})
            for (int n = 3; n <= 25; n += 2)
                for (int k = 0; k < n; k++) {
                    if (!seq::item()) continue;
                    Conv c; c.mode = mode; c.m.assign(n, 0); c.m[k] = 1;
                    int w = 32 + n + k, h = n / 2 + 2 + k % 3;
                    if (h < 4) h = 4;
                    N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, k, x, y, n); });
                    runOp(src, conv(c, "impulse"));
                }
    }
}

SEQ_CASE(convlin, "c16-linear-convolution", "C16", true,
         "horizontal, vertical and separable convolutions of all 12 sizes over widths around every vector length; 7 formats; 4 processor levels") {
    Session s;
    for (auto &f : grays())
        for (const char *mode : {"h", "v", "hv", "vh"})
            for (int n = 3; n <= 25; n += 2) {
                if (!strcmp(mode, "vh") && n > 5) continue;
                std::vector<Conv> ks = kernels(n, false);
                for (size_t ki = 0; ki < ks.size(); ki++) {
                    Conv c = ks[ki]; c.mode = mode;
                    if (mode[1] && c.div == 0 && std::fabs(c.m[0]) > 1000 && !isF(f) && ki == 3) c.div = 1023;
                    Op o = conv(c, "line");
                    int step = seq::thorough ? 2 : 23;
                    for (int w = std::max(4, n / 2 + 1) + (int)ki % step; w <= (seq::thorough ? 160 : 140); w += step) {
                        if (!seq::item()) continue;
                        int h = std::max(4, n / 2 + 1 + w % 3);
                        N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, w, x, y, h + n); });
                        runOp(src, o);
                    }
                }
            }
}

SEQ_CASE(planes, "c16-planes", "C16", true,
         "every subset of planes of 4:4:4, 4:2:0, 4:2:2, 4:4:0 and RGB clips for all filters; unprocessed planes unchanged") {
    Session s;
    for (auto f : {fmt(cfYUV, stInteger, 8), fmt(cfYUV, stInteger, 8, 1, 1), fmt(cfYUV, stInteger, 10, 1, 0), fmt(cfYUV, stInteger, 16, 0, 1), fmt(cfRGB, stInteger, 8), fmt(cfRGB, stFloat, 32), fmt(cfYUV, stFloat, 32, 1, 1), fmt(cfYUV, stFloat, 16)})
        for (int mask = 1; mask < 8; mask++) {
            std::vector<Op> ops = ops3x3(f);
            for (int n : {3, 5, 9}) ops.push_back(conv(kernels(n, true)[1], "3x3"));
            for (const char *mode : {"h", "v", "hv"}) { Conv c = kernels(5, false)[1]; c.mode = mode; ops.push_back(conv(c, "line")); }
            for (auto &o : ops) {
                if (!seq::item()) continue;
                N src = still(mkvi(f, 38, 22, 1), [&](int, int pl, int x, int y) { return noise(f, pl, x, y, mask); });
                runOp(src, o, mask);
            }
        }
}

// ---- BoxBlur
std::vector<Range> boxLine(const std::vector<Range> &in, int r, int pass, const VSVideoFormat &f) {
    int n = (int)in.size();
    std::vector<Range> out(n);
    for (int x = 0; x < n; x++) {
        double lo = 0, hi = 0, mag = 0;
        // clamped window
        for (int d = std::max(-r, -x); d <= std::min(r, n - 1 - x); d++) { lo += in[x + d].lo; hi += in[x + d].hi; mag += std::max(std::fabs(in[x + d].lo), std::fabs(in[x + d].hi)); }
        double left = std::max(0, r - x), right = std::max(0, r - (n - 1 - x));
        lo += left * in[0].lo + right * in[n - 1].lo; hi += left * in[0].hi + right * in[n - 1].hi;
        mag += left * std::fabs(in[0].hi) + right * std::fabs(in[n - 1].hi);
        double div = 2.0 * r + 1;
        if (!isF(f)) {
            double rd = pass & 1 ? 0 : 2.0 * r;
            out[x] = {std::floor((lo + rd) / div), std::floor((hi + rd) / div)};
        } else {
            double peak = 1;      // the running sum has seen all samples of the line
            double e = (n + 2 * r + 4) * U * peak * 2;
            Range a = stored(lo / div, e, f), b = stored(hi / div, e, f);
            out[x] = {a.lo, b.hi};
        }
    }
    return out;
}
Op box(int hr, int hp, int vr, int vp) {
    Op o; o.func = "BoxBlur"; o.minW = o.minH = 1;
    char d[64]; snprintf(d, sizeof d, "hradius=%d hpasses=%d vradius=%d vpasses=%d", hr, hp, vr, vp); o.desc = d;
    o.args = [=](A &a) { a.i("hradius", hr).i("hpasses", hp).i("vradius", vr).i("vpasses", vp); };
    o.plane = [=](const Plane &p, const VSVideoFormat &f) {
        std::vector<Range> r((size_t)p.w * p.h);
        for (size_t i = 0; i < r.size(); i++) r[i] = {p.v[i], p.v[i]};
        for (int pass = 0; hr > 0 && pass < hp; pass++)
            for (int y = 0; y < p.h; y++) {
                std::vector<Range> l(r.begin() + (size_t)y * p.w, r.begin() + (size_t)(y + 1) * p.w);
                l = boxLine(l, hr, pass, f);
                std::copy(l.begin(), l.end(), r.begin() + (size_t)y * p.w);
            }
        for (int pass = 0; vr > 0 && pass < vp; pass++)
            for (int x = 0; x < p.w; x++) {
                std::vector<Range> l(p.h);
                for (int y = 0; y < p.h; y++) l[y] = r[(size_t)y * p.w + x];
                l = boxLine(l, vr, pass, f);
                for (int y = 0; y < p.h; y++) r[(size_t)y * p.w + x] = l[y];
            }
        return r;
    };
    return o;
}
SEQ_CASE(boxblur, "c16-boxblur", "C16", true,
         "BoxBlur: widths and heights 4..40, radius 0..width+2 and 30000, 0..4 passes in each direction; 7 formats; plane subsets with subsampling down to 1 sample wide planes") {
    Session s;
    for (auto &f : grays())
        for (int w = 4; w <= 40; w++) {
            if (!seq::item()) continue;
            int h = 4 + w % 9;
            N src = still(mkvi(f, w, h, 1), [&](int, int, int x, int y) { return noise(f, w, x, y, 3); });
            N srct = still(mkvi(f, h, w, 1), [&](int, int, int x, int y) { return noise(f, w, x, y, 4); });
            int maxr = seq::thorough || w < 14 ? w + 2 : 8;
            for (int r = 1; r <= maxr + 2; r++) {
                int rr = r == maxr + 1 ? w : r == maxr + 2 ? 30000 : r;
                for (int p = 1; p <= 4; p++) {
                    runOp(src, box(rr, p, 0, 0), 7, 8);
                    runOp(srct, box(0, 1, rr, p), 7, 8);
                }
                runOp(src, box(rr, 2, 1 + rr % 5, 3), 7, 9);
            }
        }
    for (auto f : {fmt(cfYUV, stInteger, 8, 2, 2), fmt(cfYUV, stInteger, 16, 1, 1), fmt(cfRGB, stInteger, 10), fmt(cfYUV, stFloat, 32, 1, 0), fmt(cfYUV, stFloat, 16, 0, 1)})
        for (int mask = 1; mask < 8; mask++)
            for (int w : {4, 8, 12, 36}) {
                if (!seq::item()) continue;
                N src = still(mkvi(f, w, 8, 1), [&](int, int pl, int x, int y) { return noise(f, w, x, y, pl); });
                for (int r = 1; r <= 4; r++)
                    for (int p = 1; p <= 3; p++) {
                        runOp(src, box(r, p, 0, 1), mask, 8);
                        runOp(src, box(0, 1, r, p), mask, 8);
                        runOp(src, box(r, p, r, p), mask, 8);
                    }
            }
    if (seq::item()) {
        N src = still(mkvi(gray(8), 16, 16, 1), [&](int, int, int x, int y) { return noise(gray(8), 1, x, y, 3); });
        for (int hr : {-1, 0, 1, 30000, 30001})
            for (int hp : {-1, 0, 1})
                for (int vr : {-1, 0, 1, 30000, 30001})
                    for (int vp : {-1, 0, 1}) {
                        cur("BoxBlur(%d,%d,%d,%d)", hr, hp, vr, vp);
                        R r = call("BoxBlur", A().n("clip", src).i("hradius", hr).i("hpasses", hp).i("vradius", vr).i("vpasses", vp));
                        bool bad = hr < 0 || vr < 0 || hp < 0 || vp < 0 || hr > 30000 || vr > 30000 || !((hr && hp) || (vr && vp));
                        CHECK(r.ok() == !bad, "BoxBlur was %s", r.ok() ? "accepted" : r.err.c_str());
                        seq::exec();
                    }
    }
}

// ---- AverageFrames
struct Avg { std::vector<double> w; double scale = 0; };
Range avgPx(const std::vector<double> &x, const std::vector<double> &w, double scale, bool chroma, const VSVideoFormat &f) {
    double b = chroma && !isF(f) ? std::ldexp(1.0, f.bitsPerSample - 1) : 0, acc = 0, mag = 0;
    for (size_t i = 0; i < x.size(); i++) { acc += (x[i] - b) * w[i]; mag += std::fabs((x[i] - b) * w[i]); }
    double v = acc / scale;
    double e = isF(f) ? (x.size() + 4) * U * mag / std::fabs(scale) : 4 * U * std::fabs(v);
    return stored(v + b, e + 1e-7, f);
}
double defScale(const std::vector<double> &w, const VSVideoFormat &f) {
    double s = 0;
    for (double x : w) s += x;
    return isF(f) ? (s < FLT_EPSILON ? 1 : s) : s < 1 ? 1 : s;
}
std::vector<std::vector<double>> weightSets(int n) {
    std::vector<std::vector<double>> v(4);
    for (int i = 0; i < n; i++) {
        v[0].push_back(1);
        v[1].push_back((int)(rnd(i, n, 1) % 21) - 8);
        v[2].push_back(i & 1 ? -1023 : 1023);
        v[3].push_back(i + 1);
    }
    return v;
}
SEQ_CASE(average, "c16-averageframes", "C16", true,
         "AverageFrames: 1..31 weights, single clips of 1..8 frames at every frame with all scene change patterns for radius 1-2, and 1..31 clips of different lengths; integer, half and float; luma and chroma") {
    Session s;
    std::vector<VSVideoFormat> fs = {gray(8), fmt(cfYUV, stInteger, 8, 1, 1), fmt(cfYUV, stInteger, 10), gray(16), fmt(cfYUV, stInteger, 16), half(), fmt(cfYUV, stFloat, 16), fmt(cfYUV, stFloat, 32), fmt(cfRGB, stInteger, 16)};
    auto verify = [&](const F &g, const std::vector<F> &src, const std::vector<double> &w, double scale, int mask, const F &centre, const std::vector<double> *alt) {
        VSVideoFormat f = centre.f();
        for (int pl = 0; pl < f.numPlanes; pl++) {
            if (!(mask >> pl & 1)) { equalPlane(g, centre, pl, "AverageFrames"); continue; }
            std::vector<Plane> p;
            for (auto &x : src) p.push_back(load(x, pl));
            bool chroma = pl && f.colorFamily == cfYUV;
            Plane got = load(g, pl);
            bool ok = true; size_t bad = 0; Range br{};
            for (int variant = 0; variant < (alt ? 2 : 1); variant++) {
                ok = true;
                std::vector<double> x(src.size());
                for (size_t i = 0; ok && i < got.v.size(); i++) {
                    for (size_t k = 0; k < x.size(); k++) x[k] = p[k].v[i];
                    Range r = avgPx(x, variant ? *alt : w, scale, chroma, f);
                    if (!(got.v[i] >= r.lo && got.v[i] <= r.hi)) { ok = false; bad = i; br = r; }
                }
                if (ok) break;
            }
            CHECK(ok, "plane %d sample %zu is %.9g, expected %.9g..%.9g", pl, bad, got.v[bad], br.lo, br.hi);
            seq::step(got.v.size());
        }
        seq::exec();
    };
    for (auto &f : fs)
        for (int n = 1; n <= 31; n++) {
            auto ws = weightSets(n);
            for (size_t wi = 0; wi < ws.size(); wi++) {
                if (!seq::item()) continue;
                std::vector<double> &w = ws[wi];
                for (double scale : {0.0, 7.0, 400.0}) {
                    double sc = scale ? scale : defScale(w, f);
                    // several clips
                    {
                        A a;
                        std::vector<N> cl;
                        int maxLen = 0;
                        for (int i = 0; i < n; i++) {
                            int len = 1 + rnd(i, n, 77) % 4;
                            maxLen = std::max(maxLen, len);
                            cl.push_back(still(mkvi(f, 18, 4, len), [&f, i](int fn, int pl, int x, int y) { return noise(f, i * 8 + pl, fn, x, y); }));
                            a.n("clips", cl[i]); a.d("weights", w[i]);
                        }
                        if (scale) a.d("scale", scale);
                        int mask = n % 7 + 1;
                        for (int pl = 0; pl < 3; pl++) if (mask >> pl & 1) a.i("planes", pl);
                        cur("AverageFrames %d clips weights %zu scale %g %s planes %d", n, wi, scale, fname(f).c_str(), mask);
                        R r = call("AverageFrames", a);
                        if (n == 1) { /* a single clip with one weight */ }
                        CHECK(r.ok(), "%s", r.err.c_str());
                        CHECK(r.node.vi().numFrames == maxLen, "%d frames, expected %d", r.node.vi().numFrames, maxLen);
                        for (int k = 0; k < maxLen; k++) {
                            std::vector<F> sf;
                            for (auto &c : cl) sf.push_back(get(c, std::min(k, c.vi().numFrames - 1)));
                            cur("AverageFrames %d clips weights %zu scale %g %s planes %d frame %d", n, wi, scale, fname(f).c_str(), mask, k);
                            std::string err; F g = get(r.node, k, &err);
                            CHECK(g, "%s", err.c_str());
                            CHECK(g.propInt("n") == sf[0].propInt("n"), "properties of the wrong frame");
                            verify(g, sf, w, sc, mask, sf[0], nullptr);
                        }
                    }
                    if (n % 2 == 0) continue;
                    for (int len : {1, 2, 5, 8}) {
                        N c = still(mkvi(f, 18, 4, len), [&f, n](int fn, int pl, int x, int y) { return noise(f, 1000 + n * 8 + pl, fn, x, y); });
                        A a; a.n("clips", c); a.d("weights", w);
                        if (scale) a.d("scale", scale);
                        R r = call("AverageFrames", a);
                        CHECK(r.ok(), "%s", r.err.c_str());
                        CHECK(r.node.vi().numFrames == len, "the length changed");
                        for (int k = 0; k < len; k++) {
                            cur("AverageFrames single clip of %d frames %d weights (%zu) scale %g %s frame %d", len, n, wi, scale, fname(f).c_str(), k);
                            std::vector<F> sf;
                            for (int i = 0; i < n; i++) sf.push_back(get(c, std::clamp(k - n / 2 + i, 0, len - 1)));
                            std::string err; F g = get(r.node, k, &err);
                            CHECK(g, "%s", err.c_str());
                            CHECK(g.propInt("n") == k, "properties of the wrong frame");
                            verify(g, sf, w, sc, 7, sf[n / 2], nullptr);
                        }
                    }
                }
            }
        }
    // scene changes
    for (auto &f : {gray(8), fmt(cfYUV, stInteger, 10), half(), gray(32)})
        for (int n : {1, 3, 5})
            for (int len : {3, 5})
                for (int pat = 0; pat < 1 << (2 * len); pat++) {
                    if (!seq::item()) continue;
                    if (len == 5 && !seq::thorough && pat % 7) continue;
                    std::vector<double> w = weightSets(n)[3];
                    N c = still(mkvi(f, 9, 2, len), [&f](int fn, int pl, int x, int y) { return noise(f, pl, fn, x, y); },
                                [pat](int fn, VSFrame *fr) { if (pat >> (2 * fn) & 1) setInt(fr, "_SceneChangePrev", 1); if (pat >> (2 * fn + 1) & 1) setInt(fr, "_SceneChangeNext", 1); });
                    A a; a.n("clips", c); a.d("weights", w); a.i("scenechange", 1);
                    R r = call("AverageFrames", a);
                    CHECK(r.ok(), "%s", r.err.c_str());
                    for (int k = 0; k < len; k++) {
                        cur("AverageFrames scenechange pattern %x of %d frames, %d weights %s frame %d", pat, len, n, fname(f).c_str(), k);
                        std::vector<F> sf; std::vector<int> at;
                        for (int i = 0; i < n; i++) { at.push_back(std::clamp(k - n / 2 + i, 0, len - 1)); sf.push_back(get(c, at[i])); }
                        int from = 0, to = n - 1;
                        for (int i = n / 2; i > 0; i--) if (pat >> (2 * at[i]) & 1) { from = i; break; }
                        for (int i = n / 2; i < n - 1; i++) if (pat >> (2 * at[i] + 1) & 1) { to = i; break; }
                        // frames beyond a scene change do not contribute; their weight goes to the centre, or to the frame at the border
                        std::vector<double> w1 = w, w2 = w;
                        for (int i = 0; i < n; i++)
                            if (i < from || i > to) {
                                w1[n / 2] += w[i]; w2[i < from ? from : to] += w[i];
                                w1[i] = w2[i] = 0;
                            }
                        std::string err; F g = get(r.node, k, &err);
                        CHECK(g, "%s", err.c_str());
                        for (int i = 0; i < n; i++) if (w1[i] == 0 && w[i] != 0) w2[i] = 0;
                        verify(g, sf, w1, defScale(w, f), 7, sf[n / 2], &w2);
                    }
                }
}
}

// ---- PlaneStats
namespace {
struct Stats { double mn = INFINITY, mx = -INFINITY, avg = 0, diff = 0, avgTol = 0, diffTol = 0; };
Stats statsOf(const Plane &a, const Plane *b, const VSVideoFormat &f) {
    Stats s;
    long double sum = 0, mag = 0, d = 0;
    for (size_t i = 0; i < a.v.size(); i++) {
        s.mn = std::min(s.mn, a.v[i]); s.mx = std::max(s.mx, a.v[i]);
        sum += a.v[i]; mag += std::fabs(a.v[i]);
        if (b) d += isF(f) ? std::fabs((float)a.v[i] - (float)b->v[i]) : std::fabs(a.v[i] - b->v[i]);
    }
    long double q = (long double)a.v.size() * maxOf(f);
    s.avg = (double)(sum / q); s.diff = (double)(d / q);
    double e = isF(f) ? (a.v.size() + 8) * 1.2e-16 : 4e-16;
    s.avgTol = e * (double)(mag / q) + 1e-300; s.diffTol = e * s.diff + 1e-300;
    return s;
}
double propF(const VSMap *m, const std::string &k) {
    int e = 0;
    double v = api->mapGetFloat(m, k.c_str(), 0, &e);
    CHECK(!e && api->mapNumElements(m, k.c_str()) == 1, "property %s is missing or not one float", k.c_str());
    return v;
}
void checkStats(const F &g, const F &a, const F *b, int plane, const std::string &prop) {
    VSVideoFormat f = a.f();
    Plane pa = load(a, plane), pb;
    if (b) pb = load(*b, plane);
    Stats s = statsOf(pa, b ? &pb : nullptr, f);
    const VSMap *m = g.props();
    double mn, mx;
    if (isF(f)) { mn = propF(m, prop + "Min"); mx = propF(m, prop + "Max"); }
    else {
        mn = (double)g.propInt((prop + "Min").c_str()); mx = (double)g.propInt((prop + "Max").c_str());
        CHECK(api->mapGetType(m, (prop + "Min").c_str()) == ptInt && api->mapGetType(m, (prop + "Max").c_str()) == ptInt, "Min/Max of an integer clip are not integers");
    }
    CHECK(mn == s.mn, "%sMin is %.17g, expected %.17g", prop.c_str(), mn, s.mn);
    CHECK(mx == s.mx, "%sMax is %.17g, expected %.17g", prop.c_str(), mx, s.mx);
    double av = propF(m, prop + "Average");
    CHECK(std::fabs(av - s.avg) <= s.avgTol, "%sAverage is %.17g, expected %.17g", prop.c_str(), av, s.avg);
    if (b) {
        double d = propF(m, prop + "Diff");
        CHECK(std::fabs(d - s.diff) <= s.diffTol, "%sDiff is %.17g, expected %.17g", prop.c_str(), d, s.diff);
    } else
        CHECK(api->mapNumElements(m, (prop + "Diff").c_str()) < 0, "%sDiff is set without a second clip", prop.c_str());
    for (int pl = 0; pl < f.numPlanes; pl++) equalPlane(g, a, pl, "PlaneStats");
    CHECK(g.propInt("n") == a.propInt("n"), "other properties changed");
    seq::exec();
}
Fill statFill(const VSVideoFormat &f, int kind, int w, int h, int seed) {
    double lo = isF(f) ? -0.5 : 0, hi = isF(f) ? 1.0 : maxOf(f), mid = isF(f) ? 0.25 : std::floor(maxOf(f) / 2);
    return [=](int n, int pl, int x, int y) -> double {
        bool last = x == w - 1 && y == h - 1, first = x == 0 && y == 0;
        switch (kind) {
        case 0: return noise(f, seed + n, x, y, pl);
        case 1: return lo;
        case 2: return hi;
        case 3: return last ? hi : mid;
        case 4: return last ? lo : mid;
        case 5: return first ? hi : lo;
        case 6: return (x + y) & 1 ? hi : lo;
        default: return x == w - 1 ? lo : hi;
        }
    };
}
}
SEQ_CASE(stats, "c16-planestats", "C16", true,
         "PlaneStats: 8, 9, 10, 12, 16 bit, half and float, widths 1..140, heights 1..3, 8 contents (noise, ends of the range, one deviating corner sample, ...), one and two clips, all instruction set levels; every plane of subsampled clips; clips of different lengths; prop names; rows of 1.1 million and columns of 20000 samples of the largest value") {
    Session s;
    for (auto &f : grays())
        for (int w = 1; w <= 140; w++) {
            if (!seq::item()) continue;
            int hmax = w <= 70 ? 3 : 1;
            for (int h = 1; h <= hmax; h++)
                for (int kind = 0; kind < 8; kind++) {
                    if (h == 3 && kind > 4) continue;
                    N a = still(mkvi(f, w, h, 1), statFill(f, kind, w, h, 5)), b = still(mkvi(f, w, h, 1), statFill(f, (kind * 3 + h) % 8, w, h, 6));
                    F fa = get(a, 0), fb = get(b, 0);
                    for (int l = 0; l < 4; l++) {
                        setLevel(LEVELS[l]);
                        for (int two = 0; two < 2; two++) {
                            cur("PlaneStats %s %dx%d content %d, %d clips, cpu=%s", fname(f).c_str(), w, h, kind, two + 1, LEVELS[l]);
                            A args; args.n("clipa", a);
                            if (two) args.n("clipb", b);
                            R r = call("PlaneStats", args);
                            CHECK(r.ok(), "%s", r.err.c_str());
                            std::string err; F g = get(r.node, 0, &err);
                            CHECK(g, "%s", err.c_str());
                            checkStats(g, fa, two ? &fb : nullptr, 0, "PlaneStats");
                        }
                    }
                }
        }
    // accumulators
    for (auto &f : {gray(8), gray(10), gray(16), half(), gray(32)})
        for (auto wh : {std::pair<int, int>{1100003, 2}, {37, 20000}}) {
            if (!seq::item()) continue;
            for (int kind : {2, 1, 7}) {
                N a = still(mkvi(f, wh.first, wh.second, 1), statFill(f, kind, wh.first, wh.second, 5)), b = still(mkvi(f, wh.first, wh.second, 1), statFill(f, kind == 2 ? 1 : 2, wh.first, wh.second, 6));
                F fa = get(a, 0), fb = get(b, 0);
                for (int l = 0; l < 3; l++) {
                    setLevel(LEVELS[l]);
                    for (int two = 0; two < 2; two++) {
                        cur("PlaneStats %s %dx%d content %d, %d clips, cpu=%s", fname(f).c_str(), wh.first, wh.second, kind, two + 1, LEVELS[l]);
                        A args; args.n("clipa", a);
                        if (two) args.n("clipb", b);
                        R r = call("PlaneStats", args);
                        CHECK(r.ok(), "%s", r.err.c_str());
                        std::string err; F g = get(r.node, 0, &err);
                        CHECK(g, "%s", err.c_str());
                        checkStats(g, fa, two ? &fb : nullptr, 0, "PlaneStats");
                    }
                }
            }
        }
    // planes, names, lengths, rejected arguments
    for (auto f : {fmt(cfYUV, stInteger, 8, 1, 1), fmt(cfYUV, stInteger, 16, 2, 0), fmt(cfRGB, stInteger, 10), fmt(cfYUV, stFloat, 32, 1, 0), fmt(cfYUV, stFloat, 16), gray(8)})
        for (int plane = -1; plane <= 3; plane++)
            for (int la = 1; la <= 3; la++)
                for (int lb = 0; lb <= 3; lb++) {
                    if (!seq::item()) continue;
                    N a = still(mkvi(f, 24, 6, la), statFill(f, 0, 24, 6, 50)), b;
                    if (lb) b = still(mkvi(f, 24, 6, lb), statFill(f, 0, 24, 6, 70));
                    for (const char *prop : {"", "PlaneStats", "x_"}) {
                        cur("PlaneStats %s plane %d, lengths %d and %d, prop '%s'", fname(f).c_str(), plane, la, lb, prop);
                        A args; args.n("clipa", a).i("plane", plane);
                        if (lb) args.n("clipb", b);
                        if (*prop) args.s("prop", prop);
                        R r = call("PlaneStats", args);
                        CHECK(r.ok() == (plane >= 0 && plane < f.numPlanes), "plane %d of %d: %s", plane, f.numPlanes, r.ok() ? "accepted" : r.err.c_str());
                        if (!r.ok()) { seq::exec(); continue; }
                        const VSVideoInfo &vi = r.node.vi(), &si = a.vi();
                        CHECK(vi.numFrames == la && vi.width == si.width && vi.height == si.height && sameFormat(vi.format, si.format) && vi.fpsNum == si.fpsNum && vi.fpsDen == si.fpsDen, "clip properties changed");
                        for (int k = 0; k < la; k++) {
                            std::string err; F g = get(r.node, k, &err);
                            CHECK(g, "%s", err.c_str());
                            F fa = get(a, k), fb;
                            if (lb) fb = get(b, std::min(k, lb - 1));
                            checkStats(g, fa, lb ? &fb : nullptr, plane, *prop ? prop : "PlaneStats");
                        }
                    }
                }
    if (seq::item()) {
        N a = still(mkvi(gray(8), 16, 16, 1), statFill(gray(8), 0, 16, 16, 1));
        for (auto vi : {mkvi(gray(8), 16, 15, 1), mkvi(gray(8), 17, 16, 1), mkvi(gray(16), 16, 16, 1), mkvi(gray(8), 0, 0, 1), mkvi(VSVideoFormat{}, 16, 16, 1)}) {
            cur("PlaneStats with a mismatching second clip %dx%d", vi.width, vi.height);
            VSVideoFormat f = vi.format.colorFamily == cfUndefined ? gray(8) : vi.format;
            N b = source(vi, [f](int, VSFrame *) {});
            R r = call("PlaneStats", A().n("clipa", a).n("clipb", b));
            CHECK(!r.ok(), "accepted");
            seq::exec();
        }
    }
}
