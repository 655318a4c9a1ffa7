// C26: the vectorised kernels stay inside their buffers: every filter with kernels x every width, under AddressSanitizer.
#include "px.h"

namespace {
typedef std::function<void(A &, const N &, const N &)> Args;
struct Op { std::string func, desc; Args args; int kinds = 7; };           // kinds: 1 8 bit, 2 up to 16 bit integer, 4 float
std::vector<Op> ops(bool thorough) {
    std::vector<Op> v;
    auto one = [](A &a, const N &c, const N &) { a.n("clip", c); };
    for (const char *mode : {"h", "v", "hv"})
        for (int n = 3; n <= 25; n += 2)
            v.push_back({"Convolution", "mode=" + std::string(mode) + " n=" + std::to_string(n), [=](A &a, const N &c, const N &) {
                a.n("clip", c).s("mode", mode);
                for (int i = 0; i < n; i++) a.d("matrix", i % 5 - 1);
            }});
    for (int n : {3, 5, 7, 9, 11})
        for (int big : {0, 1})
            v.push_back({"Convolution", "square n=" + std::to_string(n) + (big ? " large" : ""), [=](A &a, const N &c, const N &) {
                a.n("clip", c).s("mode", "s");
                for (int i = 0; i < n * n; i++) a.d("matrix", big ? i % 2 ? 1023 : -1023 : i % 5 - 1);
            }});
    for (const char *f : {"Minimum", "Maximum", "Median", "Deflate", "Inflate", "Sobel", "Prewitt", "Binarize", "Limiter", "Invert", "InvertMask", "FlipHorizontal", "FlipVertical", "Turn180", "Transpose", "Levels", "PlaneStats"})
        v.push_back({f, "", [=](A &a, const N &c, const N &) { a.n(std::string(f) == "PlaneStats" ? "clipa" : "clip", c); }});
    for (int m : {0x01, 0x5a, 0x81, 0xff})
        for (const char *f : {"Minimum", "Maximum"})
            v.push_back({f, "coordinates", [=](A &a, const N &c, const N &) { a.n("clip", c); for (int i = 0; i < 8; i++) a.i("coordinates", m >> i & 1); }});
    for (int r : {1, 2, 3, 21, 22, 23})
        for (int p : {1, 2, 3})
            v.push_back({"BoxBlur", "r=" + std::to_string(r) + " passes=" + std::to_string(p), [=](A &a, const N &c, const N &) {
                a.n("clip", c).i("hradius", r).i("hpasses", p).i("vradius", r % 5).i("vpasses", p);
            }});
    for (const char *f : {"MakeDiff", "MergeDiff", "MakeFullDiff", "Merge", "PlaneStats"})
        v.push_back({f, "two clips", [=](A &a, const N &c, const N &d) { a.n("clipa", c).n("clipb", d); }, f[0] == 'M' && std::string(f) == "MakeFullDiff" ? 3 : 7});
    v.push_back({"Merge", "weight 0.3", [](A &a, const N &c, const N &d) { a.n("clipa", c).n("clipb", d).d("weight", 0.3); }});
    for (int pre : {0, 1})
        v.push_back({"MaskedMerge", pre ? "premultiplied" : "", [=](A &a, const N &c, const N &d) { a.n("clipa", c).n("clipb", d).n("mask", d).i("premultiplied", pre); }});
    v.push_back({"PreMultiply", "", [](A &a, const N &c, const N &d) { a.n("clip", c).n("alpha", d); }});
    for (int r : {1, 3, 7})
        v.push_back({"AverageFrames", "n=" + std::to_string(2 * r + 1), [=](A &a, const N &c, const N &) { a.n("clips", c); for (int i = 0; i < 2 * r + 1; i++) a.d("weights", i % 3 - 1); }});
    v.push_back({"AverageFrames", "three clips", [](A &a, const N &c, const N &d) { a.n("clips", c).n("clips", d).n("clips", c); for (int i = 0; i < 3; i++) a.d("weights", i + 1); }});
    for (const char *e : {"x", "x y + 2 /", "x y max x y min - abs", "x sqrt y exp log + x 2 pow +", "x 3 > y 5 ? dup 1 + swap -", "x sin y cos * 100 *"})
        v.push_back({"Expr", e, [=](A &a, const N &c, const N &d) { a.n("clips", c).n("clips", d).s("expr", e); }});
    v.push_back({"Lut", "", [](A &a, const N &c, const N &) {
        a.n("clip", c);
        for (int i = 0; i < 1 << c.vi().format.bitsPerSample; i++) a.i("lut", i / 2);
    }, 1});
    v.push_back({"AddBorders", "", [](A &a, const N &c, const N &) { a.n("clip", c).i("left", 3).i("right", 5).i("top", 1).i("bottom", 2); }});
    v.push_back({"Crop", "", [](A &a, const N &c, const N &) { a.n("clip", c).i("left", c.vi().width / 3).i("right", c.vi().width / 4); }});
    v.push_back({"StackHorizontal", "", [](A &a, const N &c, const N &d) { a.n("clips", c).n("clips", d).n("clips", c); }});
    v.push_back({"StackVertical", "", [](A &a, const N &c, const N &d) { a.n("clips", c).n("clips", d); }});
    v.push_back({"DoubleWeave", "", [](A &a, const N &c, const N &) { a.n("clip", c).i("tff", 1); }});
    v.push_back({"SeparateFields", "", [](A &a, const N &c, const N &) { a.n("clip", c).i("tff", 1); }});
    (void)one; (void)thorough;
    return v;
}
void run(bool thorough) {
    newCore(1);
    auto list = ops(thorough);
    std::vector<VSVideoFormat> fm = {gray(8), gray(10), gray(16), half(), gray(32)};
    std::vector<int> hs = thorough ? std::vector<int>{1, 2, 3, 5, 8, 26, 27, 40} : std::vector<int>{2, 26};
    int maxw = thorough ? 200 : 133;
    for (auto &f : fm)
        for (int h : hs)
            for (int w = 1; w <= maxw; w++) {
                if (!seq::item()) continue;
                VSVideoInfo vi = mkvi(f, w, h, 2);
                auto mk = [&](int seed) {
                    return still(vi, [=](int n, int pl, int x, int y) {
                        uint32_t r = rnd(seed, n, x, y + pl);
                        return isF(f) ? (r % 1024) / 1023.0 : (double)(r & ((1u << f.bitsPerSample) - 1));
                    });
                };
                N a = mk(1), b = mk(2);
                for (int l = 0; l < 4; l++) {
                    setLevel(LEVELS[l]);
                    for (auto &o : list) {
                        int kind = isF(f) ? 4 : f.bitsPerSample == 8 ? 1 : 2;
                        if (!(o.kinds & kind)) continue;
                        cur("%s(%s) %s %dx%d cpu=%s", o.func.c_str(), o.desc.c_str(), fname(f).c_str(), w, h, LEVELS[l]);
                        A m;
                        o.args(m, a, b);
                        R r = call(o.func.c_str(), m);
                        seq::exec();
                        if (!r.ok()) {
                            CHECK(w < 48 || h < 26, "rejected: %s", r.err.c_str());
                            seq::state(seq::hash(o.func + o.desc + r.err));
                            continue; }
                        std::string err;
                        F g = get(r.node, 0, &err);
                        CHECK(g, "frame 0: %s", err.c_str());
                    }
                }
            }
    dropCore();
}
}
SEQ_CASE(kernelSizes, "kernel_sizes", "C26", true, "every filter with vectorised kernels (90 filter configurations: convolutions of all lengths and kinds, blurs, min/max, merges, expressions, ...) x integer 8/10/16 bit, half and float x every width of 1..133 (thorough: 1..200) x 2 heights (8) x 4 processor levels, under AddressSanitizer") {
    run(seq::thorough);
}
