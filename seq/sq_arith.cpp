// C18: per-pixel arithmetic filters against their formulas, on every processor path.
#include "px.h"
#include "VSConstants4.h"

namespace {

VSVideoFormat v3(int cf, int st, int bits, int ssw = 0, int ssh = 0) { return fmt(cf, st, bits, ssw, ssh); }

// boundary values of a sample format
std::vector<double> edge(const VSVideoFormat &f, int want = 1000) {
    std::vector<double> v;
    if (isF(f)) {
        for (double x : {0., 1., .5, .25, .75, -.5, -.25, .125, 2., -1., .0625, 1.5, .9990234375, .0009765625, -.0009765625, .333251953125}) v.push_back(x);
    } else {
        int b = f.bitsPerSample, m = (1 << b) - 1, h = 1 << (b - 1);
        for (int x : {0, m, h, 1, m - 1, h - 1, h + 1, 16 << (b - 8), 235 << (b - 8), 255 & m, 256 & m, 257 & m, 2, 3, m - 2, h / 2, h + h / 2, 127, 128, m / 3, m / 5, 7, 240 << (b - 8), (16 << (b - 8)) - 1, (16 << (b - 8)) + 1, m / 7, m - 255, m - 256, 5, 85, h / 2 + 1, m / 3 * 2})
            if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
    }
    if ((int)v.size() > want) v.resize(want);
    return v;
}
double lim(double x, const VSVideoFormat &f) { return isF(f) ? x : std::clamp(x, 0., maxOf(f)); }
Range eq(double v) { return {v, v}; }

typedef std::function<Range(const double *v, int pl)> Formula;
struct Call {
    std::string func, desc;
    std::vector<std::pair<const char *, N>> in;      // clips by argument name; the first one is the main clip
    std::function<void(A &)> args;
    VSVideoFormat out;
    int planeMask = 7;
    bool firstPlane[4] = {false, false, false, false};       // input i: always plane 0
    Formula px;
    bool planeArg = true;
    std::function<int(int pl)> source;                // unprocessed planes: index of the clip they are copied from
};
bool sameBytes(const F &g, int pl, const std::vector<uint8_t> &raw) {
    size_t row = (size_t)g.w(pl) * g.f().bytesPerSample;
    if (raw.empty() || raw.size() != row * g.h(pl)) return false;
    for (int y = 0; y < g.h(pl); y++)
        if (memcmp(api->getReadPtr(g.p, pl) + y * api->getStride(g.p, pl), raw.data() + y * row, row)) return false;
    seq::step((uint64_t)g.w(pl) * g.h(pl));
    return true;
}
// runs the call on every processor path and compares every frame completely
void runCall(const Call &c, int levels = 15) {
    const VSVideoInfo mv = c.in[0].second.vi();
    std::vector<std::vector<std::vector<Range>>> exp(mv.numFrames);
    std::vector<std::vector<F>> src(mv.numFrames);
    std::vector<std::vector<std::vector<uint8_t>>> raw(mv.numFrames);
    for (int n = 0; n < mv.numFrames; n++) {
        for (auto &i : c.in) src[n].push_back(get(i.second, std::min(n, i.second.vi().numFrames - 1)));
        exp[n].resize(c.out.numPlanes);
        raw[n].resize(c.out.numPlanes);
        for (int pl = 0; pl < c.out.numPlanes; pl++) {
            if (!(c.planeMask >> pl & 1)) continue;
            std::vector<Plane> p;
            for (size_t i = 0; i < c.in.size(); i++) p.push_back(load(src[n][i], c.firstPlane[i] ? 0 : pl));
            auto &e = exp[n][pl];
            e.resize(p[0].v.size());
            double v[4];
            for (size_t k = 0; k < e.size(); k++) {
                for (size_t i = 0; i < p.size(); i++) v[i] = p[i].v[k];
                e[k] = c.px(v, pl);
            }
            // exactly determined integer samples are compared bytewise
            if (c.out.sampleType == stInteger && std::all_of(e.begin(), e.end(), [](const Range &r) { return r.lo == r.hi; })) {
                raw[n][pl].resize(e.size() * c.out.bytesPerSample);
                for (size_t k = 0; k < e.size(); k++) putSample(raw[n][pl].data(), (int)k, c.out, e[k].lo);
            }
        }
    }
    for (int l = 0; l < 4; l++) {
        if (!(levels >> l & 1)) continue;
        setLevel(LEVELS[l]);
        A a;
        for (auto &i : c.in) a.n(i.first, i.second);
        if (c.args) c.args(a);
        if (c.planeArg && c.planeMask != 7)
            for (int pl = 0; pl < 3; pl++) if (c.planeMask >> pl & 1) a.i("planes", pl);
        cur("%s(%s) %s %dx%d planes=%d cpu=%s", c.func.c_str(), c.desc.c_str(), fname(mv.format).c_str(), mv.width, mv.height, c.planeMask, LEVELS[l]);
        R r = call(c.func.c_str(), a);
        CHECK(r.ok(), "rejected: %s", r.err.c_str());
        const VSVideoInfo &vi = r.node.vi();
        CHECK(sameFormat(vi.format, c.out), "the output format is %s, expected %s", fname(vi.format).c_str(), fname(c.out).c_str());
        CHECK(vi.width == mv.width && vi.height == mv.height && vi.numFrames == mv.numFrames && vi.fpsNum == mv.fpsNum && vi.fpsDen == mv.fpsDen, "the clip's properties changed");
        for (int n = 0; n < mv.numFrames; n++) {
            std::string err;
            F g = get(r.node, n, &err);
            CHECK(g, "frame %d: %s", n, err.c_str());
            CHECK(sameFormat(g.f(), c.out), "frame %d has format %s", n, fname(g.f()).c_str());
            CHECK(propText(g.props()) == propText(src[n][0].props()), "frame %d: the frame properties are %s, those of the first clip %s", n, propText(g.props()).c_str(), propText(src[n][0].props()).c_str());
            char w[24]; snprintf(w, sizeof w, "frame %d", n);
            for (int pl = 0; pl < c.out.numPlanes; pl++)
                if (c.planeMask >> pl & 1) { if (!sameBytes(g, pl, raw[n][pl])) compare(g, pl, exp[n][pl], w); }
                else equalPlane(g, src[n][c.source ? c.source(pl) : 0], pl, w);
        }
        seq::exec(mv.numFrames);
    }
}

// clip of frames enumerating a cartesian product: input i of k has value vals[i][...]
struct Product {
    std::vector<std::vector<double>> vals;
    int w, h, frames, rot = 0;
    size_t total = 1;
    explicit Product(std::vector<std::vector<double>> v, int w = 256, int rot = 0) : vals(v), w(w), rot(rot) {
        for (auto &x : vals) total *= x.size();
        h = (int)std::min<size_t>(256, (total + w - 1) / w);
        frames = (int)((total + (size_t)w * h - 1) / ((size_t)w * h));
    }
    double value(int i, int n, int x, int y, int pl) const {
        size_t k = ((size_t)n * h + y) * w + x + (size_t)pl * 7919;
        k %= total;
        for (int j = 0; j < i; j++) k /= vals[j].size();
        return vals[i][k % vals[i].size()];
    }
    N clip(int i, const VSVideoFormat &f, std::function<void(int, VSFrame *)> props = nullptr) const {
        Product p = *this;
        return still(mkvi(f, w, h, frames), [p, i](int n, int pl, int x, int y) { return p.value(i, n, x, y, pl); },
                     [i, props](int n, VSFrame *fr) { setInt(fr, "input", i); if (props) props(n, fr); });
    }
};
std::vector<double> all(const VSVideoFormat &f) { std::vector<double> v(1 << f.bitsPerSample); for (size_t i = 0; i < v.size(); i++) v[i] = (double)i; return v; }
std::vector<double> part(const std::vector<double> &v, int i, int n) { size_t a = v.size() * i / n, b = v.size() * (i + 1) / n; return {v.begin() + a, v.begin() + b}; }

// ---- formulas
Range fMerge(double a, double b, double weight, const VSVideoFormat &f) {
    float w = (float)weight;
    if (isF(f)) {
        if (w == 0) return eq(a);
        if (w == 1) return eq(b);
        return stored(a + (b - a) * w, 4 * U * (std::fabs(a) + std::fabs(b)), f);
    }
    int64_t w15 = std::min<int64_t>((int64_t)(w * 32768 + .5f), 32767);
    if (w15 == 0) return eq(a);
    if (w == 1) return eq(b);
    return eq((double)((int64_t)a + (((int64_t)(b - a) * w15 + 16384) >> 15)));
}
int64_t premul(int64_t x, int64_t a, int64_t off, int64_t m) {
    int64_t t = x - off;
    return t < 0 ? -((-t * a + m / 2) / m) : (t * a + m / 2) / m;
}
Range fMask(double a, double b, double mk, const VSVideoFormat &f, bool pre, int64_t off) {
    if (isF(f)) {
        mk = std::clamp(mk, 0., 1.);
        double v = pre ? a * (1 - mk) + b : a + (b - a) * mk;
        return stored(v, 6 * U * (std::fabs(a) + std::fabs(b)), f);
    }
    int64_t m = (int64_t)maxOf(f);
    if (pre) return eq(lim((double)(premul((int64_t)a, m - (int64_t)mk, off, m) + (int64_t)b), f));
    return eq((double)(((m - (int64_t)mk) * (int64_t)a + (int64_t)mk * (int64_t)b + m / 2) / m));
}
Range fPre(double a, double al, const VSVideoFormat &f, int64_t off) {
    if (isF(f)) return stored(a * al, 2 * U * std::fabs(a * al), f);
    return eq((double)(premul((int64_t)a, (int64_t)al, off, (int64_t)maxOf(f)) + off));
}
// range: -1 absent, 0 full, 1 limited
int64_t offsetOf(const VSVideoFormat &f, int range, int pl) {
    if (isF(f)) return 0;
    if (pl > 0 && f.colorFamily == cfYUV) return 1ll << (f.bitsPerSample - 1);
    bool limited = range < 0 ? f.colorFamily != cfRGB : range == VSC_RANGE_LIMITED;
    return limited ? 16 << (f.bitsPerSample - 8) : 0;
}
std::function<void(int, VSFrame *)> rangeProp(int r) {
    if (r < 0) return nullptr;
    return [r](int, VSFrame *f) { setInt(f, "_Range", r); };
}

const double WEIGHTS[] = {0, 1, .5, .25, 1. / 3, .75, .999, .9999999, .00001, .00002, 1. / 65536, 1. / 32768, .1, .7, .6180339};

// ---------------------------------------------------------------- two inputs
struct Bin { std::string func, desc; std::function<void(A &)> args; std::function<Range(double, double, const VSVideoFormat &)> f; bool full; };
std::vector<Bin> binaries() {
    std::vector<Bin> v;
    for (double w : WEIGHTS) {
        char d[40]; snprintf(d, sizeof d, "weight=%.9g", w);
        v.push_back({"Merge", d, [w](A &a) { a.d("weight", w); }, [w](double x, double y, const VSVideoFormat &f) { return fMerge(x, y, w, f); }, false});
    }
    v.push_back({"MakeDiff", "", nullptr, [](double x, double y, const VSVideoFormat &f) { return isF(f) ? stored(x - y, U * 4, f) : eq(lim(x - y + (1 << (f.bitsPerSample - 1)), f)); }, false});
    v.push_back({"MergeDiff", "", nullptr, [](double x, double y, const VSVideoFormat &f) { return isF(f) ? stored(x + y, U * 4, f) : eq(lim(x + y - (1 << (f.bitsPerSample - 1)), f)); }, false});
    v.push_back({"MakeFullDiff", "", nullptr, [](double x, double y, const VSVideoFormat &f) { return isF(f) ? stored(x - y, U * 4, f) : eq(x - y + (1 << f.bitsPerSample)); }, true});
    return v;
}
VSVideoFormat wider(VSVideoFormat f) {
    if (isF(f)) return f;
    VSVideoFormat o = f;
    o.bitsPerSample++;
    o.bytesPerSample = o.bitsPerSample > 16 ? 4 : 2;
    return o;
}
Call binCall(const Bin &b, const N &x, const N &y, const VSVideoFormat &f) {
    Call c;
    c.func = b.func; c.desc = b.desc; c.args = b.args; c.out = b.full ? wider(f) : f;
    c.in = {{"clipa", x}, {"clipb", y}};
    auto g = b.f;
    c.px = [g, f](const double *v, int) { return g(v[0], v[1], f); };
    c.planeArg = false;
    return c;
}
SEQ_CASE(pairs, "c18-pairs", "C18", true,
         "Merge (15 weights), MakeDiff, MergeDiff, MakeFullDiff: all 65536 pairs of 8 bit values; all values paired with every boundary value at 9, 10, 12 and 16 bits; all pairs of boundary values in float; 4 cpu levels") {
    Session s;
    for (auto &b : binaries())
        for (auto &f : grays()) {
            if (!seq::item()) continue;
            std::vector<double> e = edge(f, seq::thorough ? 1000 : 12);
            std::vector<Product> ps;
            if (isF(f)) ps = {Product({edge(f), edge(f)}, 16)};
            else if (f.bitsPerSample <= 8) ps = {Product({all(f), all(f)})};
            else ps = {Product({all(f), e}), Product({e, all(f)})};
            for (auto &p : ps) {
                N x = p.clip(0, f), y = p.clip(1, f);
                runCall(binCall(b, x, y, f));
                seq::state(seq::mix(seq::hash(b.func + b.desc), f.bitsPerSample * 2 + isF(f)));
            }
        }
}
SEQ_CASE(fulldiff, "c18-full-diff", "C18", true,
         "MergeFullDiff of every base value and every difference sample: all pairs at 8 bits, all values against boundary values above; and the round trip MergeFullDiff(b, MakeFullDiff(a, b)) == a for all pairs") {
    Session s;
    for (auto &f : grays())
        for (int dir = 0; dir < 3; dir++) {
            if (!seq::item()) continue;
            VSVideoFormat df = wider(f);
            if (f.bitsPerSample == 16 && !isF(f)) { df = fmt(cfGray, stInteger, 17); df.bytesPerSample = 4; }
            std::vector<double> e = edge(f, 12);
            if (dir < 2) {
                std::vector<double> d;
                if (isF(f)) d = edge(f);
                else if (dir == 0 || f.bitsPerSample == 8) { int n = 1 << df.bitsPerSample; for (int i = 0; i < n; i++) d.push_back(i); }
                else for (int h = 1 << f.bitsPerSample, m = 2 * h - 1, i = 0; i < 9; i++) d.push_back(std::vector<int>{0, m, h, h - 1, h + 1, h / 2, h + h / 2, 1, m - 1}[i]);
                std::vector<double> base = isF(f) ? edge(f) : dir == 0 && f.bitsPerSample > 8 ? e : all(f);
                Product p({base, d});
                N x = p.clip(0, f), y = p.clip(1, df);
                Call c;
                c.func = "MergeFullDiff"; c.in = {{"clipa", x}, {"clipb", y}}; c.out = f; c.planeArg = false;
                c.px = [f](const double *v, int) { return isF(f) ? stored(v[0] + v[1], 4 * U, f) : eq(lim(v[0] + v[1] - (1 << f.bitsPerSample), f)); };
                runCall(c);
            } else {
                Product p = isF(f) ? Product({edge(f), edge(f)}, 16) : f.bitsPerSample == 8 ? Product({all(f), all(f)}) : Product({all(f), e});
                N a = p.clip(0, f), b = p.clip(1, f);
                for (const char *l : LEVELS) {
                    setLevel(l);
                    cur("MergeFullDiff(b, MakeFullDiff(a, b)) %s cpu=%s", fname(f).c_str(), l);
                    R d = call("MakeFullDiff", A().n("clipa", a).n("clipb", b));
                    CHECK(d.ok(), "MakeFullDiff: %s", d.err.c_str());
                    R r = call("MergeFullDiff", A().n("clipa", b).n("clipb", d.node));
                    CHECK(r.ok(), "MergeFullDiff: %s", r.err.c_str());
                    for (int n = 0; n < a.vi().numFrames; n++) {
                        F g = get(r.node, n), s0 = get(a, n);
                        CHECK(g, "no frame %d", n);
                        if (!isF(f)) equalPlane(g, s0, 0, "round trip");
                        else { std::vector<Range> e2; for (double v : load(s0, 0).v) e2.push_back(stored(v, 2e-3, f)); compare(g, 0, e2, "round trip"); }
                    }
                    seq::exec();
                }
            }
        }
}
SEQ_CASE(premult, "c18-premultiply", "C18", true,
         "PreMultiply: all 65536 8 bit value and alpha pairs, all values x boundary alphas and boundary values x all alphas above, float boundary pairs; Gray, RGB and YUV, _Range absent, full and limited; 4 cpu levels") {
    Session s;
    for (auto &g : grays())
        for (int cf : {cfGray, cfRGB, cfYUV})
            for (int range = -1; range < 2; range++) {
                if (!seq::item()) continue;
                VSVideoFormat f = v3(cf, g.sampleType, g.bitsPerSample);
                std::vector<double> e = edge(g, 10);
                std::vector<Product> ps;
                if (isF(g)) ps = {Product({edge(g), edge(g)}, 16)};
                else if (g.bitsPerSample <= 8) ps = {Product({all(g), all(g)})};
                else ps = {Product({all(g), e}), Product({e, all(g)})};
                for (auto &p : ps) {
                    // the alpha clip is gray, so its values do not rotate with the plane: use plane 0 values for all planes
                    N x = still(mkvi(f, p.w, p.h, p.frames), [p](int n, int, int xx, int y) { return p.value(0, n, xx, y, 0); }, rangeProp(range));
                    N al = p.clip(1, g);
                    Call c;
                    c.func = "PreMultiply"; c.desc = "_Range=" + std::to_string(range); c.in = {{"clip", x}, {"alpha", al}}; c.out = f; c.planeArg = false; c.firstPlane[1] = true;
                    c.px = [f, range](const double *v, int pl) { return fPre(v[0], v[1], f, offsetOf(f, range, pl)); };
                    runCall(c, g.bitsPerSample == 8 ? 15 : 0xd);
                }
            }
}
// ---------------------------------------------------------------- three inputs
SEQ_CASE(masked, "c18-masked-merge", "C18", true,
         "MaskedMerge: all 16777216 combinations of 8 bit values and masks, with premultiplied off and on (full and limited offsets); all combinations of boundary values at 9..16 bits and float; 4 cpu levels") {
    Session s;
    VSVideoFormat b8 = gray(8);
    for (int mode = 0; mode < 3; mode++)                     // 0 plain, 1 premultiplied limited, 2 premultiplied full
        for (int part8 = 0; part8 < 32; part8++) {
            if (!seq::item()) continue;
            Product p({all(b8), all(b8), part(all(b8), part8, 32)});
            int range = mode == 2 ? 0 : 1;
            Call c;
            c.func = "MaskedMerge"; c.desc = mode ? "premultiplied" : "";
            c.in = {{"clipa", p.clip(0, b8, rangeProp(range))}, {"clipb", p.clip(1, b8, rangeProp(range))}, {"mask", p.clip(2, b8)}};
            c.out = b8; c.planeArg = false;
            if (mode) c.args = [](A &a) { a.i("premultiplied", 1); };
            int64_t off = offsetOf(b8, range, 0);
            c.px = [=](const double *v, int) { return fMask(v[0], v[1], v[2], b8, mode, off); };
            runCall(c, seq::thorough ? 15 : mode ? 14 : 15);
        }
    for (auto &f : grays())
        for (int mode = 0; mode < 4; mode++) {
            if (!seq::item()) continue;
            std::vector<double> e = edge(f, seq::thorough ? 1000 : 20);
            Product p({e, e, e}, 128);
            Call c;
            int range = mode - 2;
            c.func = "MaskedMerge"; c.desc = mode ? "premultiplied" : "";
            c.in = {{"clipa", p.clip(0, f, rangeProp(range))}, {"clipb", p.clip(1, f, rangeProp(range))}, {"mask", p.clip(2, f)}};
            c.out = f; c.planeArg = false;
            if (mode) c.args = [](A &a) { a.i("premultiplied", 1); };
            int64_t off = offsetOf(f, range, 0);
            c.px = [=](const double *v, int) { return fMask(v[0], v[1], v[2], f, mode, off); };
            runCall(c);
        }
    // chroma planes of YUV, RGB planes, masks with three planes and first_plane
    for (int cf : {cfYUV, cfRGB})
        for (auto &g : grays())
            for (int pre = 0; pre < 2; pre++)
                for (int mk = 0; mk < 3; mk++) {              // gray mask, full mask, full mask with first_plane
                    if (!seq::item()) continue;
                    VSVideoFormat f = v3(cf, g.sampleType, g.bitsPerSample);
                    std::vector<double> e = edge(g, 16);
                    Product p({e, e, e}, 67);
                    for (int range : {-1, 0, 1}) {
                        if (range >= 0 && !pre) continue;
                        Call c;
                        c.func = "MaskedMerge"; c.desc = std::string(pre ? "premultiplied " : "") + (mk == 2 ? "first_plane" : mk ? "mask with all planes" : "gray mask");
                        c.in = {{"clipa", p.clip(0, f, rangeProp(range))}, {"clipb", p.clip(1, f, rangeProp(range))}, {"mask", p.clip(2, mk ? f : g)}};
                        c.out = f; c.firstPlane[2] = mk != 1;
                        c.args = [=](A &a) { if (pre) a.i("premultiplied", 1); if (mk == 2) a.i("first_plane", 1); };
                        c.px = [=](const double *v, int pl) { return fMask(v[0], v[1], v[2], f, pre, offsetOf(f, range, pl)); };
                        for (int mask : {7, 1, 2, 5}) { c.planeMask = mask; runCall(c, mask == 7 ? 15 : 8); }
                    }
                }
}
// ---------------------------------------------------------------- sizes and planes
SEQ_CASE(sizes, "c18-sizes", "C18", true,
         "every two and three input filter: widths 1..68 x heights 1 and 3, five sample formats, 4 cpu levels, pseudo random samples rich in extremes") {
    Session s;
    std::vector<Bin> bins = binaries();
    for (auto &f : {gray(8), gray(10), gray(16), half(), gray(32)})
        for (int w = 1; w <= 68; w++) {
            if (!seq::item()) continue;
            for (int h : {1, 3}) {
                auto mk = [&](int k) { return still(mkvi(f, w, h, 1), [=](int, int, int x, int y) { return noise(f, k + 31 * w, x, y, 7); }); };
                N a = mk(0), b = mk(1), m = mk(2);
                for (auto &bn : bins) if (bn.func != "Merge" || bn.desc == "weight=0.25") runCall(binCall(bn, a, b, f));
                for (int pre = 0; pre < 2; pre++) {
                    Call c;
                    c.func = "MaskedMerge"; c.in = {{"clipa", a}, {"clipb", b}, {"mask", m}}; c.out = f; c.planeArg = false;
                    c.args = [=](A &x) { x.i("premultiplied", pre); };
                    c.px = [=](const double *v, int pl) { return fMask(v[0], v[1], v[2], f, pre, offsetOf(f, -1, pl)); };
                    runCall(c);
                }
                Call c;
                c.func = "PreMultiply"; c.in = {{"clip", a}, {"alpha", m}}; c.out = f; c.planeArg = false;
                c.px = [=](const double *v, int pl) { return fPre(v[0], v[1], f, offsetOf(f, -1, pl)); };
                runCall(c);
            }
        }
}
SEQ_CASE(planes, "c18-planes", "C18", true,
         "all plane subsets of YUV 4:4:4, 4:2:2, 4:2:0, 4:1:1, 4:4:0 and RGB for MakeDiff, MergeDiff, MaskedMerge; all weight vectors over {0, 0.3, 1} of length 1..3 for Merge; second clip shorter than the first") {
    Session s;
    struct Fm { int cf, ssw, ssh; };
    for (auto fm : {Fm{cfYUV, 0, 0}, Fm{cfYUV, 1, 0}, Fm{cfYUV, 1, 1}, Fm{cfYUV, 2, 0}, Fm{cfYUV, 0, 1}, Fm{cfRGB, 0, 0}})
        for (int t = 0; t < 3; t++) {
            if (!seq::item()) continue;
            VSVideoFormat f = t == 2 ? v3(fm.cf, stFloat, 32, fm.ssw, fm.ssh) : v3(fm.cf, stInteger, t ? 12 : 8, fm.ssw, fm.ssh);
            auto mk = [&](int k, int frames) { return still(mkvi(f, 20, 8, frames), [=](int n, int pl, int x, int y) { return noise(f, k * 77 + n, pl, x, y); }, [k](int, VSFrame *fr) { setInt(fr, "input", k); }); };
            N a = mk(0, 4), b = mk(1, 2), m = mk(2, 1);
            for (auto &bn : binaries()) {
                if (bn.func == "Merge" || bn.full) { if (bn.full) runCall(binCall(bn, a, b, f)); continue; }
                Call c = binCall(bn, a, b, f);
                c.planeArg = true;
                for (int mask = 1; mask < 8; mask++) { c.planeMask = mask; runCall(c); }
            }
            Call c;
            c.func = "MaskedMerge"; c.in = {{"clipa", a}, {"clipb", b}, {"mask", m}}; c.out = f;
            c.px = [=](const double *v, int pl) { return fMask(v[0], v[1], v[2], f, false, 0); };
            for (int mask = 1; mask < 8; mask++) { c.planeMask = mask; runCall(c); }
            double W[] = {0, .3, 1};
            for (int len = 0; len <= 3; len++)
                for (int k = 0; k < (len == 0 ? 1 : len == 1 ? 3 : len == 2 ? 9 : 27); k++) {
                    double w[3] = {.5, .5, .5};
                    for (int i = 0, q = k; i < len; i++, q /= 3) w[i] = W[q % 3];
                    std::vector<double> given(w, w + len);
                    for (int i = len; len && i < 3; i++) w[i] = w[len - 1];
                    Call c;
                    c.func = "Merge"; c.in = {{"clipa", a}, {"clipb", b}}; c.out = f; c.planeArg = false;
                    char d[60]; snprintf(d, sizeof d, "%d weights, effectively %g %g %g", len, w[0], w[1], w[2]); c.desc = d;
                    c.args = [given](A &x) { x.d("weight", given); };
                    double w0 = w[0], w1 = w[1], w2 = w[2];
                    c.px = [=](const double *v, int pl) { return fMerge(v[0], v[1], pl == 0 ? w0 : pl == 1 ? w1 : w2, f); };
                    runCall(c, 9);
                }
        }
}
// ---------------------------------------------------------------- one input
struct Un {
    std::string func, desc;
    std::function<void(A &)> args;
    std::function<Range(double v, int pl, const VSVideoFormat &f)> f;
    int minPlanes = 1;           // more values than planes are an error
    bool isfloat = false, isint = false;
};
bool chroma(const VSVideoFormat &f, int pl) { return f.colorFamily == cfYUV && pl > 0; }
double argAt(const std::vector<double> &v, int pl, double def) { return v.empty() ? def : v[std::min<size_t>(pl, v.size() - 1)]; }
double rounded(double x, const VSVideoFormat &f) { return isF(f) ? (double)(float)x : std::floor(x + .5); }
std::vector<Un> unaries(const VSVideoFormat &f) {
    std::vector<Un> v;
    for (int mask = 0; mask < 2; mask++)
        v.push_back({mask ? "InvertMask" : "Invert", "", nullptr, [mask](double x, int pl, const VSVideoFormat &f) {
            if (isF(f)) return chroma(f, pl) && !mask ? eq(-x) : stored(1 - x, 2 * U, f);
            return eq(maxOf(f) - x); }});
    auto scale = [&](std::vector<double> v) { for (auto &x : v) x = isF(f) ? x : std::floor(x * maxOf(f)); return v; };
    std::vector<std::vector<double>> sets = {{}, {.25}, {.75}, {.1, .6}, {.3, .4, .5}};
    if (f.numPlanes == 1) sets = {{}, {.25}, {.75}};
    auto lo = [](const VSVideoFormat &f, int pl, bool mask) { return isF(f) && chroma(f, pl) && !mask ? -.5 : 0.; };
    auto hi = [](const VSVideoFormat &f, int pl, bool mask) { return isF(f) ? chroma(f, pl) && !mask ? .5 : 1. : maxOf(f); };
    auto mid = [](const VSVideoFormat &f, int pl, bool mask) { return isF(f) ? chroma(f, pl) && !mask ? 0. : .5 : (double)(1 << (f.bitsPerSample - 1)); };
    auto text = [](const char *n, const std::vector<double> &v) { std::string s; for (double x : v) s += std::string(s.empty() ? n : ",") + std::to_string(x); return s.empty() ? s : s + " "; };
    for (auto &mn0 : sets)
        for (auto &mx0 : sets) {
            std::vector<double> mn = scale(mn0), mx = scale(mx0);
            bool ok = true;
            for (int pl = 0; pl < 3; pl++) {
                // where a bound lies beyond the other bound's default the documentation is not explicit
                VSVideoFormat ff = f;
                ok = ok && argAt(mn, pl, lo(ff, pl, false)) <= argAt(mx, pl, hi(ff, pl, false));
            }
            if (!ok) continue;
            v.push_back({"Limiter", text("min=", mn) + text("max=", mx), [=](A &a) { if (mn.size()) a.d("min", mn); if (mx.size()) a.d("max", mx); },
                         [=](double x, int pl, const VSVideoFormat &f) {
                             double r = std::clamp(x, rounded(argAt(mn, pl, lo(f, pl, false)), f), rounded(argAt(mx, pl, hi(f, pl, false)), f));
                             return isF(f) ? stored(r, 0, f) : eq(r); }});
        }
    for (int mask = 0; mask < 2; mask++)
        for (auto &thr0 : sets)
            for (int k = 0; k < 4; k++) {
                std::vector<double> thr = scale(thr0), v0, v1;
                if (k & 1) v0 = scale(f.numPlanes == 1 ? std::vector<double>{.2} : std::vector<double>{.2, .3});
                if (k & 2) v1 = scale(f.numPlanes == 1 ? std::vector<double>{.9} : std::vector<double>{.9, .8, .05});
                v.push_back({mask ? "BinarizeMask" : "Binarize", text("threshold=", thr) + text("v0=", v0) + text("v1=", v1),
                             [=](A &a) { if (thr.size()) a.d("threshold", thr); if (v0.size()) a.d("v0", v0); if (v1.size()) a.d("v1", v1); },
                             [=](double x, int pl, const VSVideoFormat &f) {
                                 double r = x < rounded(argAt(thr, pl, mid(f, pl, mask)), f) ? rounded(argAt(v0, pl, lo(f, pl, mask)), f) : rounded(argAt(v1, pl, hi(f, pl, mask)), f);
                                 return isF(f) ? stored(r, 0, f) : eq(r); }});
            }
    struct Lv { std::vector<double> mi, ma, g, mo, xo; };
    std::vector<Lv> lv = {{}, {{.0625}, {.92}, {}, {}, {}}, {{}, {}, {.5}, {}, {}}, {{}, {}, {2.2}, {}, {}}, {{.1}, {.9}, {1.5}, {.2}, {.7}}, {{}, {}, {}, {.8}, {.3}}, {{}, {.5}, {.7}, {1}, {0}}};
    if (f.numPlanes == 3) { lv.push_back({{.1, .2}, {.9, .8, .7}, {1, 2, .5}, {.05}, {.5, .6}}); lv.push_back({{.0}, {.5, 1}, {2, 1}, {}, {}}); }
    for (auto &l : lv) {
        auto mi = scale(l.mi), ma = scale(l.ma), mo = scale(l.mo), xo = scale(l.xo);
        auto g = l.g;
        v.push_back({"Levels", text("min_in=", mi) + text("max_in=", ma) + text("gamma=", g) + text("min_out=", mo) + text("max_out=", xo),
                     [=](A &a) { if (mi.size()) a.d("min_in", mi); if (ma.size()) a.d("max_in", ma); if (g.size()) a.d("gamma", g); if (mo.size()) a.d("min_out", mo); if (xo.size()) a.d("max_out", xo); },
                     [=](double x, int pl, const VSVideoFormat &f) {
                         double a = argAt(mi, pl, 0), b = argAt(ma, pl, maxOf(f)), oa = argAt(mo, pl, 0), ob = argAt(xo, pl, maxOf(f)), gm = argAt(g, pl, 1);
                         double t = (std::clamp(x, a, b) - a) / (b - a);
                         double r = std::pow(t, 1 / gm) * (ob - oa) + oa;
                         return stored(r, (isF(f) ? 3e-6 : 1e-6 * maxOf(f) + 1e-4), f);
                     }});
    }
    return v;
}
Call unCall(const Un &u, const N &src, const VSVideoFormat &f) {
    Call c;
    c.func = u.func; c.desc = u.desc; c.args = u.args; c.in = {{"clip", src}}; c.out = f;
    auto g = u.f;
    c.px = [g, f](const double *v, int pl) { return g(v[0], pl, f); };
    return c;
}
std::vector<VSVideoFormat> unFormats() {
    std::vector<VSVideoFormat> v = grays();
    for (auto &g : grays()) { v.push_back(v3(cfYUV, g.sampleType, g.bitsPerSample)); v.push_back(v3(cfRGB, g.sampleType, g.bitsPerSample)); }
    v.push_back(v3(cfYUV, stInteger, 8, 1, 1)); v.push_back(v3(cfYUV, stInteger, 16, 1, 0)); v.push_back(v3(cfYUV, stFloat, 32, 1, 1));
    return v;
}
SEQ_CASE(single, "c18-single-input", "C18", true,
         "Invert, InvertMask, Limiter, Binarize, BinarizeMask and Levels with up to 25 argument sets each: every sample value of every 8..16 bit format, boundary values of float formats; Gray, YUV and RGB; 2 cpu levels; a plane subset") {
    Session s;
    for (auto &f : unFormats())
        for (int fam = 0; fam < 3; fam++) {
            if (!seq::item()) continue;
            VSVideoFormat g = fmt(cfGray, f.sampleType, f.bitsPerSample);
            Product p({isF(g) ? edge(g) : all(g)}, isF(g) ? 12 : 256);
            if (p.h & 1 && f.subSamplingH) p.h++;
            N src = p.clip(0, f);
            int k = 0;
            for (auto &u : unaries(f)) {
                int uf = u.func[0] == 'I' || u.func == "Levels" ? 0 : u.func == "Limiter" ? 1 : 2;
                if (uf != fam) continue;
                Call c = unCall(u, src, f);
                runCall(c, 9);
                if (f.numPlanes > 1) { c.planeMask = 1 + k++ % 6; runCall(c, 8); }
            }
            seq::state(seq::hash(fname(f)));
        }
}
SEQ_CASE(singlesize, "c18-single-input-sizes", "C18", true, "the same filters on widths 1..68 x heights 1 and 2 of 8, 10 and 16 bit, half and float") {
    Session s;
    for (auto &f : {gray(8), gray(10), gray(16), half(), gray(32)})
        for (int w = 1; w <= 68; w++) {
            if (!seq::item()) continue;
            auto us = unaries(f);
            for (int h : {1, 2}) {
                N src = still(mkvi(f, w, h, 1), [=](int, int, int x, int y) { return noise(f, w, x, y, 7); });
                size_t k = w;
                for (const char *fn : {"Invert", "Limiter", "Binarize", "Levels"}) {
                    std::vector<Un *> m;
                    for (auto &u : us) if (u.func == fn) m.push_back(&u);
                    runCall(unCall(*m[k++ % m.size()], src, f), 9);
                }
            }
        }
}
// ---------------------------------------------------------------- lookup tables
double lutValue(uint32_t i, uint32_t j, const VSVideoFormat &o) {
    uint32_t r = rnd(i, j, 99, 5);
    return isF(o) ? ((r & 0xffff) - 32768.) / 1024 : r & ((1 << o.bitsPerSample) - 1);
}
VSVideoFormat outFormat(const VSVideoFormat &f, int bits) {
    return bits == 32 ? v3(f.colorFamily, stFloat, 32, f.subSamplingW, f.subSamplingH) : v3(f.colorFamily, stInteger, bits, f.subSamplingW, f.subSamplingH);
}
void lutArgs(A &a, const VSVideoFormat &o, int ibits, int way, bool defbits) {     // way 0 array, 1 function
    if (isF(o)) a.i("floatout", 1);
    else if (!defbits) a.i("bits", o.bitsPerSample);
    if (way == 0) {
        std::vector<double> vf; std::vector<int> vi;
        for (int i = 0; i < 1 << ibits; i++) { double v = lutValue(i, 0, o); if (isF(o)) vf.push_back(v); else vi.push_back((int)v); }
        if (isF(o)) a.d("lutf", vf); else a.i("lut", vi);
    } else {
        VSVideoFormat oo = o;
        VSFunction *fn = func([oo](const VSMap *in, VSMap *out) {
            int64_t x = api->mapGetInt(in, "x", 0, nullptr);
            double v = lutValue((uint32_t)x, 0, oo);
            if (isF(oo)) api->mapSetFloat(out, "val", v, maReplace); else api->mapSetInt(out, "val", (int64_t)v, maReplace);
        });
        a.fn("function", fn);
        api->freeFunction(fn);
    }
}
SEQ_CASE(lut, "c18-lut", "C18", true,
         "Lut: every value of 8, 9, 10, 12, 16 bit inputs x outputs of 8, 9, 10, 12, 16 bits and float x table and function; widths 1..68; all plane subsets of YUV420 and RGB; samples beyond the bit depth; 4 cpu levels") {
    Session s;
    for (int ib : {8, 9, 10, 12, 16})
        for (int ob : {8, 9, 10, 12, 16, 32})
            for (int way = 0; way < 2; way++) {
                if (!seq::item()) continue;
                VSVideoFormat f = gray(ib), o = outFormat(f, ob);
                Product p({all(f)});
                Call c;
                c.func = "Lut"; c.desc = "bits=" + std::to_string(ob) + (way ? " function" : " table"); c.in = {{"clip", p.clip(0, f)}}; c.out = o; c.planeArg = false;
                c.args = [=](A &a) { lutArgs(a, o, ib, way, false); };
                c.px = [=](const double *v, int) { return eq((double)(float)lutValue((uint32_t)v[0], 0, o)); };
                runCall(c);
                if (way == 0 && (ib == 8 || ib == 10 || ib == 16))
                    for (int w = 1; w <= 68; w++) {
                        c.in = {{"clip", still(mkvi(f, w, 2, 1), [=](int, int, int x, int y) { return noise(f, w, x, y, 3); })}};
                        runCall(c, ib == 8 ? 15 : 1);
                    }
                if (ib == ob && way == 0)
                    for (auto &cf : {v3(cfYUV, stInteger, ib, 1, 1), v3(cfRGB, stInteger, ib)})
                        for (int mask = 1; mask < 8; mask++) {
                            c.in = {{"clip", still(mkvi(cf, 34, 6, 2), [=](int n, int pl, int x, int y) { return noise(cf, n, pl, x, y); })}};
                            c.out = cf; c.planeArg = true; c.planeMask = mask;
                            c.args = [=](A &a) { lutArgs(a, o, ib, 0, true); };
                            runCall(c, 9);
                        }
            }
    for (int ib : {9, 10, 12})
        for (int ob : {8, 10, 32}) {                 // samples with bits set above the depth use the last entry
            if (!seq::item()) continue;
            VSVideoFormat f = gray(ib), o = outFormat(f, ob);
            VSVideoInfo vi = mkvi(f, 256, 256, 1);
            N src = source(vi, [](int, VSFrame *fr) { for (int y = 0; y < 256; y++) for (int x = 0; x < 256; x++) ((uint16_t *)(api->getWritePtr(fr, 0) + y * api->getStride(fr, 0)))[x] = y * 256 + x; });
            Call c;
            c.func = "Lut"; c.desc = "samples beyond the bit depth"; c.in = {{"clip", src}}; c.out = o; c.planeArg = false;
            c.args = [=](A &a) { lutArgs(a, o, ib, 0, false); };
            c.px = [=](const double *v, int) { return eq((double)(float)lutValue((uint32_t)std::min(v[0], maxOf(f)), 0, o)); };
            runCall(c);
        }
}
SEQ_CASE(lut2, "c18-lut2", "C18", true,
         "Lut2: every pair of samples for 8+8, 8+9, 8+12, 9+8, 12+8, 10+10, 9+11 bit inputs (8+8 as table and function) x outputs of 8, 10, 16 bits and float; widths 1..68; plane subsets; 4 cpu levels") {
    Session s;
    int pairs[][2] = {{8, 8}, {8, 9}, {9, 8}, {8, 12}, {12, 8}, {10, 10}, {9, 11}, {11, 9}};
    for (auto &pr : pairs)
        for (int ob : {8, 10, 16, 32})
            for (int way = 0; way < 2; way++) {
                if (way && pr[0] + pr[1] > 17) continue;
                if (!seq::item()) continue;
                int bx = pr[0], by = pr[1];
                VSVideoFormat fx = gray(bx), fy = gray(by), o = outFormat(fx, ob);
                Product p({all(fx), all(fy)}, bx + by > 16 ? 509 : 256);
                if (bx + by > 16) { p.h = 1031; p.frames = (int)((p.total + 509 * 1031 - 1) / (509 * 1031)); }
                Call c;
                c.func = "Lut2"; c.desc = "bits=" + std::to_string(ob) + (way ? " function" : " table"); c.out = o; c.planeArg = false;
                c.in = {{"clipa", p.clip(0, fx)}, {"clipb", p.clip(1, fy)}};
                c.args = [=](A &a) {
                    if (isF(o)) a.i("floatout", 1); else a.i("bits", ob);
                    if (way == 0) {
                        std::vector<double> vf; std::vector<int64_t> vi;
                        for (int j = 0; j < 1 << by; j++) for (int i = 0; i < 1 << bx; i++) { double v = lutValue(i, j, o); if (isF(o)) vf.push_back(v); else vi.push_back((int64_t)v); }
                        if (isF(o)) api->mapSetFloatArray(a.m, "lutf", vf.data(), (int)vf.size()); else api->mapSetIntArray(a.m, "lut", vi.data(), (int)vi.size());
                    } else {
                        VSFunction *fn = func([o](const VSMap *in, VSMap *out) {
                            double v = lutValue((uint32_t)api->mapGetInt(in, "x", 0, nullptr), (uint32_t)api->mapGetInt(in, "y", 0, nullptr), o);
                            if (isF(o)) api->mapSetFloat(out, "val", v, maReplace); else api->mapSetInt(out, "val", (int64_t)v, maReplace);
                        });
                        a.fn("function", fn);
                        api->freeFunction(fn);
                    }
                };
                c.px = [=](const double *v, int) { return eq((double)(float)lutValue((uint32_t)v[0], (uint32_t)v[1], o)); };
                runCall(c, ob == 32 ? 9 : way ? 8 : 13);
                if (way == 0)
                    for (int w = 1; w <= 68; w++) {
                        c.in = {{"clipa", still(mkvi(fx, w, 2, 1), [=](int, int, int x, int y) { return noise(fx, w, x, y, 3); })},
                                {"clipb", still(mkvi(fy, w, 2, 1), [=](int, int, int x, int y) { return noise(fy, w, x, y, 4); })}};
                        runCall(c, w % 16 < 2 || seq::thorough ? 9 : 8);
                    }
            }
    for (int mask = 1; mask < 8; mask++) {
        if (!seq::item()) continue;
        VSVideoFormat f = v3(cfYUV, stInteger, 8, 1, 0), g = v3(cfYUV, stInteger, 9, 1, 0), o = gray(8);
        auto mk = [&](VSVideoFormat f, int k, int frames) { return still(mkvi(f, 34, 4, frames), [=](int n, int pl, int x, int y) { return noise(f, k * 5 + n, pl, x, y); }); };
        Call c;
        c.func = "Lut2"; c.in = {{"clipa", mk(f, 0, 4)}, {"clipb", mk(g, 1, 2)}}; c.out = f; c.planeMask = mask;
        c.args = [=](A &a) { for (int j = 0; j < 512; j++) for (int i = 0; i < 256; i++) a.i("lut", (int64_t)lutValue(i, j, o)); };
        c.px = [=](const double *v, int) { return eq(lutValue((uint32_t)v[0], (uint32_t)v[1], o)); };
        runCall(c, 9);
    }
}
// ---------------------------------------------------------------- arguments
// the call must be rejected, or work on every frame without bringing the process down
void rejected(const char *f, A &a, const char *what) {
    cur("%s: %s", f, what);
    R r = call(f, a);
    CHECK(!r.ok(), "accepted");
    seq::exec();
}
// accepted or rejected, either is fine, but requesting all frames must not crash, every frame must have the clip's format
// and planes that aren't processed (main, mask) must hold the samples of the main clip
void survives(const char *f, A &a, const char *what, const N *main = nullptr, int mask = 7) {
    cur("%s: %s", f, what);
    R r = call(f, a);
    seq::exec();
    if (!r.ok()) return;
    VSVideoInfo vi = r.node.vi();
    for (int n = 0; n < vi.numFrames; n++) {
        std::string err;
        F g = get(r.node, n, &err);
        if (g) CHECK(sameFormat(g.f(), vi.format), "frame %d has format %s in a clip of %s", n, fname(g.f()).c_str(), fname(vi.format).c_str());
        if (g) for (int pl = 0; pl < vi.format.numPlanes; pl++) { CHECK(api->getStride(g.p, pl) >= (ptrdiff_t)g.w(pl) * vi.format.bytesPerSample, "plane %d is too small", pl); load(g, pl); }
        CHECK(g || !err.empty(), "no frame and no error");
        if (main && g)
            for (int pl = 0; pl < vi.format.numPlanes; pl++)
                if (!(mask >> pl & 1)) {
                    Plane p = load(get(*main, n), pl), q = load(g, pl);
                    CHECK(p.v == q.v, "unprocessed plane %d does not hold the samples of the source", pl);
                }
    }
}
SEQ_CASE(args, "c18-arguments", "C18", true,
         "invalid and mismatched arguments of all filters: weight counts 1..64 and values around [0, 1], format and size mismatches of every pair of 10 formats, plane lists, table sizes and values, functions that fail or return wrong values") {
    Session s;
    const VSVideoFormat fm[] = {gray(8), gray(10), gray(16), half(), gray(32), v3(cfYUV, stInteger, 8), v3(cfYUV, stInteger, 8, 1, 1), v3(cfRGB, stInteger, 8), v3(cfYUV, stFloat, 32), v3(cfGray, stInteger, 32)};
    auto clip = [&](const VSVideoFormat &f, int w = 100, int h = 8) { return still(mkvi(f, w, h, 2), [=](int n, int pl, int x, int y) { return f.bitsPerSample == 32 && !isF(f) ? 5. : noise(f, n, pl, x, y); }); };
    if (seq::item()) {
        for (auto &f : {fm[0], fm[4], fm[5]})
            for (int n = 1; n <= 64; n++) {
                A a;
                a.n("clipa", clip(f)).n("clipb", clip(f));
                for (int i = 0; i < n; i++) a.d("weight", .25);
                char d[40]; snprintf(d, sizeof d, "%d weights for %s", n, fname(f).c_str());
                cur("Merge: %s", d);
                R r = call("Merge", a);
                CHECK(r.ok() == (n <= f.numPlanes), "%s", r.ok() ? "accepted" : r.err.c_str());
                seq::exec();
            }
        A big;
        big.n("clipa", clip(fm[0])).n("clipb", clip(fm[0]));
        std::vector<double> many(200000, .25);
        api->mapSetFloatArray(big.m, "weight", many.data(), (int)many.size());
        rejected("Merge", big, "200000 weights");
        for (double w : {-1e-30, -.0001, 1.0001, 2., -1., 1e30, (double)NAN, (double)INFINITY})
            for (int pos = 0; pos < 3; pos++) {
                A a;
                a.n("clipa", clip(fm[5])).n("clipb", clip(fm[5]));
                for (int i = 0; i < pos; i++) a.d("weight", .5);
                a.d("weight", w);
                rejected("Merge", a, ("weight " + std::to_string(w)).c_str());
            }
    }
    for (int x = 0; x < 10; x++) {
        if (!seq::item()) continue;
        for (int y = 0; y < 10; y++) {
            bool ok = x == y && x != 9;
            for (const char *f : {"Merge", "MakeDiff", "MergeDiff", "MakeFullDiff"}) {
                A a;
                a.n("clipa", clip(fm[x])).n("clipb", clip(fm[y]));
                cur("%s(%s, %s)", f, fname(fm[x]).c_str(), fname(fm[y]).c_str());
                R r = call(f, a);
                CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
                if (ok) { F g = get(r.node, 1); CHECK(g, "no frame"); }
                seq::exec();
            }
            {
                A a;
                a.n("clipa", clip(fm[x])).n("clipb", clip(fm[y]));
                survives("MergeFullDiff", a, (fname(fm[x]) + " with " + fname(fm[y])).c_str());
            }
            {
                A a;
                a.n("clip", clip(fm[x])).n("alpha", clip(fm[y]));
                cur("PreMultiply(%s, %s)", fname(fm[x]).c_str(), fname(fm[y]).c_str());
                R r = call("PreMultiply", a);
                bool okp = x != 9 && fm[y].colorFamily == cfGray && fm[y].sampleType == fm[x].sampleType && fm[y].bitsPerSample == fm[x].bitsPerSample && !fm[x].subSamplingW;
                CHECK(r.ok() == okp || (fm[x].subSamplingW && !r.ok()), "%s", r.ok() ? "accepted" : r.err.c_str());
                seq::exec();
            }
            for (int z = 0; z < 10; z++)
                for (int fp = 0; fp < 2; fp++) {
                    if (y != x && z != x) continue;
                    A a;
                    a.n("clipa", clip(fm[x])).n("clipb", clip(fm[y])).n("mask", clip(fm[z])).i("first_plane", fp);
                    survives("MaskedMerge", a, (fname(fm[x]) + ", " + fname(fm[y]) + " with mask " + fname(fm[z])).c_str());
                }
            for (int way = 0; way < 2; way++)
                for (int ob : {0, 8, 16, 32})
                    for (int planes = 0; planes < 3; planes++) {
                        A a;
                        N ca = clip(fm[x]);
                        a.n("clipa", ca).n("clipb", clip(fm[y]));
                        if (ob == 32) a.i("floatout", 1); else if (ob) a.i("bits", ob);
                        VSFunction *fn = nullptr;
                        int n = fm[x].bitsPerSample + fm[y].bitsPerSample;
                        if (way && n > 16) continue;
                        if (n > 18) continue;
                        if (way) { bool fl = ob == 32; fn = func([fl](const VSMap *, VSMap *out) { if (fl) api->mapSetFloat(out, "val", 2, maReplace); else api->mapSetInt(out, "val", 2, maReplace); }); a.fn("function", fn); api->freeFunction(fn); }
                        else if (ob == 32) { std::vector<double> v(1 << n, 1.5); api->mapSetFloatArray(a.m, "lutf", v.data(), (int)v.size()); }
                        else { std::vector<int64_t> v(1 << n, 3); api->mapSetIntArray(a.m, "lut", v.data(), (int)v.size()); }
                        if (planes == 1) a.i("planes", 0);
                        if (planes == 2) a.i("planes", 1);
                        char d[120]; snprintf(d, sizeof d, "%s with %s bits=%d planes=%s", fname(fm[x]).c_str(), fname(fm[y]).c_str(), ob, planes == 0 ? "default" : planes == 1 ? "0" : "1");
                        survives("Lut2", a, d, &ca, planes ? planes : 7);
                    }
        }
        for (int ob : {0, 8, 9, 16, 32})
            for (int mask = 0; mask < 8; mask++) {
                if (fm[x].bitsPerSample > 16) continue;
                A a;
                N ca = clip(fm[x]);
                a.n("clip", ca);
                if (ob == 32) a.i("floatout", 1); else if (ob) a.i("bits", ob);
                int n = fm[x].bitsPerSample;
                if (ob == 32) { std::vector<double> v(1 << n, 1.5); api->mapSetFloatArray(a.m, "lutf", v.data(), (int)v.size()); }
                else { std::vector<int64_t> v(1 << n, 3); api->mapSetIntArray(a.m, "lut", v.data(), (int)v.size()); }
                for (int pl = 0; pl < 3; pl++) if (mask >> pl & 1) a.i("planes", pl);
                char d[80]; snprintf(d, sizeof d, "%s bits=%d planes=%d", fname(fm[x]).c_str(), ob, mask);
                survives("Lut", a, d, &ca, mask ? mask : 7);
            }
        for (const char *f : {"Invert", "InvertMask", "Limiter", "Binarize", "BinarizeMask", "Levels"}) {
            A a;
            a.n("clip", clip(fm[x]));
            cur("%s(%s)", f, fname(fm[x]).c_str());
            R r = call(f, a);
            CHECK(r.ok() == (x != 9), "%s", r.ok() ? "accepted" : r.err.c_str());
            seq::exec();
        }
    }
    if (seq::item()) {                        // dimensions
        for (int k = 0; k < 3; k++) {
            N a0 = clip(fm[0]), b0 = clip(fm[0], k == 1 ? 102 : 100, k == 2 ? 10 : 8);
            for (const char *f : {"Merge", "MakeDiff", "MergeDiff", "MakeFullDiff"}) {
                A a; a.n("clipa", a0).n("clipb", b0);
                R r = call(f, a);
                cur("%s with clips of different dimensions", f);
                CHECK(r.ok() == !k, "%s", r.ok() ? "accepted" : r.err.c_str());
            }
            A p; p.n("clip", a0).n("alpha", b0);
            cur("PreMultiply with clips of different dimensions");
            CHECK(call("PreMultiply", p).ok() == !k, "wrong");
            A q; q.n("clipa", a0).n("clipb", b0).n("mask", a0);
            A r; r.n("clipa", a0).n("clipb", a0).n("mask", b0);
            cur("MaskedMerge with clips of different dimensions");
            CHECK(call("MaskedMerge", q).ok() == !k && call("MaskedMerge", r).ok() == !k, "wrong");
            A l; l.n("clipa", a0).n("clipb", b0);
            std::vector<int64_t> v(65536, 3); api->mapSetIntArray(l.m, "lut", v.data(), 65536);
            cur("Lut2 with clips of different dimensions");
            CHECK(call("Lut2", l).ok() == !k, "wrong");
        }
    }
    if (seq::item()) {                        // plane lists
        for (const char *f : {"Invert", "InvertMask", "Limiter", "Binarize", "BinarizeMask", "Levels", "MakeDiff", "MergeDiff", "MaskedMerge", "Lut", "Lut2"}) {
            for (auto &pl : std::vector<std::vector<int>>{{-1}, {3}, {0, 0}, {0, 1, 0}, {1, 2, 3}, {2147483647}, {0, 1, 2, 0}, {2}, {2, 1, 0}, {0, 1}}) {
                A a;
                if (!strncmp(f, "M", 1) || !strcmp(f, "Lut2")) a.n("clipa", clip(fm[5])).n("clipb", clip(fm[5])); else a.n("clip", clip(fm[5]));
                if (!strcmp(f, "MaskedMerge")) a.n("mask", clip(fm[5]));
                if (!strncmp(f, "Lut", 3)) { std::vector<int64_t> v(f[3] ? 65536 : 256, 3); api->mapSetIntArray(a.m, "lut", v.data(), (int)v.size()); }
                for (int x : pl) a.i("planes", x);
                bool ok = pl.size() <= 3;
                int seen = 0;
                for (int x : pl) { if (x < 0 || x > 2 || (seen >> x & 1)) ok = false; else seen |= 1 << x; }
                cur("%s with planes %d%s", f, pl[0], pl.size() > 1 ? ",..." : "");
                R r = call(f, a);
                CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
                seq::exec();
            }
        }
    }
    if (seq::item()) {                        // tables and functions
        auto lutCall = [&](const char *what, int n, int64_t bad, int badAt, int bits, bool ok) {
            A a; a.n("clip", clip(fm[0]));
            std::vector<int64_t> v(n, 1);
            if (badAt >= 0) v[badAt] = bad;
            if (n) api->mapSetIntArray(a.m, "lut", v.data(), n); else api->mapSetEmpty(a.m, "lut", ptInt);
            if (bits) a.i("bits", bits);
            cur("Lut: %s", what);
            R r = call("Lut", a);
            CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
            seq::exec();
        };
        lutCall("256 entries", 256, 0, -1, 0, true);
        for (int n : {0, 1, 255, 257, 65536}) lutCall("wrong table length", n, 0, -1, 0, false);
        for (int at : {0, 1, 254, 255}) {
            lutCall("entry 256", 256, 256, at, 0, false);
            lutCall("entry -1", 256, -1, at, 0, false);
            lutCall("entry 2^32", 256, 1ll << 32, at, 0, false);
            lutCall("entry 255", 256, 255, at, 0, true);
            lutCall("entry 1023 with 10 bits", 256, 1023, at, 10, true);
            lutCall("entry 1024 with 10 bits", 256, 1024, at, 10, false);
            lutCall("entry 65535 with 16 bits", 256, 65535, at, 16, true);
            lutCall("entry 65536 with 16 bits", 256, 65536, at, 16, false);
        }
        for (int b : {-1, 0, 1, 7, 17, 32, 2147483647}) lutCall("bad bits", 256, 0, -1, b ? b : -8, false);
        { A a; a.n("clip", clip(fm[0])); rejected("Lut", a, "nothing given"); }
        { A a; a.n("clip", clip(fm[4])); std::vector<int64_t> v(256, 1); api->mapSetIntArray(a.m, "lut", v.data(), 256); rejected("Lut", a, "float input"); }
        for (int way = 0; way < 2; way++) {           // Lut and Lut2 functions that misbehave at one point
            const char *f = way ? "Lut2" : "Lut";
            for (int at : {0, 1, 100, 255})
                for (int kind = 0; kind < 9; kind++)
                    for (int fl = 0; fl < 2; fl++) {
                        A a;
                        a.n(way ? "clipa" : "clip", clip(fm[0]));
                        if (way) a.n("clipb", clip(fm[0]));
                        if (fl) a.i("floatout", 1);
                        VSFunction *fn = func([=](const VSMap *in, VSMap *out) {
                            int64_t x = api->mapGetInt(in, "x", 0, nullptr), y = way ? api->mapGetInt(in, "y", 0, nullptr) : 0;
                            auto set = [&](double v) { if (fl) api->mapSetFloat(out, "val", v, maReplace); else api->mapSetInt(out, "val", (int64_t)v, maReplace); };
                            if (x != at || (way && y != 3)) { set((double)(x & 255)); return; }
                            switch (kind) {
                            case 0: api->mapSetError(out, "expected"); break;
                            case 1: api->mapSetError(out, ""); break;
                            case 2: break;                                           // no value
                            case 3: set(-1); break;
                            case 4: set(256); break;
                            case 5: api->mapSetData(out, "val", "5", 1, dtUtf8, maReplace); break;
                            case 6: if (fl) api->mapSetInt(out, "val", 3, maReplace); else api->mapSetFloat(out, "val", 3, maReplace); break;
                            case 7: set(7); break;
                            case 8: api->mapSetEmpty(out, "val", fl ? ptFloat : ptInt); break;
                            }
                        });
                        a.fn("function", fn);
                        api->freeFunction(fn);
                        cur("%s function misbehaving (%d) at x=%d%s", f, kind, at, fl ? " floatout" : "");
                        R r = call(f, a);
                        bool ok = kind == 7 || (fl && (kind == 3 || kind == 4));
                        CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
                        seq::exec();
                    }
        }
    }
    if (seq::item()) {                        // values outside the format, too many values, reversed bounds
        struct T { const char *f, *k; std::vector<double> v; int fmt; bool ok; };
        for (auto &t : std::vector<T>{
                {"Limiter", "min", {256}, 0, false}, {"Limiter", "max", {256}, 0, false}, {"Limiter", "min", {-2}, 0, false}, {"Limiter", "max", {255}, 0, true}, {"Limiter", "min", {255}, 0, true}, {"Limiter", "min", {1, 1}, 0, false}, {"Limiter", "max", {1, 1, 1, 1}, 5, false},
                {"Limiter", "max", {1023}, 1, true}, {"Limiter", "max", {1024}, 1, false}, {"Limiter", "max", {65535}, 2, true}, {"Limiter", "max", {65536}, 2, false},
                {"Binarize", "threshold", {256}, 0, false}, {"Binarize", "v0", {256}, 0, false}, {"Binarize", "v1", {256}, 0, false}, {"Binarize", "v1", {-2}, 0, false}, {"Binarize", "v0", {255, 255}, 0, false}, {"BinarizeMask", "threshold", {1024}, 1, false}, {"BinarizeMask", "threshold", {1023}, 1, true},
                {"Levels", "gamma", {0}, 0, false}, {"Levels", "gamma", {-1}, 0, false}, {"Levels", "gamma", {NAN}, 0, false}, {"Levels", "gamma", {INFINITY}, 0, false}, {"Levels", "min_in", {255}, 0, false}, {"Levels", "max_in", {0}, 0, false}, {"Levels", "min_in", {NAN}, 0, false}, {"Levels", "max_out", {INFINITY}, 4, false},
                {"Levels", "gamma", {1, 1}, 0, false}, {"Levels", "min_out", {1, 1, 1, 1}, 5, false}, {"Levels", "max_in", {300}, 0, true}, {"Levels", "min_in", {-10}, 0, true}}) {
            A a; a.n("clip", clip(fm[t.fmt])); a.d(t.k, t.v);
            cur("%s(%s, %s=%g%s)", t.f, fname(fm[t.fmt]).c_str(), t.k, t.v[0], t.v.size() > 1 ? ",..." : "");
            R r = call(t.f, a);
            CHECK(r.ok() == t.ok, "%s", r.ok() ? "accepted" : r.err.c_str());
            seq::exec();
        }
        A a; a.n("clip", clip(fm[0])).d("min", 100).d("max", 99);
        rejected("Limiter", a, "min above max");
        A b; b.n("clip", clip(fm[5])).d("min", {1, 100}).d("max", {99, 99});
        rejected("Limiter", b, "min above max in the second plane");
        // premultiplied merging of frames with different ranges
        for (int r1 = 0; r1 < 2; r1++)
            for (int r2 = 0; r2 < 2; r2++) {
                N x = still(mkvi(fm[0], 8, 4, 1), [](int, int, int, int) { return 50; }, rangeProp(r1)), y = still(mkvi(fm[0], 8, 4, 1), [](int, int, int, int) { return 60; }, rangeProp(r2));
                R r = call("MaskedMerge", A().n("clipa", x).n("clipb", y).n("mask", x).i("premultiplied", 1));
                cur("MaskedMerge premultiplied with ranges %d and %d", r1, r2);
                CHECK(r.ok(), "%s", r.err.c_str());
                std::string err;
                F g = get(r.node, 0, &err);
                CHECK((bool)g == (r1 == r2), "%s", g ? "no error" : err.c_str());
            }
    }
}
}
