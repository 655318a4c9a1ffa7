// C15: geometry and plane filters against a per-sample source map.
#include "vk.h"
#include <algorithm>
#include <climits>
using namespace vk;
using seq::cur;

namespace {
struct Session {
    Session() { newCore(1); }
    ~Session() { dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str()); }
};
const int NA = INT_MIN;
A &opt(A &a, const char *k, int v) { if (v != NA) a.i(k, v); return a; }

uint32_t content(const VSVideoFormat &f, int clip, int n, int pl, int x, int y) {
    uint32_t v = rnd(clip * 131 + n * 17 + pl, x, y, 99);
    if (f.sampleType == stInteger && f.bitsPerSample < 32) v &= (1u << f.bitsPerSample) - 1;
    if (f.bytesPerSample == 2) v &= 0xffff;
    return v;
}
uint32_t raw(const uint8_t *row, int x, int bytes) {
    return bytes == 1 ? row[x] : bytes == 2 ? ((const uint16_t *)row)[x] : ((const uint32_t *)row)[x];
}
void putRaw(uint8_t *row, int x, int bytes, uint32_t v) {
    if (bytes == 1) row[x] = v; else if (bytes == 2) ((uint16_t *)row)[x] = v; else ((uint32_t *)row)[x] = v;
}
struct Src { int clip; VSVideoInfo vi; int fieldBased = NA; int field = NA; bool varSize = false, varFmt = false; int w2 = 0, h2 = 0; };
N make(const Src &s) {
    VSVideoInfo out = s.vi;
    // variable clips: odd frames have size w2 x h2
    VSVideoFormat f = s.vi.format;
    Src c = s;
    if (s.varSize) { out.width = out.height = 0; }
    if (s.varFmt) out.format = {};
    struct Inst { Src s; };
    auto fillf = [c, f](int n, VSFrame *fr) {
        for (int pl = 0; pl < f.numPlanes; pl++)
            for (int y = 0; y < api->getFrameHeight(fr, pl); y++)
                for (int x = 0; x < api->getFrameWidth(fr, pl); x++)
                    putRaw(api->getWritePtr(fr, pl) + y * api->getStride(fr, pl), x, f.bytesPerSample, content(f, c.clip, n, pl, x, y));
        setInt(fr, "clip", c.clip);
        setInt(fr, "n", n);
        setInt(fr, "_DurationNum", 1001);
        setInt(fr, "_DurationDen", 30000);
        if (c.fieldBased != NA) setInt(fr, "_FieldBased", c.fieldBased);
        if (c.field != NA) setInt(fr, "_Field", c.field ^ (n & 1));
    };
    if (!s.varSize && !s.varFmt)
        return source(s.vi, fillf);
    struct V { Src s; std::function<void(int, VSFrame *)> fill; };
    V *v = new V{s, fillf};
    VSNode *nd = api->createVideoFilter2("VarSrc", &out,
        [](int n, int r, void *inst, void **, VSFrameContext *, VSCore *core, const VSAPI *a) -> const VSFrame * {
            if (r != arInitial) return nullptr;
            V *v = (V *)inst;
            bool alt = v->s.varSize && (n & 1) && v->s.w2;
            VSFrame *f = a->newVideoFrame(&v->s.vi.format, alt ? v->s.w2 : v->s.vi.width, alt ? v->s.h2 : v->s.vi.height, nullptr, core);
            v->fill(n, f);
            return f;
        },
        [](void *inst, VSCore *, const VSAPI *) { delete (V *)inst; }, fmParallel, nullptr, 0, v, core);
    return N(nd);
}
struct From { int clip, n, pl, x, y; bool constant = false; uint32_t value = 0; };
typedef std::function<From(int pl, int x, int y)> Map;

// frame i of node must have exactly this shape and these samples
void checkFrame(const F &f, int i, const VSVideoFormat &fm, int w, int h, const Map &m, const VSVideoFormat &srcf) {
    CHECK(sameFormat(f.f(), fm), "frame %d has format %s, expected %s", i, fname(f.f()).c_str(), fname(fm).c_str());
    CHECK(f.w() == w && f.h() == h, "frame %d is %dx%d, expected %dx%d", i, f.w(), f.h(), w, h);
    for (int pl = 0; pl < fm.numPlanes; pl++) {
        int pw = pl ? w >> fm.subSamplingW : w, ph = pl ? h >> fm.subSamplingH : h;
        CHECK(f.w(pl) == pw && f.h(pl) == ph, "frame %d plane %d is %dx%d, expected %dx%d", i, pl, f.w(pl), f.h(pl), pw, ph);
        const uint8_t *p = api->getReadPtr(f.p, pl);
        ptrdiff_t st = api->getStride(f.p, pl);
        for (int y = 0; y < ph; y++)
            for (int x = 0; x < pw; x++) {
                From s = m(pl, x, y);
                uint32_t e = s.constant ? s.value : content(srcf, s.clip, s.n, s.pl, s.x, s.y), g = raw(p + y * st, x, fm.bytesPerSample);
                CHECK(e == g, "frame %d plane %d (%d,%d): %x, expected %x (clip %d frame %d plane %d (%d,%d))", i, pl, x, y, g, e, s.clip, s.n, s.pl, s.x, s.y);
            }
        seq::step(pw * ph);
    }
}
void checkVi(const N &n, const VSVideoFormat &f, int w, int h, int frames) {
    const VSVideoInfo &v = n.vi();
    CHECK(sameFormat(v.format, f) && v.width == w && v.height == h, "clip is %s %dx%d, expected %s %dx%d", fname(v.format).c_str(), v.width, v.height, fname(f).c_str(), w, h);
    CHECK(v.numFrames == frames, "clip has %d frames, expected %d", v.numFrames, frames);
}
void expectErr(const R &r) { seq::exec(); CHECK(!r.ok(), "accepted, expected an error"); }
void expectOk(const R &r) { seq::exec(); CHECK(r.ok(), "rejected: %s", r.err.c_str()); }

std::vector<VSVideoFormat> formats() {
    std::vector<VSVideoFormat> v;
    for (int b : {8, 10, 16, 24, 32}) v.push_back(fmt(cfGray, stInteger, b));
    v.push_back(fmt(cfGray, stFloat, 16));
    v.push_back(fmt(cfGray, stFloat, 32));
    v.push_back(fmt(cfRGB, stInteger, 8));
    v.push_back(fmt(cfRGB, stInteger, 16));
    v.push_back(fmt(cfRGB, stFloat, 16));
    v.push_back(fmt(cfRGB, stFloat, 32));
    int i = 0;
    for (int sw = 0; sw <= (seq::thorough ? 3 : 2); sw++)
        for (int shh = 0; shh <= (seq::thorough ? 3 : 2); shh++) {
            static const int bits[] = {8, 9, 16, 32};
            v.push_back(fmt(cfYUV, stInteger, bits[i++ % 4], sw, shh));
            if (seq::thorough || sw != shh) v.push_back(fmt(cfYUV, stInteger, 8, sw, shh));
        }
    v.push_back(fmt(cfYUV, stFloat, 32, 1, 1));
    v.push_back(fmt(cfYUV, stFloat, 16, 1, 0));
    v.push_back(fmt(cfYUV, stFloat, 32, 0, 1));
    return v;
}
int up(int v, int ss) { return v << ss; }
uint64_t shape(const VSVideoFormat &f, int a, int b, int c = 0, int d = 0) {
    uint64_t h = seq::mix(f.colorFamily * 100 + f.bitsPerSample * 10 + f.sampleType, f.subSamplingW * 8 + f.subSamplingH);
    h = seq::mix(h, a * 10007 + b); return seq::mix(h, c * 10007 + d);
}
}

SEQ_CASE(crop, "crop", "C15", true, "every format x small sizes x every (x, y, w, h) in -1..size+1 for CropAbs, every (left, right, top, bottom) in 0..size for Crop, _FieldBased values, variable-size input") {
    Session session;
    for (auto &f : formats()) {
        int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
        std::vector<std::pair<int, int>> sizes{{mw * 2, mh * 2}, {mw * 3, mh * 3}};
        if (mw == 1 && mh == 1) sizes.push_back({5, 4});
        for (auto [W, H] : sizes) {
            Src s{1, mkvi(f, W, H, 1)};
            s.fieldBased = (W + H) % 3;
            N src = make(s);
            int stepx = mw > 2 ? mw / 2 : 1, stepy = mh > 2 ? mh / 2 : 1;
            for (int x = -1; x <= W; x += x < 0 ? 1 : stepx) for (int y = -1; y <= H; y += y < 0 ? 1 : stepy)
                for (int w = 0; w <= W + 1; w += stepx) for (int h = 0; h <= H + 1; h += stepy) {
                    if (!seq::item()) continue;
                    cur("CropAbs(%s %dx%d, left=%d top=%d width=%d height=%d)", fname(f).c_str(), W, H, x, y, w, h);
                    A a; a.n("clip", src).i("width", w).i("height", h);
                    if (x || (y & 1)) a.i((x + y) & 1 ? "left" : "x", x);
                    if (y || (x & 1)) a.i(x & 1 ? "top" : "y", y);
                    R r = call("CropAbs", a);
                    bool valid = x >= 0 && y >= 0 && w > 0 && h > 0 && x + w <= W && y + h <= H && !(x % mw || w % mw || y % mh || h % mh);
                    if (!valid) { expectErr(r); }
                    else {
                        expectOk(r);
                        checkVi(r.node, f, w, h, 1);
                        F fr = get(r.node, 0);
                        checkFrame(fr, 0, f, w, h, [&](int pl, int px, int py) { return From{1, 0, pl, px + (pl ? x >> f.subSamplingW : x), py + (pl ? y >> f.subSamplingH : y)}; }, f);
                        int fb = s.fieldBased;
                        if ((y & 1) && fb) fb = 3 - fb;
                        CHECK(fr.propInt("_FieldBased") == fb, "_FieldBased is %d, expected %d", (int)fr.propInt("_FieldBased"), fb);
                        CHECK(fr.propInt("clip") == 1 && fr.propInt("_DurationNum") == 1001, "frame properties lost");
                        seq::state(shape(f, x, y, w, h));
                    }
                    // the relative form of the same crop
                    int right = W - w - x, bottom = H - h - y;
                    cur("Crop(%s %dx%d, left=%d right=%d top=%d bottom=%d)", fname(f).c_str(), W, H, x, right, y, bottom);
                    A b; b.n("clip", src);
                    if (x) b.i("left", x);
                    if (y) b.i("top", y);
                    if (right) b.i("right", right);
                    if (bottom) b.i("bottom", bottom);
                    R r2 = call((x + y + w) & 1 ? "Crop" : "CropRel", b);
                    if (!valid) { expectErr(r2); continue; }
                    expectOk(r2);
                    checkVi(r2.node, f, w, h, 1);
                    F fr = get(r2.node, 0);
                    checkFrame(fr, 0, f, w, h, [&](int pl, int px, int py) { return From{1, 0, pl, px + (pl ? x >> f.subSamplingW : x), py + (pl ? y >> f.subSamplingH : y)}; }, f);
                }
        }
        // variable size input: frames alternate between two sizes
        for (int x : {0, mw}) for (int y : {0, mh}) for (int w : {mw, 2 * mw, 3 * mw, 4 * mw}) for (int h : {mh, 2 * mh, 3 * mh}) for (int vf = 0; vf < 2; vf++) {
            if (!seq::item()) continue;
            cur("CropAbs(variable %s, left=%d top=%d width=%d height=%d)", fname(f).c_str(), x, y, w, h);
            Src s{2, mkvi(f, 4 * mw, 3 * mh, 2)};
            s.varSize = true; s.w2 = 3 * mw; s.h2 = 4 * mh;
            s.varFmt = vf;
            A a; a.n("clip", make(s)).i("width", w).i("height", h).i("left", x).i("top", y);
            R r = call("CropAbs", a);
            expectOk(r);
            for (int i = 0; i < 2; i++) {
                int W = i ? 3 * mw : 4 * mw, H = i ? 4 * mh : 3 * mh;
                std::string err;
                F fr = get(r.node, i, &err);
                if (x + w > W || y + h > H) { CHECK(!fr, "frame %d delivered although the area is outside the frame", i); continue; }
                CHECK(fr, "frame %d failed: %s", i, err.c_str());
                checkFrame(fr, i, f, w, h, [&](int pl, int px, int py) { return From{2, i, pl, px + (pl ? x >> f.subSamplingW : x), py + (pl ? y >> f.subSamplingH : y)}; }, f);
            }
            A b; b.n("clip", make(s)).i("left", mw);
            expectErr(call("Crop", b));
        }
    }
}

SEQ_CASE(borders, "add_borders", "C15", true, "every format x small sizes x border widths 0..3 units on each side (including unaligned and negative), colours at the ends of the range and outside") {
    Session session;
    for (auto &f : formats()) {
        int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
        double top = f.sampleType == stFloat ? 1.0 : std::pow(2.0, f.bitsPerSample) - 1;
        std::vector<int> hb{0, 1, mw, 2 * mw, 3 * mw, -mw}, vb{0, 1, mh, 2 * mh, -mh};
        std::sort(hb.begin(), hb.end()); hb.erase(std::unique(hb.begin(), hb.end()), hb.end());
        std::sort(vb.begin(), vb.end()); vb.erase(std::unique(vb.begin(), vb.end()), vb.end());
        for (int W : {mw, 3 * mw, 33 * mw}) for (int l : hb) for (int r : hb) for (int t : vb) for (int b : vb) {
            int H = 2 * mh;
            if (!seq::item()) continue;
            int ci = (l * 7 + r * 3 + t * 5 + b + 100) % 5;
            std::vector<double> col;
            bool badcol = false;
            uint32_t want[3] = {0, 0, 0};
            if (f.sampleType == stInteger && f.colorFamily == cfYUV) want[1] = want[2] = 1u << (f.bitsPerSample - 1);
            if (ci == 1 || ci == 2) {
                for (int p = 0; p < f.numPlanes; p++) {
                    double v = ci == 1 ? top - p : (f.sampleType == stFloat ? -0.25 * p : p + 1.0);
                    if (ci == 1 && f.sampleType == stFloat) v = 1.0 / (p + 1);
                    col.push_back(v);
                    if (f.sampleType == stFloat) {
                        if (f.bytesPerSample == 4) { float x = v; memcpy(&want[p], &x, 4); }
                        else { _Float16 x = (_Float16)(float)v; uint16_t u; memcpy(&u, &x, 2); want[p] = u; }
                    } else want[p] = (uint32_t)(int64_t)v;
                }
            } else if (ci == 3) {
                col.assign(f.numPlanes, f.sampleType == stFloat ? (double)INFINITY : ((l + b) & 1 ? top + 1 : -1.0));
                badcol = true;
            } else if (ci == 4 && ((l ^ t) & 1)) {
                col.assign(f.numPlanes + 1, 0);
                badcol = true;
            }
            Src s{3, mkvi(f, W, H, 1)};
            s.fieldBased = (l + r + 2 * mw) % 3;
            cur("AddBorders(%s %dx%d, left=%d right=%d top=%d bottom=%d color mode %d)", fname(f).c_str(), W, H, l, r, t, b, ci);
            A a; a.n("clip", make(s));
            if (l) a.i("left", l);
            if (r) a.i("right", r);
            if (t) a.i("top", t);
            if (b) a.i("bottom", b);
            if (!col.empty()) a.d("color", col);
            R res = call("AddBorders", a);
            bool nop = !l && !r && !t && !b;
            bool valid = nop || (l >= 0 && r >= 0 && t >= 0 && b >= 0 && !(l % mw || r % mw || t % mh || b % mh) && !badcol);
            if (!valid) { expectErr(res); continue; }
            expectOk(res);
            checkVi(res.node, f, W + l + r, H + t + b, 1);
            F fr = get(res.node, 0);
            checkFrame(fr, 0, f, W + l + r, H + t + b, [&](int pl, int x, int y) {
                int sx = pl ? f.subSamplingW : 0, sy = pl ? f.subSamplingH : 0;
                int qx = x - (l >> sx), qy = y - (t >> sy);
                if (qx < 0 || qy < 0 || qx >= W >> sx || qy >= H >> sy) { From c{}; c.constant = true; c.value = want[pl]; return c; }
                return From{3, 0, pl, qx, qy};
            }, f);
            int fb = s.fieldBased;
            if ((t & 1) && fb) fb = 3 - fb;
            CHECK(fr.propInt("_FieldBased") == fb, "_FieldBased is %d, expected %d", (int)fr.propInt("_FieldBased"), fb);
            CHECK(fr.propInt("clip") == 3, "frame properties lost");
            seq::state(shape(f, W, l, r, t * 8 + b));
        }
    }
}

SEQ_CASE(huge, "huge_sizes", "C15", true, "CropAbs, Crop, AddBorders x every combination of four arguments out of the ends of the 32 and 64 bit ranges and small values, two formats") {
    Session session;
    typedef __int128 big;
    const int64_t vals[] = {INT64_MIN, (int64_t)INT_MIN - 1, INT_MIN, INT_MIN + 2, -2, 0, 2, 8, (1 << 30), INT_MAX - 9, INT_MAX - 1, INT_MAX, (int64_t)1 << 32, ((int64_t)1 << 32) + 2, INT64_MAX};
    for (auto &f : {fmt(cfGray, stInteger, 8), fmt(cfYUV, stInteger, 16, 1, 1)})
        for (int64_t p : vals) for (int64_t q : vals) for (int64_t r : vals) for (int64_t t : vals) {
            if (!seq::item()) continue;
            const int W = 12, H = 10;
            N src = make(Src{4, mkvi(f, W, H, 1)});
            auto run = [&](const char *fn, A &a, bool valid, big w, big h) {
                R res = call(fn, a);
                seq::exec();
                if (!res.ok()) { CHECK(!valid, "rejected: %s", res.err.c_str()); return; }
                CHECK(w > 0 && h > 0 && w <= INT_MAX && h <= INT_MAX, "accepted");
                checkVi(res.node, f, (int)w, (int)h, 1);
                if (valid) { F fr = get(res.node, 0); CHECK(fr.w() == w && fr.h() == h, "the frame is %dx%d", fr.w(), fr.h()); }
            };
            bool even = !f.subSamplingW || !((p | q | r | t) & 1);
            {
                cur("CropAbs(%s %dx%d, left=%lld top=%lld width=%lld height=%lld)", fname(f).c_str(), W, H, (long long)p, (long long)q, (long long)r, (long long)t);
                A a; a.n("clip", src).i("left", p).i("top", q).i("width", r).i("height", t);
                bool valid = even && p >= 0 && q >= 0 && r > 0 && t > 0 && (big)p + r <= W && (big)q + t <= H;
                run("CropAbs", a, valid, valid ? (big)r : 0, t);
            }
            {
                cur("Crop(%s %dx%d, left=%lld top=%lld right=%lld bottom=%lld)", fname(f).c_str(), W, H, (long long)p, (long long)q, (long long)r, (long long)t);
                A a; a.n("clip", src).i("left", p).i("top", q).i("right", r).i("bottom", t);
                bool valid = even && p >= 0 && q >= 0 && r >= 0 && t >= 0 && (big)p + r < W && (big)q + t < H;
                run("Crop", a, valid, valid ? (big)W - p - r : 0, (big)H - q - t);
            }
            {
                cur("AddBorders(%s %dx%d, left=%lld top=%lld right=%lld bottom=%lld)", fname(f).c_str(), W, H, (long long)p, (long long)q, (long long)r, (long long)t);
                A a; a.n("clip", src).i("left", p).i("top", q).i("right", r).i("bottom", t);
                bool ok = p >= 0 && q >= 0 && r >= 0 && t >= 0;
                big w = (big)W + p + r, h = (big)H + q + t;
                run("AddBorders", a, ok && even && w < 100 && h < 100, ok ? w : 0, h);
            }
        }
}

SEQ_CASE(flips, "flip_turn_transpose", "C15", true, "every format x widths and heights 1..20 (units) and around 32/64 x FlipVertical, FlipHorizontal, Turn90/180/270, Transpose x cpu levels, variable-size input for the flips") {
    const char *lv[] = {"none", "sse2", "avx2", "avx512"};
    for (int level = 0; level < 4; level++) {
        Session session;
        A la; la.s("cpu", lv[level]);
        api->freeMap(api->invoke(api->getPluginByID("com.vapoursynth.std", core), "SetMaxCPU", la.m));
        for (auto &f : formats()) {
            int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
            std::vector<int> ws, hs;
            int lim = f.numPlanes == 1 ? (seq::thorough ? 40 : 20) : (seq::thorough ? 18 : 10);
            for (int i = 1; i <= lim; i++) { ws.push_back(i * mw); hs.push_back(i * mh); }
            for (int i : {31, 32, 33, 64, 65}) { ws.push_back(i * mw); if (i < 40) hs.push_back(i * mh); }
            for (int W : ws) for (int H : hs) {
                if (!seq::item()) continue;
                Src s{4, mkvi(f, W, H, 1)};
                N src = make(s);
                VSVideoFormat tf = f;
                std::swap(tf.subSamplingW, tf.subSamplingH);
                for (int op = 0; op < 6; op++) {
                    if (level && op < 3) continue; // flips have no cpu dependent code
                    static const char *names[] = {"FlipVertical", "FlipHorizontal", "Turn180", "Transpose", "Turn90", "Turn270"};
                    cur("%s(%s %dx%d cpu=%s)", names[op], fname(f).c_str(), W, H, lv[level]);
                    A a; a.n("clip", src);
                    R r = call(names[op], a);
                    expectOk(r);
                    const VSVideoFormat &of = op >= 3 ? tf : f;
                    int ow = op >= 3 ? H : W, oh = op >= 3 ? W : H;
                    checkVi(r.node, of, ow, oh, 1);
                    F fr = get(r.node, 0);
                    checkFrame(fr, 0, of, ow, oh, [&](int pl, int x, int y) {
                        int pw = pl ? W >> f.subSamplingW : W, ph = pl ? H >> f.subSamplingH : H;
                        switch (op) {
                        case 0: return From{4, 0, pl, x, ph - 1 - y};
                        case 1: return From{4, 0, pl, pw - 1 - x, y};
                        case 2: return From{4, 0, pl, pw - 1 - x, ph - 1 - y};
                        case 3: return From{4, 0, pl, y, x};
                        case 4: return From{4, 0, pl, y, ph - 1 - x};
                        default: return From{4, 0, pl, pw - 1 - y, x};
                        }
                    }, f);
                    CHECK(fr.propInt("clip") == 4, "frame properties lost");
                }
                seq::state(shape(f, W, H, level));
            }
            if (level == 0)
                for (int op = 0; op < 3; op++)
                    for (int vf = 0; vf < 2; vf++) {
                        if (!seq::item()) continue;
                        static const char *names[] = {"FlipVertical", "FlipHorizontal", "Turn180"};
                        Src s{5, mkvi(f, 3 * mw, 2 * mh, 2)};
                        s.varSize = true; s.w2 = 5 * mw; s.h2 = 3 * mh; s.varFmt = vf;
                        cur("%s(variable %s)", names[op], fname(f).c_str());
                        A a; a.n("clip", make(s));
                        R r = call(names[op], a);
                        expectOk(r);
                        for (int i = 0; i < 2; i++) {
                            int W = i ? 5 * mw : 3 * mw, H = i ? 3 * mh : 2 * mh;
                            F fr = get(r.node, i);
                            checkFrame(fr, i, f, W, H, [&](int pl, int x, int y) {
                                int pw = pl ? W >> f.subSamplingW : W, ph = pl ? H >> f.subSamplingH : H;
                                return From{5, i, pl, op ? pw - 1 - x : x, op == 1 ? y : ph - 1 - y};
                            }, f);
                        }
                        A b; b.n("clip", make(s));
                        for (const char *t : {"Transpose", "Turn90", "Turn270"}) expectErr(call(t, b));
                    }
        }
    }
}

SEQ_CASE(stack, "stack", "C15", true, "every format x 1..3 clips with sizes 1..4 units and lengths 1..3, mismatching sizes and formats") {
    Session session;
    auto fs = formats();
    for (size_t fi = 0; fi < fs.size(); fi++) {
        auto &f = fs[fi];
        int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
        for (int vert = 0; vert < 2; vert++)
            for (int k = 1; k <= 3; k++)
                for (int code = 0; code < 1 << (2 * k); code++)
                    for (int bad = 0; bad < (k > 1 ? 3 : 1); bad++) {
                        if (!seq::item()) continue;
                        std::vector<Src> ss;
                        A a;
                        int W = 0, H = 0, L = 0;
                        static const int szs[] = {1, 2, 5, 17};
                        for (int i = 0; i < k; i++) {
                            int sz = szs[code >> (2 * i) & 3];
                            int w = vert ? 3 * mw : sz * mw, h = vert ? sz * mh : 2 * mh;
                            if (bad == 1 && i == k - 1) { if (vert) w += mw; else h += mh; }
                            const VSVideoFormat &ff = bad == 2 && i == k - 1 ? fs[(fi + 1) % fs.size()] : f;
                            if (bad == 2 && i == k - 1) { w = w << 3; h = h << 3; }
                            int len = 1 + (sz + i) % 3;
                            Src s{10 + i, mkvi(ff, w, h, len)};
                            ss.push_back(s);
                            a.n("clips", make(s));
                            if (vert) { W = w; H += h; } else { H = h; W += w; }
                            L = std::max(L, len);
                        }
                        cur("Stack%s(%s, %d clips, code %d, mismatch %d)", vert ? "Vertical" : "Horizontal", fname(f).c_str(), k, code, bad);
                        R r = call(vert ? "StackVertical" : "StackHorizontal", a);
                        if (bad) { expectErr(r); continue; }
                        expectOk(r);
                        checkVi(r.node, f, W, H, L);
                        for (int i = 0; i < L; i++) {
                            F fr = get(r.node, i);
                            checkFrame(fr, i, f, W, H, [&](int pl, int x, int y) {
                                int c = 0;
                                for (;; c++) {
                                    int pw = pl ? ss[c].vi.width >> f.subSamplingW : ss[c].vi.width, ph = pl ? ss[c].vi.height >> f.subSamplingH : ss[c].vi.height;
                                    if (vert ? y < ph : x < pw) break;
                                    if (vert) y -= ph; else x -= pw;
                                }
                                return From{ss[c].clip, std::min(i, ss[c].vi.numFrames - 1), pl, x, y};
                            }, f);
                            CHECK(fr.propInt("clip") == 10 && fr.propInt("n") == std::min(i, ss[0].vi.numFrames - 1), "properties are not those of the first clip");
                        }
                        seq::state(shape(f, vert, k, code));
                    }
    }
}

SEQ_CASE(shuffle, "shuffle_split", "C15", true, "ShufflePlanes: 1..3 clips from 7 formats and 2 sizes x plane indices -1..3 x colour families (also API 3 ids) x prop_src; SplitPlanes on every format") {
    Session session;
    std::vector<Src> base{
        {20, mkvi(fmt(cfGray, stInteger, 8), 8, 4, 2)}, {21, mkvi(fmt(cfYUV, stInteger, 8, 1, 1), 8, 4, 3)}, {22, mkvi(fmt(cfYUV, stInteger, 8, 0, 0), 8, 4, 1)},
        {23, mkvi(fmt(cfRGB, stInteger, 8), 4, 2, 2)}, {24, mkvi(fmt(cfGray, stInteger, 16), 8, 4, 2)}, {25, mkvi(fmt(cfGray, stInteger, 8), 4, 2, 4)},
        {26, mkvi(fmt(cfYUV, stInteger, 8, 2, 0), 8, 4, 2)}};
    if (seq::thorough) { base.push_back({27, mkvi(fmt(cfGray, stFloat, 16), 8, 4, 2)}); base.push_back({28, mkvi(fmt(cfYUV, stInteger, 8, 0, 1), 4, 4, 2)}); }
    std::vector<N> nodes;
    for (auto &s : base) nodes.push_back(make(s));
    std::vector<std::pair<int, int>> fams{{cfGray, cfGray}, {cfRGB, cfRGB}, {cfYUV, cfYUV}, {1000000, cfGray}, {2000000, cfRGB}, {3000000, cfYUV}, {4000000, cfYUV}, {0, -1}, {4, -1}};
    auto pw = [&](int c, int p) { auto &v = base[c].vi; return p ? v.width >> v.format.subSamplingW : v.width; };
    auto ph = [&](int c, int p) { auto &v = base[c].vi; return p ? v.height >> v.format.subSamplingH : v.height; };
    for (int nc = 1; nc <= 3; nc++) {
        int combos = 1;
        for (int i = 0; i < nc; i++) combos *= (int)base.size();
        for (int cc = 0; cc < combos; cc++)
            for (auto [fam, cf] : fams)
                for (int np = 1; np <= 3; np++)
                    for (int pc = 0; pc < (np == 1 ? 5 : np == 2 ? 25 : 125); pc++) {
                        if (fam > 3 && (pc % 3 || nc == 3)) continue;
                        if (!seq::thorough && nc == 3 && (cc * 7 + pc) % 3) continue;
                        if (!seq::item()) continue;
                        int ci[3] = {cc % (int)base.size(), 0, 0};
                        ci[1] = nc > 1 ? cc / (int)base.size() % (int)base.size() : ci[0];
                        ci[2] = nc > 2 ? cc / (int)(base.size() * base.size()) : ci[1];
                        int pl[3] = {0, 0, 0}, q = pc;
                        std::vector<int> planes;
                        for (int i = 0; i < np; i++) { pl[i] = q % 5 - 1; q /= 5; planes.push_back(pl[i]); }
                        int propsrc = (cc + pc) % 4 == 0 ? (cc + pc) % (int)base.size() : -1;
                        cur("ShufflePlanes(clips=%d,%d,%d of %d planes=%d,%d,%d of %d family=%d prop_src=%d)", ci[0], ci[1], ci[2], nc, pl[0], pl[1], pl[2], np, fam, propsrc);
                        A a;
                        for (int i = 0; i < nc; i++) a.n("clips", nodes[ci[i]]);
                        a.i("planes", planes).i("colorfamily", fam);
                        if (propsrc >= 0) a.n("prop_src", nodes[propsrc]);
                        R r = call("ShufflePlanes", a);
                        int outp = cf == cfGray ? 1 : 3;
                        bool ok = cf >= 0 && nc <= outp && np <= outp;
                        for (int i = 0; i < outp && ok; i++) ok = pl[i] >= 0 && pl[i] < base[ci[i]].vi.format.numPlanes;
                        int ssw = 0, ssh = 0;
                        if (ok && outp == 3) {
                            auto &f0 = base[ci[0]].vi.format;
                            for (int i = 1; i < 3; i++) ok = ok && base[ci[i]].vi.format.bitsPerSample == f0.bitsPerSample && base[ci[i]].vi.format.sampleType == f0.sampleType;
                            ok = ok && pw(ci[1], pl[1]) == pw(ci[2], pl[2]) && ph(ci[1], pl[1]) == ph(ci[2], pl[2]);
                            if (ok) {
                                ssw = -1; ssh = -1;
                                for (int i = 0; i < 5; i++) {
                                    if (pw(ci[0], pl[0]) == pw(ci[1], pl[1]) << i) ssw = i;
                                    if (ph(ci[0], pl[0]) == ph(ci[1], pl[1]) << i) ssh = i;
                                }
                                ok = ssw >= 0 && ssh >= 0 && (cf == cfYUV || (!ssw && !ssh));
                            }
                        }
                        if (!ok) { expectErr(r); continue; }
                        expectOk(r);
                        auto &f0 = base[ci[0]].vi.format;
                        VSVideoFormat of = fmt(cf, f0.sampleType, f0.bitsPerSample, ssw, ssh);
                        int W = pw(ci[0], pl[0]), H = ph(ci[0], pl[0]), L = base[ci[0]].vi.numFrames;
                        if (outp == 3) for (int i = 1; i < 3; i++) L = std::max(L, base[ci[i]].vi.numFrames);
                        checkVi(r.node, of, W, H, L);
                        int ps = propsrc >= 0 ? propsrc : ci[0];
                        for (int i = 0; i < L; i++) {
                            F fr = get(r.node, i);
                            checkFrame(fr, i, of, W, H, [&](int p, int x, int y) { return From{base[ci[p]].clip, std::min(i, base[ci[p]].vi.numFrames - 1), pl[p], x, y}; }, f0);
                            CHECK(fr.propInt("clip") == base[ps].clip && fr.propInt("n") == std::min(i, base[ps].vi.numFrames - 1), "frame %d: properties come from the wrong frame", i);
                        }
                        seq::state(seq::mix(cc * 1000 + pc, fam + np * 7));
                    }
    }
    for (auto &f : formats()) {
        if (!seq::item()) continue;
        Src s{30, mkvi(f, 6 << f.subSamplingW, 3 << f.subSamplingH, 2)};
        cur("SplitPlanes(%s)", fname(f).c_str());
        A a; a.n("clip", make(s));
        VSMap *o = api->invoke(api->getPluginByID("com.vapoursynth.std", core), "SplitPlanes", a.m);
        CHECK(!api->mapGetError(o), "rejected: %s", api->mapGetError(o));
        CHECK(api->mapNumElements(o, "clip") == f.numPlanes, "wrong number of planes");
        VSVideoFormat g = fmt(cfGray, f.sampleType, f.bitsPerSample);
        for (int p = 0; p < f.numPlanes; p++) {
            N n(api->mapGetNode(o, "clip", p, nullptr));
            int w = p ? 6 : s.vi.width, h = p ? 3 : s.vi.height;
            checkVi(n, g, w, h, 2);
            for (int i = 0; i < 2; i++) {
                F fr = get(n, i);
                checkFrame(fr, i, g, w, h, [&](int, int x, int y) { return From{30, i, p, x, y}; }, f);
                CHECK(fr.propInt("n") == i, "properties lost");
            }
        }
        api->freeMap(o);
        seq::exec();
    }
}

SEQ_CASE(fields, "fields", "C14,C15", true, "SeparateFields and DoubleWeave: every format x heights 1..6 units x lengths 1..4 x tff unset/0/1 x _FieldBased/_Field unset or any value x modify_duration, and the documented round trip") {
    Session session;
    for (auto &f : formats()) {
        int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
        for (int hu = 1; hu <= 6; hu++) for (int L = 1; L <= 4; L++) for (int tff : {NA, 0, 1}) for (int fb : {NA, 0, 1, 2, 3}) for (int md : {NA, 0, 1}) {
            if (!seq::item()) continue;
            int W = 3 * mw, H = hu * mh;
            Src s{40, mkvi(f, W, H, L, 30000, 1001)};
            s.fieldBased = fb;
            cur("SeparateFields(%s %dx%d, %d frames, tff=%d _FieldBased=%d modify_duration=%d)", fname(f).c_str(), W, H, L, tff, fb, md);
            A a; a.n("clip", make(s)); opt(opt(a, "tff", tff), "modify_duration", md);
            R r = call("SeparateFields", a);
            if (H % (2 * mh)) { expectErr(r); continue; }
            expectOk(r);
            checkVi(r.node, f, W, H / 2, 2 * L);
            bool m = md != 0;
            CHECK(r.node.vi().fpsNum == (m ? 60000 : 30000) && r.node.vi().fpsDen == 1001, "frame rate is %lld/%lld", (long long)r.node.vi().fpsNum, (long long)r.node.vi().fpsDen);
            int order = fb == 1 ? 0 : fb == 2 ? 1 : tff == NA ? -1 : tff;
            for (int i = 0; i < 2 * L; i++) {
                std::string err;
                F fr = get(r.node, i, &err);
                if (order < 0) { CHECK(!fr, "field order unknown but frame %d delivered", i); continue; }
                CHECK(fr, "frame %d: %s", i, err.c_str());
                bool topField = ((i & 1) == 0) == (order == 1);
                checkFrame(fr, i, f, W, H / 2, [&](int pl, int x, int y) { return From{40, i / 2, pl, x, 2 * y + (topField ? 0 : 1)}; }, f);
                CHECK(fr.propInt("_Field", -9) == topField && fr.propInt("_FieldBased", -9) == -9, "frame %d: wrong field properties", i);
                CHECK(fr.propInt("_DurationNum") == 1001 && fr.propInt("_DurationDen") == (m ? 60000 : 30000), "frame %d: wrong duration", i);
            }
            seq::state(shape(f, hu, L, tff + 3, fb + 10 * md));
            if (order < 0) continue;
            // weaving the fields again gives the frames back
            A b; b.n("clip", r.node);
            R wv = call("DoubleWeave", b);
            expectOk(wv);
            checkVi(wv.node, f, W, H, 2 * L);
            A c; c.n("clip", wv.node).i("cycle", 2).i("offsets", 0);
            R back = call("SelectEvery", c);
            expectOk(back);
            for (int i = 0; i < L; i++) {
                F fr = get(back.node, i);
                checkFrame(fr, i, f, W, H, [&](int pl, int x, int y) { return From{40, i, pl, x, y}; }, f);
                CHECK(fr.propInt("_FieldBased") == 1 + (order == 1) && fr.propInt("_Field", -9) == -9, "frame %d: wrong field properties after weaving", i);
                CHECK(fr.propInt("clip") == 40, "properties lost");
            }
        }
        for (int L = 1; L <= 4; L++) for (int tff : {NA, 0, 1}) for (int fld : {NA, 0, 1, 2}) {
            if (!seq::item()) continue;
            int W = 2 * mw, H = 3 * mh;
            Src s{41, mkvi(f, W, H, L)};
            s.field = fld;
            cur("DoubleWeave(%s, %d frames, tff=%d _Field=%d)", fname(f).c_str(), L, tff, fld);
            A a; a.n("clip", make(s)); opt(a, "tff", tff);
            R r = call("DoubleWeave", a);
            expectOk(r);
            checkVi(r.node, f, W, 2 * H, L);
            for (int i = 0; i < L; i++) {
                int j = std::min(i + 1, L - 1);
                auto fieldOf = [&](int n) { return fld == NA ? -1 : fld ^ (n & 1); };
                int f1 = fieldOf(i), f2 = fieldOf(j), topn;
                std::string err;
                F fr = get(r.node, i, &err);
                if (f1 == 0 && f2 == 1) topn = j;
                else if (f1 == 1 && f2 == 0) topn = i;
                else if (tff == NA) { CHECK(!fr, "field order unknown but frame %d delivered", i); continue; }
                else topn = ((i & 1) ^ tff) ? i : j;
                bool firstTop = !(f1 == 0 && f2 == 1) && ((f1 == 1 && f2 == 0) || ((i & 1) ^ tff));
                CHECK(fr, "frame %d: %s", i, err.c_str());
                int botn = firstTop ? j : i;
                checkFrame(fr, i, f, W, 2 * H, [&](int pl, int x, int y) { return From{41, y & 1 ? botn : topn, pl, x, y / 2}; }, f);
                // at the clip end both fields are the same frame, the order is still that of the rule
                if (i != j) CHECK(fr.propInt("_FieldBased") == 1 + firstTop, "frame %d: _FieldBased is %d", i, (int)fr.propInt("_FieldBased"));
                CHECK(fr.propInt("_Field", -9) == -9, "_Field not deleted");
            }
        }
    }
}

SEQ_CASE(blank, "blank_clip", "C15", true, "BlankClip: every format x sizes -1..4 units, lengths, rates, colours (valid, boundary, out of range, wrong count), keep, varsize, varformat, template clip") {
    Session session;
    for (auto &f : formats()) {
        int mw = 1 << f.subSamplingW, mh = 1 << f.subSamplingH;
        double top = f.sampleType == stFloat ? 1.0 : std::pow(2.0, f.bitsPerSample) - 1;
        uint32_t id = api->queryVideoFormatID(f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, core);
        for (int w : {-1, 0, 1, mw, 3 * mw, 33 * mw}) for (int h : {0, 1, mh, 2 * mh}) for (int len : {NA, -1, 0, 1, 3}) for (int rate = 0; rate < 5; rate++) for (int col = 0; col < 6; col++) for (int flags = 0; flags < 8; flags++) {
            if (!seq::thorough && (flags && (rate + col) % 3)) continue;
            if (!seq::item()) continue;
            bool tmpl = (rate + flags) & 1;
            cur("BlankClip(%s %dx%d length=%d rate=%d color=%d flags=%d template=%d)", fname(f).c_str(), w, h, len, rate, col, flags, tmpl);
            A a;
            VSVideoInfo tv = mkvi(fmt(cfGray, stInteger, 8), 5, 7, 9, 50, 1);
            Src ts{50, tv};
            if (tmpl) a.n("clip", make(ts));
            a.i("width", w).i("height", h).i("format", (int)id);
            opt(a, "length", len);
            int64_t num = tmpl ? 50 : 24, den = 1;
            if (rate == 1) { a.i("fpsnum", 60000).i("fpsden", 2002); num = 30000; den = 1001; }
            if (rate == 2) { a.i("fpsnum", 0); num = den = 0; }
            if (rate == 3) { a.i("fpsden", 0); num = den = 0; }
            if (rate == 4) { a.i("fpsnum", -1); num = -1; }
            uint32_t want[3] = {0, 0, 0};
            if (f.sampleType == stInteger && f.colorFamily == cfYUV) want[1] = want[2] = 1u << (f.bitsPerSample - 1);
            bool badcol = false;
            if (col == 1 || col == 2)
                for (int p = 0; p < f.numPlanes; p++) {
                    double v = f.sampleType == stFloat ? (col == 1 ? 0.5 + p : -0.1 * p) : col == 1 ? top - p : p * 2 + 0.4;
                    a.d("color", v);
                    if (f.sampleType == stFloat) {
                        if (f.bytesPerSample == 4) { float x = v; memcpy(&want[p], &x, 4); }
                        else { _Float16 x = (_Float16)(float)v; uint16_t u; memcpy(&u, &x, 2); want[p] = u; }
                    } else want[p] = (uint32_t)(int64_t)(v + 0.5);
                }
            if (col == 3) { for (int p = 0; p < f.numPlanes; p++) a.d("color", p == f.numPlanes - 1 ? (f.sampleType == stFloat ? (double)INFINITY : top + 1) : 0); badcol = true; }
            if (col == 4) { for (int p = 0; p < f.numPlanes; p++) a.d("color", p == 0 ? (f.sampleType == stFloat ? (double)NAN : -1.0) : 0); badcol = true; }
            if (col == 5) { for (int p = 0; p <= f.numPlanes; p++) a.d("color", 0); badcol = true; }
            if (flags & 1) a.i("keep", 1);
            if (flags & 2) a.i("varsize", 1);
            if (flags & 4) a.i("varformat", 1);
            R r = call("BlankClip", a);
            bool ok = w > 0 && h > 0 && w % mw == 0 && h % mh == 0 && (len == NA || len > 0) && num >= 0 && !badcol;
            if (!ok) { expectErr(r); continue; }
            expectOk(r);
            const VSVideoInfo &v = r.node.vi();
            int L = len != NA ? len : tmpl ? 9 : num ? (int)(num * 10 / den) : 300;
            CHECK(v.numFrames == L && v.fpsNum == num && v.fpsDen == den, "%d frames at %lld/%lld, expected %d at %lld/%lld", v.numFrames, (long long)v.fpsNum, (long long)v.fpsDen, L, (long long)num, (long long)den);
            CHECK((v.width == 0) == !!(flags & 2) && (v.format.colorFamily == cfUndefined) == !!(flags & 4), "varsize/varformat not honoured");
            F prev;
            for (int i : {0, L - 1, 0}) {
                F fr = get(r.node, i);
                checkFrame(fr, i, f, w, h, [&](int pl, int, int) { From c{}; c.constant = true; c.value = want[pl]; return c; }, f);
                if (num) CHECK(fr.propInt("_DurationNum") == den && fr.propInt("_DurationDen") == num, "wrong duration");
                else CHECK(fr.propInt("_DurationNum") == INT64_MIN, "duration on a clip without rate");
                if ((flags & 1) && prev) CHECK(prev.p == fr.p || api->getReadPtr(prev.p, 0) == api->getReadPtr(fr.p, 0), "keep returned another frame");
                prev = fr;
            }
            seq::state(shape(f, w, h, L, rate * 100 + col * 10 + flags));
        }
    }
}
