// C14: frame selection filters against list semantics.
#include "vk.h"
#include <algorithm>
#include <climits>
#include <numeric>
using namespace vk;
using seq::cur;

namespace {
struct Fr { int src, n; int64_t dn, dd; };
struct Clip {
    bool err = false;
    std::vector<Fr> fr;
    int64_t num = 25, den = 1;
    int w = 2, h = 2;
    int fmt = 0;            // 0 Gray8, 1 Gray16, -1 variable
    bool longClip = false;  // only total is valid
    int64_t total = 0;
};
Clip bad() { Clip c; c.err = true; return c; }

VSVideoFormat F8, F16;
N makeSrc(int id, const Clip &c) {
    const VSVideoFormat &f = c.fmt ? F16 : F8;
    int64_t num = c.num, den = c.den;
    return source(mkvi(f, c.w, c.h, (int)c.fr.size(), num, den), [=](int n, VSFrame *fr) {
        for (int y = 0; y < c.h; y++)
            for (int x = 0; x < c.w; x++)
                putSample(api->getWritePtr(fr, 0) + y * api->getStride(fr, 0), x, f, id * 16 + n);
        setInt(fr, "src", id);
        setInt(fr, "n", n);
        if (num) {
            setInt(fr, "_DurationNum", c.fr[n].dn);
            setInt(fr, "_DurationDen", c.fr[n].dd);
        }
    });
}
Clip srcModel(int id, int len, int64_t num = 25, int64_t den = 1, int w = 2, int h = 2, int fm = 0) {
    Clip c;
    c.num = num; c.den = den; c.w = w; c.h = h; c.fmt = fm;
    for (int i = 0; i < len; i++)
        c.fr.push_back({id, i, den, num});
    return c;
}
void muldiv(int64_t &n, int64_t &d, int64_t m, int64_t q) {
    if (!d) return;
    n *= m; d *= q;
    int64_t g = std::gcd(n, d);
    if (g) { n /= g; d /= g; }
}

void checkFrame(const Clip &m, const std::vector<Fr> &fr, const N &node, int i) {
    F f = get(node, i);
    const Fr &e = fr[i];
    CHECK(f.propInt("src") == e.src && f.propInt("n") == e.n, "output frame %d is frame %d of clip %d, expected frame %d of clip %d", i, (int)f.propInt("n"), (int)f.propInt("src"), e.n, e.src);
    CHECK((int)f.at(0, 0, 0) == e.src * 16 + e.n, "output frame %d has wrong pixels", i);
    if (e.dd)
        CHECK(f.propInt("_DurationNum") == e.dn && f.propInt("_DurationDen") == e.dd, "output frame %d has duration %lld/%lld, expected %lld/%lld", i,
              (long long)f.propInt("_DurationNum"), (long long)f.propInt("_DurationDen"), (long long)e.dn, (long long)e.dd);
    if (m.fmt >= 0)
        CHECK(sameFormat(f.f(), m.fmt ? F16 : F8), "output frame %d has the wrong format", i);
    if (m.w)
        CHECK(f.w() == m.w && f.h() == m.h, "output frame %d has the wrong size", i);
    seq::step();
}
void compare(const Clip &m, const R &r) {
    seq::exec();
    if (m.err) {
        CHECK(!r.ok(), "accepted, expected an error");
        return;
    }
    CHECK(r.ok(), "rejected (%s), expected a clip of %d frames", r.err.c_str(), (int)m.fr.size());
    const VSVideoInfo &vi = r.node.vi();
    CHECK(vi.fpsNum == m.num && vi.fpsDen == m.den, "frame rate %lld/%lld, expected %lld/%lld", (long long)vi.fpsNum, (long long)vi.fpsDen, (long long)m.num, (long long)m.den);
    CHECK(vi.width == m.w && vi.height == m.h, "size %dx%d, expected %dx%d", vi.width, vi.height, m.w, m.h);
    if (m.fmt < 0)
        CHECK(vi.format.colorFamily == cfUndefined, "format expected to be variable");
    else
        CHECK(sameFormat(vi.format, m.fmt ? F16 : F8), "wrong format");
    if (m.longClip) {
        CHECK(vi.numFrames == m.total, "%d frames, expected %lld", vi.numFrames, (long long)m.total);
        return;
    }
    CHECK(vi.numFrames == (int)m.fr.size(), "%d frames, expected %d", vi.numFrames, (int)m.fr.size());
    int n = (int)m.fr.size();
    for (int i = 0; i < n; i++)
        checkFrame(m, m.fr, r.node, i);
    for (int i = n - 1; i >= 0; i -= 2)
        checkFrame(m, m.fr, r.node, i);
    std::string err;
    get(r.node, n, &err);
    CHECK(!err.empty(), "a request past the end succeeded");
    uint64_t h = seq::hash(&n, sizeof(n));
    for (auto &f : m.fr)
        h = seq::mix(h, f.src * 1000 + f.n);
    seq::state(seq::mix(h, m.num * 31 + m.den));
}
void init() {
    newCore(1);
    F8 = fmt(cfGray, stInteger, 8);
    F16 = fmt(cfGray, stInteger, 16);
}
void fini() {
    dropCore();
    CHECK(logged == 0, "the core logged: %s", lastLog.c_str());
}

struct Session { Session() { init(); } ~Session() { fini(); } };

// ------------------------------------------------------------------ models
const int NA = INT_MIN;
Clip mTrim(const Clip &c, int first, int last, int length) {
    int n = (int)c.fr.size();
    int f = first == NA ? 0 : first;
    if (f < 0 || f >= n || (last != NA && length != NA) || (last != NA && (last < f || last >= n)) || (length != NA && (length < 1 || (int64_t)f + length > n)))
        return bad();
    int e = last != NA ? last + 1 : length != NA ? f + length : n;
    Clip r = c;
    r.fr.assign(c.fr.begin() + f, c.fr.begin() + e);
    return r;
}
Clip mReverse(const Clip &c) { Clip r = c; std::reverse(r.fr.begin(), r.fr.end()); return r; }
Clip mLoop(const Clip &c, int times) {
    if (times == NA) times = 0;
    if (times < 0) return bad();
    Clip r = c;
    int64_t t = times ? (int64_t)times * c.fr.size() : INT_MAX;
    if (t > INT_MAX) return bad();
    if (t > 1000) { r.longClip = true; r.total = t; return r; }
    r.fr.clear();
    for (int i = 0; i < times; i++) r.fr.insert(r.fr.end(), c.fr.begin(), c.fr.end());
    return r;
}
bool common(const std::vector<Clip> &c, Clip &o, bool &fpsDiff, bool &dimDiff) {
    o = c[0];
    fpsDiff = dimDiff = false;
    for (auto &x : c) {
        if (x.w != c[0].w || x.h != c[0].h) { o.w = o.h = 0; dimDiff = true; }
        if (x.fmt != c[0].fmt) { o.fmt = -1; dimDiff = true; }
        if (x.num != c[0].num || x.den != c[0].den) { o.num = o.den = 0; fpsDiff = true; }
    }
    return true;
}
Clip mInterleave(const std::vector<Clip> &c, bool extend, bool mismatch, bool moddur) {
    if (c.size() == 1) return c[0];
    Clip o;
    bool fd, dd;
    common(c, o, fd, dd);
    if ((fd || dd) && !mismatch) return bad();
    size_t k = c.size(), mx = 0;
    for (auto &x : c) mx = std::max(mx, x.fr.size());
    size_t total = 0;
    if (extend) total = mx * k;
    else
        for (size_t i = 0; i < k; i++) total = std::max(total, (c[i].fr.size() - 1) * k + i + 1);
    o.fr.clear();
    for (size_t i = 0; i < total; i++) {
        const Clip &s = c[i % k];
        Fr f = s.fr[std::min(i / k, s.fr.size() - 1)];
        if (moddur) muldiv(f.dn, f.dd, 1, k);
        o.fr.push_back(f);
    }
    if (moddur) muldiv(o.num, o.den, k, 1);
    return o;
}
Clip mSelect(const Clip &c, int cycle, const std::vector<int> &off, bool moddur) {
    if (cycle < 2) return bad();
    for (int o : off) if (o < 0 || o >= cycle) return bad();
    Clip r = c;
    r.fr.clear();
    for (size_t b = 0; b < c.fr.size(); b += cycle)
        for (int o : off)
            if (b + o < c.fr.size()) {
                Fr f = c.fr[b + o];
                if (moddur) muldiv(f.dn, f.dd, cycle, off.size());
                r.fr.push_back(f);
            }
    if (r.fr.empty()) return bad();
    if (moddur) muldiv(r.num, r.den, off.size(), cycle);
    return r;
}
Clip mSplice(const std::vector<Clip> &c, bool mismatch) {
    if (c.size() == 1) return c[0];
    Clip o;
    bool fd, dd;
    common(c, o, fd, dd);
    if (dd && !mismatch) return bad();
    o.fr.clear();
    for (auto &x : c) o.fr.insert(o.fr.end(), x.fr.begin(), x.fr.end());
    return o;
}
Clip mDup(const Clip &c, const std::vector<int> &v) {
    Clip r = c;
    for (int x : v) if (x < 0 || x >= (int)c.fr.size()) return bad();
    r.fr.clear();
    for (int i = 0; i < (int)c.fr.size(); i++) {
        r.fr.push_back(c.fr[i]);
        for (int x : v) if (x == i) r.fr.push_back(c.fr[i]);
    }
    return r;
}
Clip mDel(const Clip &c, const std::vector<int> &v) {
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i] < 0 || v[i] >= (int)c.fr.size()) return bad();
        for (size_t j = 0; j < i; j++) if (v[j] == v[i]) return bad();
    }
    Clip r = c;
    r.fr.clear();
    for (int i = 0; i < (int)c.fr.size(); i++)
        if (std::find(v.begin(), v.end(), i) == v.end()) r.fr.push_back(c.fr[i]);
    if (r.fr.empty()) return bad();
    return r;
}
Clip mFreeze(const Clip &c, const std::vector<int> &a, const std::vector<int> &b, const std::vector<int> &rep) {
    if (a.size() != b.size() || a.size() != rep.size()) return bad();
    int n = (int)c.fr.size();
    std::vector<int> hit(n, -1);
    for (size_t i = 0; i < a.size(); i++) {
        int lo = std::min(a[i], b[i]), hi = std::max(a[i], b[i]);
        if (lo < 0 || hi >= n || rep[i] < 0 || rep[i] >= n) return bad();
        for (int k = lo; k <= hi; k++) {
            if (hit[k] >= 0) return bad();
            hit[k] = rep[i];
        }
    }
    Clip r = c;
    for (int k = 0; k < n; k++) if (hit[k] >= 0) r.fr[k] = c.fr[hit[k]];
    return r;
}
std::string list(const std::vector<int> &v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
// all sequences over [lo,hi] with length minLen..maxLen
void sequences(int lo, int hi, int minLen, int maxLen, const std::function<void(const std::vector<int> &)> &f) {
    std::vector<int> v;
    std::function<void()> rec = [&] {
        if ((int)v.size() >= minLen) f(v);
        if ((int)v.size() == maxLen) return;
        for (int x = lo; x <= hi; x++) { v.push_back(x); rec(); v.pop_back(); }
    };
    rec();
}
A &opt(A &a, const char *k, int v) { if (v != NA) a.i(k, v); return a; }
}

SEQ_CASE(trim, "trim", "C14", true, "clip length 1..9 (14), first/last/length unset or -1..len+2 and INT_MAX, all combinations") {
    Session session;
    for (int L = 1; L <= (seq::thorough ? 14 : 9); L++) {
        Clip m = srcModel(1, L);
        N s = makeSrc(1, m);
        std::vector<int> v{NA, INT_MAX, INT_MIN + 1};
        for (int i = -1; i <= L + 1; i++) v.push_back(i);
        for (int f : v) for (int l : v) for (int n : v) {
            if (!seq::item()) continue;
            cur("Trim(len=%d first=%d last=%d length=%d; %d=unset)", L, f, l, n, NA);
            A a; a.n("clip", s); opt(a, "first", f); opt(a, "last", l); opt(a, "length", n);
            compare(mTrim(m, f, l, n), call("Trim", a));
        }
    }
}

SEQ_CASE(reverseLoop, "reverse_loop", "C14", true, "Reverse and Loop for clip lengths 1..8 (12), times unset, -2..5 and around INT_MAX/len") {
    Session session;
    for (int L = 1; L <= (seq::thorough ? 12 : 8); L++) {
        Clip m = srcModel(2, L);
        N s = makeSrc(2, m);
        if (seq::item()) { cur("Reverse(len=%d)", L); A a; a.n("clip", s); compare(mReverse(m), call("Reverse", a)); }
        std::vector<int> v{NA, -2, -1, 0, 1, 2, 3, 4, 5, INT_MAX / L, INT_MAX / L - 1, INT_MAX, INT_MIN};
        if (INT_MAX / L < INT_MAX) v.push_back(INT_MAX / L + 1);
        for (int t : v) {
            if (t == NA && &t != &v[0] && &t != &v[12]) continue;
            if (!seq::item()) continue;
            cur("Loop(len=%d times=%d)", L, t);
            A a; a.n("clip", s);
            bool unset = &t == &v[0];
            if (!unset) a.i("times", t);
            Clip e = unset ? mLoop(m, NA) : t == INT_MIN ? bad() : mLoop(m, t);
            R r = call("Loop", a);
            compare(e, r);
            if (e.longClip) {
                std::vector<int> pts{0, 1, L - 1, L, L + 1, 2 * L, 1000003, (int)e.total / 2, (int)e.total - L, (int)e.total - 1};
                for (int i : pts)
                    if (i >= 0 && i < e.total) {
                        F f = get(r.node, i);
                        CHECK(f.propInt("n") == i % L, "looped frame %d is frame %d, expected %d", i, (int)f.propInt("n"), i % L);
                        seq::step();
                    }
            }
        }
    }
}

SEQ_CASE(interleave, "interleave", "C14", true, "1..3 clips of length 1..4 (5) each, extend/mismatch/modify_duration unset/0/1, equal and differing size, format and rate") {
    Session session;
    int M = seq::thorough ? 5 : 4;
    for (int k = 1; k <= (seq::thorough ? 4 : 3); k++)
        for (int var = 0; var < 5; var++) {
            std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &len) {
                if ((int)len.size() < k) {
                    for (int l = 1; l <= M; l++) { len.push_back(l); rec(len); len.pop_back(); }
                    return;
                }
                for (int ext : {NA, 0, 1}) for (int mis : {NA, 0, 1}) for (int md : {NA, 0, 1}) {
                    if (var == 0 && mis == 0) continue;
                    if (!seq::item()) continue;
                    cur("Interleave(lens=%s variant=%d extend=%d mismatch=%d modify_duration=%d)", list(len).c_str(), var, ext, mis, md);
                    std::vector<Clip> ms;
                    A a;
                    for (int i = 0; i < k; i++) {
                        bool odd = i == k - 1 && k > 1;
                        Clip c = srcModel(i + 1, len[i], odd && var == 3 ? 30 : var == 4 ? 0 : 24, var == 4 ? 0 : 1, odd && var == 1 ? 3 : 2, 2, odd && var == 2 ? 1 : 0);
                        ms.push_back(c);
                        a.n("clips", makeSrc(i + 1, c));
                    }
                    opt(opt(opt(a, "extend", ext), "mismatch", mis), "modify_duration", md);
                    compare(mInterleave(ms, ext == 1, mis == 1, md != 0), call("Interleave", a));
                }
            };
            std::vector<int> l;
            rec(l);
        }
}

SEQ_CASE(selectEvery, "select_every", "C14", true, "length 1..8 (10), cycle -1..5, every offset list of length 1..3 over -1..cycle, modify_duration") {
    Session session;
    for (int L = 1; L <= (seq::thorough ? 11 : 8); L++)
        for (int fps = 0; fps < 2; fps++) {
            Clip m = srcModel(3, L, fps ? 0 : 30000, fps ? 0 : 1001);
            N s = makeSrc(3, m);
            for (int cyc = -1; cyc <= 5; cyc++)
                sequences(-1, std::max(cyc, 0), 1, (seq::thorough || cyc <= 3) ? 3 : 2, [&](const std::vector<int> &off) {
                    for (int md : {NA, 0, 1}) {
                        if (fps && (md != NA || off.size() > 2)) continue;
                        if (!seq::item()) continue;
                        cur("SelectEvery(len=%d cycle=%d offsets=%s modify_duration=%d)", L, cyc, list(off).c_str(), md);
                        A a; a.n("clip", s).i("cycle", cyc).i("offsets", off); opt(a, "modify_duration", md);
                        compare(mSelect(m, cyc, off, md != 0), call("SelectEvery", a));
                    }
                });
        }
}

SEQ_CASE(splice, "splice", "C14", true, "1..4 clips of length 1..3, equal and differing size, format and rate, mismatch unset/0/1") {
    Session session;
    for (int k = 1; k <= 4; k++)
        for (int var = 0; var < 4; var++)
            sequences(1, 3, k, k, [&](const std::vector<int> &len) {
                for (int pos = 0; pos < (var && k > 1 ? k : 1); pos++)
                    for (int mis : {NA, 0, 1}) {
                        if (!seq::item()) continue;
                        cur("Splice(lens=%s variant=%d at %d mismatch=%d)", list(len).c_str(), var, pos, mis);
                        std::vector<Clip> ms;
                        A a;
                        for (int i = 0; i < k; i++) {
                            bool odd = i == pos && k > 1;
                            Clip c = srcModel(i + 1, len[i], odd && var == 3 ? 30 : 24, 1, odd && var == 1 ? 3 : 2, 2, odd && var == 2 ? 1 : 0);
                            ms.push_back(c);
                            a.n("clips", makeSrc(i + 1, c));
                        }
                        opt(a, "mismatch", mis);
                        compare(mSplice(ms, mis == 1), call("Splice", a));
                    }
            });
}

SEQ_CASE(dupDelete, "duplicate_delete", "C14", true, "length 1..5, every frame list of length 1..4 over -1..len") {
    Session session;
    for (int L = 1; L <= (seq::thorough ? 6 : 5); L++) {
        Clip m = srcModel(4, L);
        N s = makeSrc(4, m);
        sequences(-1, L, 1, L <= 3 || seq::thorough ? 4 : 3, [&](const std::vector<int> &v) {
            if (!seq::item()) return;
            A a; a.n("clip", s).i("frames", v);
            cur("DuplicateFrames(len=%d %s)", L, list(v).c_str());
            compare(mDup(m, v), call("DuplicateFrames", a));
            cur("DeleteFrames(len=%d %s)", L, list(v).c_str());
            compare(mDel(m, v), call("DeleteFrames", a));
        });
    }
}

SEQ_CASE(freeze, "freeze_frames", "C14", true, "length 1..4, every list of up to 2 ranges over -1..len, three disjoint ranges over length 6, unequal list lengths") {
    Session session;
    for (int L = 1; L <= 4; L++) {
        Clip m = srcModel(5, L);
        N s = makeSrc(5, m);
        auto one = [&](const std::vector<int> &a1, const std::vector<int> &b1, const std::vector<int> &r1) {
            if (!seq::item()) return;
            cur("FreezeFrames(len=%d first=%s last=%s replacement=%s)", L, list(a1).c_str(), list(b1).c_str(), list(r1).c_str());
            A a; a.n("clip", s).i("first", a1).i("last", b1).i("replacement", r1);
            compare(mFreeze(m, a1, b1, r1), call("FreezeFrames", a));
        };
        one({}, {}, {});
        one({0}, {}, {0});
        one({0}, {0, 0}, {0});
        one({0}, {0}, {});
        one({}, {}, {0});
        int lo = L <= 3 ? -1 : 0, hi = L <= 3 ? L : L - 1;
        sequences(lo, hi, 3, 3, [&](const std::vector<int> &x) {
            one({x[0]}, {x[1]}, {x[2]});
            if (L == 4 || seq::thorough || L <= 2)
                sequences(lo, hi, 3, 3, [&](const std::vector<int> &y) { one({x[0], y[0]}, {x[1], y[1]}, {x[2], y[2]}); });
        });
    }
    Clip m = srcModel(6, 6);
    N s = makeSrc(6, m);
    sequences(0, 5, 3, 3, [&](const std::vector<int> &f) {
        sequences(0, 1, 3, 3, [&](const std::vector<int> &len) {
            if (!seq::item()) return;
            std::vector<int> b{f[0] + len[0], f[1] + len[1], f[2] + len[2]}, r{5, 0, 3};
            cur("FreezeFrames(len=6 first=%s last=%s)", list(f).c_str(), list(b).c_str());
            A a; a.n("clip", s).i("first", f).i("last", b).i("replacement", r);
            compare(mFreeze(m, f, b, r), call("FreezeFrames", a));
        });
    });
}

SEQ_CASE(assumeFps, "assume_fps", "C14", true, "fpsnum/fpsden unset or from a boundary set, src with constant or no rate") {
    Session session;
    const int64_t U = INT64_MIN;
    std::vector<int64_t> nums{U, -1, 0, 1, 2, 24, 25, 30000, 48000, 1000000007, INT64_MAX}, dens{U, -1, 0, 1, 2, 1001, 24, 48000, 2000000014, INT64_MAX};
    for (int64_t n : nums) for (int64_t d : dens) for (int src = 0; src < 4; src++) {
        if (!seq::item()) continue;
        cur("AssumeFPS(fpsnum=%lld fpsden=%lld src=%d)", (long long)n, (long long)d, src);
        Clip m = srcModel(7, 2), sm = srcModel(8, 3, src == 1 ? 0 : src == 2 ? 60 : 24000, src == 1 ? 0 : src == 2 ? 1 : 1001);
        A a; a.n("clip", makeSrc(7, m));
        if (n != U) a.i("fpsnum", n);
        if (d != U) a.i("fpsden", d);
        if (src) a.n("src", makeSrc(8, sm));
        Clip e = m;
        e.num = n == U ? 0 : n;
        e.den = d == U ? 1 : d;
        if (src) { e.num = sm.num; e.den = sm.den; }
        if ((n != U) == (src != 0) || e.num < 1 || e.den < 1) e = bad();
        else {
            int64_t g = std::gcd(e.num, e.den);
            e.num /= g; e.den /= g;
            for (auto &f : e.fr) { f.dn = e.den; f.dd = e.num; }
        }
        compare(e, call("AssumeFPS", a));
    }
}

SEQ_CASE(compositions, "compositions", "C14", true, "every composition of three (thorough: four) operations from a set of 24 parameterised operations on a clip of 5 frames") {
    Session session;
    struct Op { std::string name; std::function<Clip(const Clip &)> m; std::function<R(const N &)> r; };
    std::vector<Op> ops;
    auto one = [&](std::string nm, const char *fn, std::function<Clip(const Clip &)> m, std::function<void(A &)> args) {
        ops.push_back({nm, m, [=](const N &n) { A a; a.n(std::string(fn) == "Interleave" || std::string(fn) == "Splice" ? "clips" : "clip", n); args(a); return call(fn, a); }});
    };
    for (auto t : std::vector<std::array<int, 3>>{{1, NA, NA}, {0, 2, NA}, {2, NA, 2}, {3, 3, NA}})
        one("Trim", "Trim", [=](const Clip &c) { return mTrim(c, t[0], t[1], t[2]); }, [=](A &a) { opt(opt(opt(a, "first", t[0]), "last", t[1]), "length", t[2]); });
    one("Reverse", "Reverse", mReverse, [](A &) {});
    for (int t : {2, 3}) one("Loop" + std::to_string(t), "Loop", [=](const Clip &c) { return mLoop(c, t); }, [=](A &a) { a.i("times", t); });
    for (auto &o : std::vector<std::vector<int>>{{0}, {1}, {1, 0}, {0, 0}, {2, 1}})
        for (int cyc : {2, 3})
            one("SelectEvery" + std::to_string(cyc) + list(o), "SelectEvery", [=](const Clip &c) { return mSelect(c, cyc, o, true); }, [=](A &a) { a.i("cycle", cyc).i("offsets", o); });
    for (auto &v : std::vector<std::vector<int>>{{0}, {1, 1}, {2, 0}})
        one("Duplicate" + list(v), "DuplicateFrames", [=](const Clip &c) { return mDup(c, v); }, [=](A &a) { a.i("frames", v); });
    for (auto &v : std::vector<std::vector<int>>{{0}, {2, 1}})
        one("Delete" + list(v), "DeleteFrames", [=](const Clip &c) { return mDel(c, v); }, [=](A &a) { a.i("frames", v); });
    one("Freeze", "FreezeFrames", [=](const Clip &c) { return mFreeze(c, {0, 3}, {1, 2}, {3, 0}); }, [=](A &a) { a.i("first", std::vector<int>{0, 3}).i("last", std::vector<int>{1, 2}).i("replacement", std::vector<int>{3, 0}); });
    // the node with a reversed / shortened copy of itself: shared upstream nodes
    ops.push_back({"SpliceSelf", [](const Clip &c) { return mSplice({c, mReverse(c)}, false); }, [](const N &n) { A b; b.n("clip", n); R v = call("Reverse", b); A a; a.n("clips", n).n("clips", v.node); return call("Splice", a); }});
    ops.push_back({"InterleaveSelf", [](const Clip &c) { return mInterleave({c, mTrim(c, 0, NA, 1)}, true, false, true); },
                   [](const N &n) { A b; b.n("clip", n).i("length", 1); R v = call("Trim", b); A a; a.n("clips", n).n("clips", v.node).i("extend", 1); return call("Interleave", a); }});
    Clip m = srcModel(9, 5);
    N s = makeSrc(9, m);
    int depth = seq::thorough ? 4 : 3;
    size_t K = ops.size(), total = 1;
    for (int i = 0; i < depth; i++) total *= K;
    for (size_t x = 0; x < total; x++) {
        if (!seq::item()) continue;
        size_t ix[4];
        for (size_t i = depth, q = x; i-- > 0; q /= K) ix[i] = q % K;
        Clip c = m;
        N n = s;
        std::string d;
        for (int i = 0; i < depth; i++) {
            const Op &o = ops[ix[i]];
            d += o.name + " ";
            cur("composition %s", d.c_str());
            Clip e = o.m(c);
            R r = o.r(n);
            compare(e, r);
            if (e.err) break;
            c = e;
            n = r.node;
        }
        if (x < 3) seq::sample(d);
    }
}
