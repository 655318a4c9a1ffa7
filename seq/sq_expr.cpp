// C17: every program of the expression language against an interval evaluation in program order, on every processor path.
#include "px.h"
#include "VSConstants4.h"
#include <sstream>

namespace {

const double EPS = 0x1p-24;

// A value as the documented freedom of evaluation leaves it: |result - v| <= e. M bounds the magnitude of every
// partial sum of any reassociation, 2^g divides every such partial sum when e == 0 (then all of them are exact
// while M < 2^(24+g)). bad: outside of what is documented as valid, so any result is accepted.
struct Val {
    double v = 0, e = 0, M = 0;
    int g = 0;
    bool bad = false;
    double N = 1;                        // magnitude of the product's numerator and denominator when multiplied out
    signed char roots = 0;               // nested square roots: from three on zero is computed through pow
};
int grain(double v) {
    if (v == 0) return 60;
    int ex;
    double m = std::frexp(std::fabs(v), &ex);
    int k = 0;
    while (m != std::floor(m) && k < 60) { m *= 2; k++; }
    return ex - k;
}
double size(double v) { v = std::fabs(v); return v == 0 ? 1 : std::max({1., v, 1 / v}); }
Val num(double v) { Val r; r.v = v; r.M = std::fabs(v); r.g = grain(v); r.N = size(v); return r; }
void settle(Val &r) {
    double a = std::fabs(r.v);
    // sums and products may be reordered and x^(n/4) becomes a root of x^n: keep away from the ends of the exponent range
    double lim = r.roots ? 1e9 : 1e18;
    if (!(a + r.e < lim) || !(r.M < lim) || !(r.N < lim) || (r.v != 0 && a < 1 / lim)) r.bad = true;
    if (r.bad) { r.v = 0; r.e = 0; r.M = 0; }
}
bool exact(double M, int g) { return M < std::ldexp(1.0, 24 + g); }
bool isBool(double x) { return x > 0; }
// 0, 1, or -1 when the rounding decides
int truth(const Val &a) { if (a.v - a.e > 0) return 1; if (a.v + a.e <= 0) return 0; return -1; }
Val boolean(int t) { Val r; r.M = 1; r.g = 0; if (t < 0) { r.v = .5; r.e = .5; } else r.v = t; return r; }
Val hull(const Val &a, const Val &b) {
    Val r;
    double lo = std::min(a.v - a.e, b.v - b.e), hi = std::max(a.v + a.e, b.v + b.e);
    r.v = (lo + hi) / 2; r.e = (hi - lo) / 2; r.M = std::max(a.M, b.M); r.g = std::min(a.g, b.g);
    return r;
}
Val add(const Val &a, const Val &b, double s) {
    Val r;
    r.v = a.v + s * b.v; r.M = a.M + b.M; r.g = std::min(a.g, b.g);
    r.e = !a.e && !b.e && exact(r.M, r.g) ? 0 : a.e + b.e + 8 * EPS * r.M;
    return r;
}
Val mul(const Val &a, const Val &b) {
    Val r;
    r.v = a.v * b.v; r.M = a.M * b.M; r.g = a.g + b.g;
    if ((!a.v && !a.e) || (!b.v && !b.e)) { r.e = 0; r.M = 0; r.g = 60; if (a.v || a.e || a.M || b.v || b.e || b.M) { r.M = a.M * b.M; r.g = std::min(60, a.g + b.g); if (!exact(r.M, r.g) || a.e || b.e) r.e = 8 * EPS * r.M; } return r; }
    r.e = !a.e && !b.e && exact(r.M, r.g) ? 0 : a.e * b.M + b.e * a.M + a.e * b.e + 8 * EPS * r.M;
    return r;
}
bool pow2(double v) { int e; return v != 0 && std::frexp(std::fabs(v), &e) == .5; }
Val div(const Val &a, const Val &b) {
    Val r;
    double d = std::fabs(b.v) - b.e;
    if (!(d > 1e-30)) { r.bad = true; return r; }
    r.v = a.v / b.v;
    if (!b.e && pow2(b.v)) {
        int ex; std::frexp(std::fabs(b.v), &ex);
        r.M = a.M / std::fabs(b.v); r.g = a.g - (ex - 1);
        r.e = !a.e && exact(r.M, r.g) ? 0 : a.e / d + 8 * EPS * r.M;
    } else {
        r.M = a.M / d; r.g = 0;
        r.e = (a.e + std::fabs(r.v) * b.e) / d + 8 * EPS * r.M;
        if (!r.e) r.e = 1e-37;
    }
    return r;
}
Val around(double v, double e) { Val r; r.v = v; r.e = e + 1e-37; r.M = std::fabs(v) + e; return r; }
int compareVals(const Val &a, const Val &b) {         // sign of a-b; 2 when the rounding decides
    int g = std::min(a.g, b.g);
    double t = !a.e && !b.e && exact(a.M + b.M, g) ? 0 : a.e + b.e + 8 * EPS * (a.M + b.M);
    double d = a.v - b.v;
    if (t == 0) return d > 0 ? 1 : d < 0 ? -1 : 0;
    return d > t ? 1 : d < -t ? -1 : 2;
}
Val power(const Val &a, const Val &b, bool cst) {
    Val r;
    double c = b.v;
    if (cst && !b.e && c == std::floor(c) && std::fabs(c) <= 64) {
        int n = (int)c;
        if (n == 0) return num(1);
        if (n > 0) { r = a; for (int i = 1; i < n; i++) { r = mul(r, a); if (!(r.M < 1e30)) { r.bad = true; return r; } } return r; }
        double d = std::fabs(a.v) - a.e;
        if (!(d > 1e-30)) { r.bad = true; return r; }
        double v = std::pow(a.v, c), rel = -n * (a.e / d * 2 + 8 * EPS);
        if (rel > .1) { r.bad = true; return r; }
        return around(v, std::fabs(v) * rel);
    }
    if (!(a.v - a.e > 1e-30)) { r.bad = true; return r; }
    double v = std::pow(a.v, c), l = std::fabs(std::log(a.v));
    double rel = (std::fabs(c) + b.e) * (a.e / (a.v - a.e) + 8 * EPS) + l * b.e + 2e-6 * (1 + (std::fabs(c) + b.e) * l) + (l * 8 * EPS * b.M);
    if (!(rel < .1)) { r.bad = true; return r; }
    return around(v, v * rel * 1.2);
}
Val unary(const std::string &op, const Val &a) {
    Val r;
    if (a.bad) return a;
    if (op == "abs") { r = a; r.v = std::fabs(a.v); if (a.e && std::fabs(a.v) < a.e) { r.v = r.e = (std::fabs(a.v) + a.e) / 2; } }
    else if (op == "not") r = boolean(truth(a) < 0 ? -1 : !truth(a));
    else if (op == "sqrt") {
        if (a.v == 0 && a.e == 0 && a.roots < 2) { r = num(0); r.M = std::sqrt(a.M); if (r.M) r.e = 1e-37; }      // the root may vanish again
        else if (!(a.v - a.e > 0)) r.bad = true;
        else { double v = std::sqrt(a.v); r = around(v, std::max(std::sqrt(a.v + a.e) - v, v - std::sqrt(a.v - a.e)) + v * 1e-6); }
    } else if (op == "exp") {
        if (a.v + a.e > 69 || a.v - a.e < -69) r.bad = true;
        else { double v = std::exp(a.v); r = around(v, v * (std::expm1(a.e) + 2e-6 * (1 + std::fabs(a.v)) + 8 * EPS * a.M)); }
    } else if (op == "log") {
        if (!(a.v - a.e > 1e-30)) r.bad = true;
        else { double v = std::log(a.v); r = around(v, 1.1 * a.e / (a.v - a.e) + 2e-6 * (1 + std::fabs(v))); }
    } else {
        if (std::fabs(a.v) + a.e > 1e5) r.bad = true;
        else r = around(op == "sin" ? std::sin(a.v) : std::cos(a.v), a.e + 2.1e-6);
    }
    r.roots = (signed char)std::min(100, a.roots + (op == "sqrt"));
    r.N = op == "sqrt" || op == "abs" ? a.N : size(r.v);
    settle(r);
    return r;
}
Val binary(const std::string &op, const Val &a, const Val &b, bool cstB) {
    Val r;
    if (a.bad || b.bad) { r.bad = true; return r; }
    if (op == "+") r = add(a, b, 1);
    else if (op == "-") r = add(a, b, -1);
    else if (op == "*") r = mul(a, b);
    else if (op == "/") r = div(a, b);
    else if (op == "pow") r = power(a, b, cstB);
    else if (op == "max" || op == "min") {
        double lo, hi;
        if (op == "max") lo = std::max(a.v - a.e, b.v - b.e), hi = std::max(a.v + a.e, b.v + b.e);
        else lo = std::min(a.v - a.e, b.v - b.e), hi = std::min(a.v + a.e, b.v + b.e);
        r.v = (lo + hi) / 2; r.e = (hi - lo) / 2; r.M = std::max(a.M, b.M); r.g = std::min(a.g, b.g);
        if (!a.e && !b.e) r.e = 0;
    } else if (op == "and" || op == "or" || op == "xor") {
        int x = truth(a), y = truth(b);
        if (op == "and") r = boolean(x == 0 || y == 0 ? 0 : x < 0 || y < 0 ? -1 : 1);
        else if (op == "or") r = boolean(x == 1 || y == 1 ? 1 : x < 0 || y < 0 ? -1 : 0);
        else r = boolean(x < 0 || y < 0 ? -1 : x != y);
    } else {
        int c = compareVals(a, b);
        if (c == 2) r = boolean(-1);
        else r = boolean(op == "<" ? c < 0 : op == ">" ? c > 0 : op == "=" ? c == 0 : op == ">=" ? c >= 0 : c <= 0);
    }
    r.roots = std::max(a.roots, b.roots);
    r.N = op == "*" || op == "/" ? a.N * b.N : op == "pow" ? std::pow(a.N, std::fabs(b.v) + b.e) : size(r.v);
    if (op == "pow" && !(cstB && b.v == std::floor(b.v))) r.roots = (signed char)std::min(100, r.roots + 1);
    settle(r);
    return r;
}
Val choice(const Val &c, const Val &a, const Val &b) {
    Val r;
    if (c.bad || a.bad || b.bad) { r.bad = true; return r; }
    int t = truth(c);
    return t == 1 ? a : t == 0 ? b : hull(a, b);
}

bool isUnary(const std::string &t) { for (auto s : {"abs", "not", "sqrt", "exp", "log", "sin", "cos"}) if (t == s) return true; return false; }
bool isBinary(const std::string &t) { for (auto s : {"+", "-", "*", "/", "pow", "max", "min", "and", "or", "xor", "<", ">", "=", ">=", "<="}) if (t == s) return true; return false; }
int clipIndex(const std::string &t) { return t.size() == 1 && t[0] >= 'a' && t[0] <= 'z' ? (t[0] >= 'x' ? t[0] - 'x' : t[0] - 'a' + 3) : -1; }
struct Ent { std::shared_ptr<std::vector<Val>> v; bool cst; };
struct Machine {                              // the stack, one value per pixel
    size_t n = 0;
    std::vector<std::vector<double>> in;      // per clip and pixel
    std::vector<Ent> st;
    // false if the token is not valid here
    bool token(const std::string &t) {
        auto fresh = [&](bool c) { Ent e; e.v = std::make_shared<std::vector<Val>>(n); e.cst = c; return e; };
        int c = clipIndex(t);
        if (c >= 0) {
            if (c >= (int)in.size()) return false;
            Ent e = fresh(false);
            for (size_t i = 0; i < n; i++) (*e.v)[i] = num(in[c][i]);
            st.push_back(e);
        } else if (t == "?") {
            if (st.size() < 3) return false;
            Ent a = st[st.size() - 3], b = st[st.size() - 2], d = st[st.size() - 1], e = fresh(a.cst && b.cst && d.cst);
            for (size_t i = 0; i < n; i++) (*e.v)[i] = choice((*a.v)[i], (*b.v)[i], (*d.v)[i]);
            st.resize(st.size() - 3); st.push_back(e);
        } else if (isUnary(t)) {
            if (st.empty()) return false;
            Ent a = st.back(), e = fresh(a.cst);
            for (size_t i = 0; i < n; i++) (*e.v)[i] = unary(t, (*a.v)[i]);
            st.back() = e;
        } else if (isBinary(t)) {
            if (st.size() < 2) return false;
            Ent a = st[st.size() - 2], b = st.back(), e = fresh(a.cst && b.cst);
            for (size_t i = 0; i < n; i++) (*e.v)[i] = binary(t, (*a.v)[i], (*b.v)[i], b.cst);
            st.pop_back(); st.back() = e;
        } else if (t.compare(0, 3, "dup") == 0 || t.compare(0, 4, "swap") == 0) {
            bool dup = t[0] == 'd';
            std::string s = t.substr(dup ? 3 : 4);
            size_t k = dup ? 0 : 1;
            if (!s.empty()) { if (s.find_first_not_of("0123456789") != std::string::npos) return false; k = std::stoul(s); }
            if (k >= st.size()) return false;
            if (dup) st.push_back(st[st.size() - 1 - k]);
            else std::swap(st.back(), st[st.size() - 1 - k]);
        } else {
            char *end;
            float f = std::strtof(t.c_str(), &end);
            if (t.empty() || *end || !(t[0] == '-' || t[0] == '+' || t[0] == '.' || isdigit((unsigned char)t[0]))) return false;
            Ent e = fresh(true);
            for (auto &v : *e.v) v = num(f);
            st.push_back(e);
        }
        return true;
    }
};

// programs waiting to be executed, three to a frame (one per plane)
struct Batch {
    struct P { std::string text; std::shared_ptr<std::vector<Val>> exp; };
    std::vector<N> clips;
    Machine m;
    std::vector<P> q;
    std::vector<const char *> levels;
    uint64_t free_ = 0, tight = 0;
    explicit Batch(int nclips, const std::vector<double> &grid) : levels(LEVELS, LEVELS + 4) {
        size_t n = 1;
        for (int i = 0; i < nclips; i++) n *= grid.size();
        m.n = n; m.in.resize(nclips);
        VSVideoFormat f = fmt(cfYUV, stFloat, 32);
        size_t d = 1;
        for (int c = 0; c < nclips; c++) {
            for (size_t i = 0; i < n; i++) m.in[c].push_back(grid[i / d % grid.size()]);
            auto vals = m.in[c];
            clips.push_back(still(mkvi(f, (int)n, 1, 1), [vals](int, int, int x, int) { return vals[x]; }));
            d *= grid.size();
        }
    }
    // explicit input values per clip
    explicit Batch(const std::vector<std::vector<double>> &in) : levels(LEVELS, LEVELS + 4) {
        m.n = in[0].size(); m.in = in;
        for (auto &vals : in)
            clips.push_back(still(mkvi(fmt(cfYUV, stFloat, 32), (int)m.n, 1, 1), [vals](int, int, int x, int) { return vals[x]; }));
    }
    void text(const std::string &prog) {
        m.st.clear();
        std::istringstream ts(prog);
        std::string t;
        while (ts >> t) CHECK(m.token(t), "internal: token %s", t.c_str());
        CHECK(m.st.size() == 1, "internal: %s", prog.c_str());
        program(prog);
    }
    void program(const std::string &text) { q.push_back({text, m.st.back().v}); if (q.size() >= 600) flush(); }
    void flush() {
        for (auto l : levels) {
            if (q.empty()) break;
            setLevel(l);
            for (size_t i = 0; i < q.size(); i += 3) {
                A a;
                for (auto &c : clips) a.n("clips", c);
                size_t k = std::min<size_t>(3, q.size() - i);
                std::string all;
                for (size_t j = 0; j < k; j++) { a.s("expr", q[i + j].text); all += (j ? " | " : "") + q[i + j].text; }
                cur("Expr [%s] cpu=%s", all.c_str(), l);
                R r = call("Expr", a);
                CHECK(r.ok(), "rejected: %s", r.err.c_str());
                std::string err;
                F g = get(r.node, 0, &err);
                CHECK(g, "%s", err.c_str());
                for (size_t j = 0; j < k; j++) {
                    const float *p = (const float *)api->getReadPtr(g.p, (int)j);
                    const auto &e = *q[i + j].exp;
                    for (size_t x = 0; x < m.n; x++) {
                        const Val &v = e[x];
                        if (v.bad) { free_++; continue; }
                        double tol = v.e * 1.5 + 1e-30;
                        if (!(std::fabs(p[x] - v.v) <= tol)) {
                            std::string in;
                            for (size_t c = 0; c < m.in.size(); c++) { char b[40]; snprintf(b, sizeof b, " %c=%g", (char)(c < 3 ? 'x' + c : 'a' + c - 3), m.in[c][x]); in += b; }
                            seq::fail("cpu=%s: [%s] with%s gives %.9g, expected %.9g +-%.3g", l, q[i + j].text.c_str(), in.c_str(), p[x], v.v, tol);
                        }
                        tight++;
                    }
                }
                seq::exec();
                seq::step(k * m.n);
            }
        }
        for (auto &p : q) seq::state(seq::hash(p.text));
        q.clear();
    }
};
// enumerates all programs of at most len tokens ("2 pow" counts as one); calls f at each complete program
struct Enum {
    Batch &b;
    std::vector<std::string> alpha;
    std::vector<int> need, delta;
    int len, depthItem;
    std::string text;
    Enum(Batch &b, std::vector<std::string> a, int len, int depthItem) : b(b), alpha(a), len(len), depthItem(depthItem) {
        for (auto &t : alpha) {
            if (t == "?") { need.push_back(3); delta.push_back(-2); }
            else if (isUnary(t) || t.find(' ') != std::string::npos) { need.push_back(1); delta.push_back(0); }
            else if (isBinary(t)) { need.push_back(2); delta.push_back(-1); }
            else if (t == "swap" ) { need.push_back(2); delta.push_back(0); }
            else if (t == "swap2") { need.push_back(3); delta.push_back(0); }
            else if (t == "dup") { need.push_back(1); delta.push_back(1); }
            else if (t == "dup1") { need.push_back(2); delta.push_back(1); }
            else { need.push_back(0); delta.push_back(1); }
        }
    }
    void go(int used, bool mine) {
        if (used == depthItem && !mine) { if (!seq::item()) return; mine = true; }
        if (used && b.m.st.size() == 1 && (mine || used < depthItem)) if (mine || first(used)) b.program(text);
        if (used == len) return;
        for (size_t i = 0; i < alpha.size(); i++) {
            int d = (int)b.m.st.size();
            if (need[i] > d) continue;
            int left = len - used - 1, nd = d + delta[i];
            // at most two values disappear per token
            if (nd - 1 > left * 2) continue;
            auto saved = b.m.st;
            std::string st = text;
            std::istringstream ts(alpha[i]);
            std::string t;
            while (ts >> t) { CHECK(b.m.token(t), "internal: token %s", t.c_str()); text += (text.empty() ? "" : " ") + t; }
            go(used + 1, mine);
            b.m.st = saved; text = st;
        }
    }
    bool first(int) { return seq::item(); }           // short programs are items of their own
};
void programs(int nclips, const std::vector<double> &grid, const std::vector<std::string> &alpha, int len, int itemDepth) {
    Session s;
    {
        Batch b(nclips, grid);
        Enum e(b, alpha, len, itemDepth);
        e.go(0, false);
        b.flush();
    }
}

// one program over given clips with given output format, every frame and pixel, on every processor path
struct Plan { std::vector<std::string> expr; VSVideoFormat out; bool setFormat; };
Val evalAt(const std::string &prog, const std::vector<double> &in) {
    Machine m;
    m.n = 1;
    for (double v : in) m.in.push_back({v});
    std::istringstream ts(prog);
    std::string t;
    while (ts >> t) CHECK(m.token(t), "internal: token %s", t.c_str());
    return (*m.st[0].v)[0];
}
Range accept(const Val &v, const VSVideoFormat &f) {
    if (v.bad) return isF(f) ? Range{-INFINITY, INFINITY} : Range{0, maxOf(f)};
    double e = v.e * 1.5;
    if (!isF(f)) {
        double m = maxOf(f);
        return {std::clamp(std::ceil(v.v - e - .5), 0., m), std::clamp(std::floor(v.v + e + .5), 0., m)};
    }
    // half: any neighbouring value is accepted, the conversion mode isn't documented
    if (f.bitsPerSample == 16) { if (std::fabs(v.v) + e >= 65504) return {-INFINITY, INFINITY}; e += std::fabs(v.v) / 1024 + 6e-8; }
    return {v.v - e - 1e-30, v.v + e + 1e-30};
}
void runPlan(const std::vector<N> &clips, const Plan &p, int levels = 15) {
    const VSVideoInfo mv = clips[0].vi();
    std::vector<std::vector<F>> src(mv.numFrames);
    std::vector<std::vector<std::vector<Range>>> exp(mv.numFrames);
    for (int n = 0; n < mv.numFrames; n++) {
        for (auto &c : clips) src[n].push_back(get(c, std::min(n, c.vi().numFrames - 1)));
        exp[n].resize(p.out.numPlanes);
        for (int pl = 0; pl < p.out.numPlanes; pl++) {
            const std::string &ex = p.expr[std::min<size_t>(pl, p.expr.size() - 1)];
            if (ex.empty()) continue;
            Machine m;
            for (auto &f : src[n]) m.in.push_back(load(f, pl).v);
            m.n = m.in[0].size();
            std::istringstream ts(ex);
            std::string t;
            while (ts >> t) CHECK(m.token(t), "internal: token %s", t.c_str());
            for (auto &v : *m.st[0].v) exp[n][pl].push_back(accept(v, p.out));
        }
    }
    for (int l = 0; l < 4; l++) {
        if (!(levels >> l & 1)) continue;
        setLevel(LEVELS[l]);
        A a;
        std::string d;
        for (auto &c : clips) { a.n("clips", c); d += fname(c.vi().format) + " "; }
        for (auto &e : p.expr) { a.s("expr", e); d += "[" + e + "]"; }
        if (p.setFormat) a.i("format", api->queryVideoFormatID(p.out.colorFamily, p.out.sampleType, p.out.bitsPerSample, p.out.subSamplingW, p.out.subSamplingH, core));
        cur("Expr %s %dx%d -> %s cpu=%s", d.c_str(), mv.width, mv.height, fname(p.out).c_str(), LEVELS[l]);
        R r = call("Expr", a);
        CHECK(r.ok(), "rejected: %s", r.err.c_str());
        const VSVideoInfo &vi = r.node.vi();
        CHECK(sameFormat(vi.format, p.out), "the output format is %s", fname(vi.format).c_str());
        CHECK(vi.width == mv.width && vi.height == mv.height && vi.numFrames == mv.numFrames && vi.fpsNum == mv.fpsNum && vi.fpsDen == mv.fpsDen, "the clip's properties differ from the first input");
        for (int n = 0; n < mv.numFrames; n++) {
            std::string err;
            F g = get(r.node, n, &err);
            CHECK(g, "frame %d: %s", n, err.c_str());
            CHECK(sameFormat(g.f(), p.out) && g.w() == mv.width && g.h() == mv.height, "frame %d has another format", n);
            CHECK(propText(g.props()) == propText(src[n][0].props()), "frame %d: the frame properties differ from those of the first clip", n);
            char w[24]; snprintf(w, sizeof w, "frame %d", n);
            for (int pl = 0; pl < p.out.numPlanes; pl++) {
                if (!exp[n][pl].empty()) compare(g, pl, exp[n][pl], w);
                else if (mv.format.sampleType == p.out.sampleType && mv.format.bitsPerSample == p.out.bitsPerSample) equalPlane(g, src[n][0], pl, w);
            }
        }
        seq::exec(mv.numFrames);
    }
    seq::state(seq::hash(p.expr[0]) ^ seq::mix(mv.width, p.out.bitsPerSample * 2 + p.out.sampleType));
}
std::vector<double> allValues(const VSVideoFormat &f) {
    std::vector<double> v;
    if (!isF(f)) for (int i = 0; i < 1 << f.bitsPerSample; i++) v.push_back(i);
    else if (f.bitsPerSample == 16) { uint16_t h; for (int i = 0; i < 65536; i++) { h = (uint16_t)i; double x = sampleAt((uint8_t *)&h, 0, f); if (std::isfinite(x) && (x == 0 || std::fabs(x) > 7e-5)) v.push_back(x); } }
    else for (int i = -140000; i <= 140000; i++) v.push_back(i / 2.0);
    return v;
}
const std::vector<double> G2 = {-7.5, -3, -1, -.5, 0, .25, 1, 2, 3, 10, 100}, G3 = {-3, -1, 0, .5, 2, 5};

}

SEQ_CASE(exprAll, "expr_programs", "C17", true, "every program of up to 4 tokens (thorough 5) over x y 0 1 2 -1 .5, all operators, dup and swap, at 121 input points, four processor paths, against interval evaluation in program order") {
    programs(2, G2, {"x", "y", "0", "1", "2", "-1", ".5", "+", "-", "*", "/", "pow", "max", "min", "<", ">", "=", ">=", "<=", "and", "or", "xor", "?", "sqrt", "abs", "not", "exp", "log", "sin", "cos", "dup", "swap"}, seq::thorough ? 5 : 4, 2);
}
SEQ_CASE(exprArith, "expr_arithmetic", "C17", true, "every program of up to 6 tokens (thorough 7) over x y 2 -3, + - * /, sqrt abs and constant powers 2 3 -1 .5, at 121 points") {
    programs(2, G2, {"x", "y", "2", "-3", "+", "-", "*", "/", "sqrt", "abs", "2 pow", "3 pow", "-1 pow", ".5 pow"}, seq::thorough ? 7 : 6, 3);
}
SEQ_CASE(exprSum, "expr_sums", "C17", true, "every program of up to 7 tokens (thorough 9) over x y 1 3 and + - *, at 121 points") {
    programs(2, G2, {"x", "y", "1", "3", "+", "-", "*"}, seq::thorough ? 9 : 7, 4);
}
SEQ_CASE(exprProd, "expr_products", "C17", true, "every program of up to 7 tokens (thorough 8) over x y z, * /, sqrt abs and squaring, at 216 points") {
    programs(3, G3, {"x", "y", "z", "*", "/", "sqrt", "abs", "2 pow"}, seq::thorough ? 8 : 7, 3);
}
SEQ_CASE(exprLogic, "expr_logic", "C17", true, "every program of up to 6 tokens (thorough 7) over x y 1 and comparisons, min, max, and, or, xor, not, ternary, -, at 121 points") {
    programs(2, G2, {"x", "y", "1", "<", ">", "<=", ">=", "=", "max", "min", "and", "or", "xor", "not", "?", "-"}, 6 + seq::thorough, 2);
}
SEQ_CASE(exprFunc, "expr_functions", "C17", true, "every program of up to 5 tokens (thorough 6) over x y 2, exp log pow sin cos, + * / and negation, at 121 points") {
    programs(2, G2, {"x", "y", "2", ".7", "exp", "log", "pow", "sin", "cos", "+", "*", "/", "-1 *"}, 5 + seq::thorough, 2);
}
SEQ_CASE(exprStack, "expr_stack", "C17", true, "every program of up to 6 tokens (thorough 7) over x y z, - /, dup dup1 swap swap2 and ternary, at 216 points") {
    programs(3, G3, {"x", "y", "z", "-", "/", "dup", "dup1", "swap", "swap2", "?"}, seq::thorough ? 7 : 6, 3);
}
SEQ_CASE(exprFormats, "expr_formats", "C17", true, "every sample value of every input format (8, 9, 10, 12, 16 bit, half, half-integers in float) to every output format: rounding, clamping, scaling; four processor paths") {
    Session s;
    for (auto &in : grays()) {
        auto vals = allValues(in);
        int w = 256, h = (int)(vals.size() + 255) / 256;
        N c = still(mkvi(in, w, h, 1), [vals, w](int, int, int x, int y) { return vals[((size_t)y * w + x) % vals.size()]; });
        for (auto &out : grays())
            for (auto e : {"x", "x 2 /", "x 3 * 7 -", "x -1 *", "x 65535 *", "x 256 /", "x 0.3 * 5.5 +"}) {
                if (!seq::item()) continue;
                runPlan({c}, {{e}, out, !sameFormat(in, out)});
            }
    }
}
SEQ_CASE(exprWidths, "expr_widths", "C17", true, "every width 1..70 (thorough 1..150) and height 1..2 of clips with two different sample formats, mixed output formats, loads in both orders") {
    Session s;
    std::vector<VSVideoFormat> fs = {gray(8), gray(10), gray(16), half(), gray(32)};
    for (int w = 1; w <= (seq::thorough ? 150 : 70); w++)
        for (size_t i = 0; i < fs.size(); i++)
            for (size_t j = 0; j < fs.size(); j++) {
                if (!seq::item()) continue;
                auto fill = [](VSVideoFormat f) { return [f](int n, int, int x, int y) { return noise(f, x, y, n, f.bitsPerSample); }; };
                int h = 1 + w % 2;
                N a = still(mkvi(fs[i], w, h, 1), fill(fs[i])), b = still(mkvi(fs[j], w, h, 1), fill(fs[j]));
                const VSVideoFormat &o = fs[(i + 2 * j + w) % fs.size()];
                runPlan({a, b}, {{"x y + 2 /"}, o, true});
                runPlan({b, a}, {{"y x 3 * -"}, fs[j], false});
            }
}
SEQ_CASE(exprRegs, "expr_registers", "C17", true, "programs holding 1..26 loaded values or 1..48 computed temporaries on the stack, combined from either end by 6 operator sequences; every clip letter as only operand") {
    Session s;
    const char *ops[][3] = {{"-", "-", "-"}, {"/", "-", "/"}, {"max", "-", "min"}, {"<", "-", "/"}, {"-", "*", "max"}, {"pow", "min", "-"}};
    std::vector<std::vector<double>> in(26);
    for (int c = 0; c < 26; c++)
        for (int x = 0; x < 40; x++) in[c].push_back(1 + ((c * 7 + x * 5) % 31) / 8.0);
    auto letter = [](int i) { return std::string(1, (char)(i < 3 ? 'x' + i : 'a' + i - 3)); };
    Batch b(in);
    for (int i = 0; i < 26; i++) { if (!seq::item()) continue; b.text(letter(i)); b.text(letter(i) + " 2 * 1 +"); }
    for (int n = 2; n <= 26; n++)
        for (auto &o : ops)
            for (int rev = 0; rev < 4; rev++) {
                if (!seq::item()) continue;
                std::string p;
                for (int i = 0; i < n; i++) p += letter(rev & 1 ? n - 1 - i : i) + " ";
                for (int i = 0; i < n - 1; i++) p += std::string(rev & 2 ? "swap " : "") + o[i % 3] + " ";
                b.text(p);
            }
    for (int k = 2; k <= 48; k++)
        for (auto &o : ops)
            for (int kind = 0; kind < 4; kind++) {
                if (!seq::item()) continue;
                std::string p;
                for (int i = 0; i < k; i++) {
                    std::string l = letter(i % 26), c = std::to_string(i + 1);
                    p += kind == 0 ? l + " " + c + " * sin abs 1 + " : kind == 1 ? l + " " + c + " + abs sqrt " : kind == 2 ? l + " x " + c + " / max " : l + " " + c + " > " + l + " " + c + " ? ";
                }
                for (int i = 0; i < k - 1; i++) p += std::string(o[(i + kind) % 3]) + " ";
                b.text(p);
            }
    b.flush();
}
SEQ_CASE(exprPlanes, "expr_planes", "C17", true, "expression lists of 1..3 entries from {empty, x, x y max, constant} over Gray, YUV with every subsampling and RGB, with and without a different output format, clips of different lengths and properties") {
    Session s;
    const char *ex[] = {"", "x", "x y max", "7", "y x - abs"};
    std::vector<VSVideoFormat> fs = {gray(8), fmt(cfYUV, stInteger, 8), fmt(cfYUV, stInteger, 10, 1, 1), fmt(cfYUV, stInteger, 16, 1, 0), fmt(cfYUV, stFloat, 32, 2, 0), fmt(cfRGB, stInteger, 8), fmt(cfRGB, stFloat, 32), fmt(cfYUV, stFloat, 16, 0, 1), fmt(cfYUV, stInteger, 8, 2, 2)};
    for (auto &f : fs)
        for (int n = 1; n <= f.numPlanes; n++)
            for (int k = 0; k < (n == 1 ? 5 : n == 2 ? 25 : 125); k++)
                for (int of = 0; of < 3; of++) {
                    if (!seq::item()) continue;
                    VSVideoFormat o = of == 0 ? f : of == 1 ? fmt(f.colorFamily, stInteger, f.bitsPerSample == 16 ? 12 : 16, f.subSamplingW, f.subSamplingH) : fmt(f.colorFamily, stFloat, 32, f.subSamplingW, f.subSamplingH);
                    std::vector<std::string> e;
                    for (int i = 0, q = k; i < n; i++, q /= 5) e.push_back(ex[q % 5]);
                    auto mk = [&](int frames, int id) {
                        return still(mkvi(f, 20, 12, frames, 24 + id, 1), [f, id](int n, int pl, int x, int y) { return noise(f, n * 10 + pl, x, y, id); },
                                     [id](int, VSFrame *fr) { setInt(fr, "id", id); setInt(fr, "_Matrix", id); });
                    };
                    runPlan({mk(3, 1), mk(2, 2)}, {e, o, of != 0}, 1 << (k % 4) | 4);
                    runPlan({mk(1, 1), mk(2, 2)}, {e, o, of != 0}, 1 << (k % 4));
                }
}
SEQ_CASE(exprReject, "expr_acceptance", "C17", true, "every sequence of up to 4 tokens (thorough 5) of 17 kinds of valid and invalid tokens is accepted exactly when it is a well-formed program") {
    Session s;
    const std::vector<std::string> tok = {"x", "y", "z", "1", "-.5e1", "+", "abs", "?", "dup", "dup1", "dup0", "swap", "swap2", "swap0", "foo", "dupx", "1x"};
    VSVideoFormat f = gray(8);
    N a = still(mkvi(f, 2, 1, 1), [](int, int, int, int) { return 5.; });
    int len = seq::thorough ? 5 : 4;
    std::function<void(int, std::vector<int>)> go = [&](int n, std::vector<int> t) {
        if (n >= 1) {
            if (n == 1 ? true : t.size() > 2 || seq::item()) {
                std::string p;
                Machine m;
                m.n = 1; m.in = {{5}, {5}};
                bool ok = true;
                for (int i : t) {
                    p += (p.empty() ? "" : i % 2 ? " " : "\t ") + tok[i];
                    ok = ok && m.token(tok[i]);
                }
                ok = ok && m.st.size() == 1;
                cur("Expr [%s]", p.c_str());
                A arg;
                arg.n("clips", a).n("clips", a).s("expr", p);
                R r = call("Expr", arg);
                CHECK(r.ok() == ok, "the program is %s%s%s", ok ? "rejected although it is well-formed: " : "accepted although it is malformed", r.err.c_str(), "");
                seq::exec();
                seq::step();
            } else return;
        }
        if (n == len) return;
        for (int i = 0; i < (int)tok.size(); i++) { t.push_back(i); go(n + 1, t); t.pop_back(); }
    };
    go(0, {});
}
SEQ_CASE(exprArgs, "expr_arguments", "C17", true, "argument validation: number tokens, clip counts 1..27, plane counts, mismatching dimensions, subsampling, formats and family changes, empty programs") {
    Session s;
    if (!seq::item()) return;
    auto clip = [](const VSVideoFormat &f, int w = 16, int h = 8) { return still(mkvi(f, w, h, 1), [](int, int, int x, int) { return x; }); };
    auto run = [&](bool ok, const char *what, std::vector<N> c, std::vector<std::string> e, const VSVideoFormat *o = nullptr, int fid = 0) {
        A a;
        for (auto &n : c) a.n("clips", n);
        for (auto &x : e) a.s("expr", x);
        if (o) a.i("format", api->queryVideoFormatID(o->colorFamily, o->sampleType, o->bitsPerSample, o->subSamplingW, o->subSamplingH, core));
        else if (fid) a.i("format", fid);
        cur("Expr %s: %zu clips, first expression [%s]", what, c.size(), e.empty() ? "" : e[0].c_str());
        R r = call("Expr", a);
        CHECK(r.ok() == ok, "%s %s", ok ? "rejected:" : "accepted", r.err.c_str());
        if (!ok) CHECK(r.err.find("Expr") != std::string::npos, "the error doesn't name the filter: %s", r.err.c_str());
        seq::exec(); seq::step();
        return r;
    };
    VSVideoFormat g8 = gray(8), y8 = fmt(cfYUV, stInteger, 8), y420 = fmt(cfYUV, stInteger, 8, 1, 1), rgb = fmt(cfRGB, stInteger, 8), gs = gray(32);
    N c8 = clip(g8);
    struct { const char *t; bool ok; double v; } nums[] = {{"1", true, 1}, {"-1", true, -1}, {"+1", true, 1}, {"1.5", true, 1.5}, {".5", true, .5}, {"5.", true, 5}, {"1e3", true, 1000}, {"1E-3", true, .001}, {"1e+3", true, 1000}, {"-0", true, 0}, {"0012", true, 12}, {"-.25", true, -.25}, {"16777217", true, 16777216}, {"1e30", true, 1e30}, {"3.4e38", true, 3.4e38},
        {"1x", false, 0}, {"--1", false, 0}, {"1e", false, 0}, {"e1", false, 0}, {"1,5", false, 0}, {"1.5.2", false, 0}, {"-", false, 0}, {".", false, 0}, {"1-", false, 0}, {"X", false, 0}, {"xx", false, 0}, {"A", false, 0}, {"Dup", false, 0}, {"dup-1", false, 0}, {"swap1.5", false, 0}, {"dup99999999999999", false, 0}, {"mod", false, 0}, {"**", false, 0}, {"==", false, 0}, {"&", false, 0}};
    for (auto &n : nums) {
        R r = run(n.ok, "number", {c8}, {n.t}, &gs);
        if (!n.ok) continue;
        F g = get(r.node, 0);
        for (int x = 0; x < 16; x++) CHECK(std::fabs(g.at(0, x, 3) - n.v) <= std::fabs(n.v) * 1e-7, "the constant is %.9g", g.at(0, x, 3));
    }
    for (int k = 1; k <= 27; k++) {
        std::vector<N> c(k, c8);
        run(k <= 26, "clip count", c, {"x"});
        for (int i = 0; i < 26; i++) if (k <= 26) run(i < k, "clip letter", c, {std::string(1, (char)(i < 3 ? 'x' + i : 'a' + i - 3))});
    }
    for (int e = 1; e <= 4; e++) {
        std::vector<std::string> x(e, "x");
        run(e <= 1, "expressions for Gray", {c8}, x);
        run(e <= 3, "expressions for YUV", {clip(y8)}, x);
    }
    run(true, "empty", {c8}, {""});
    run(false, "blank", {c8}, {" "});
    run(false, "blank", {c8}, {"\t \n"});
    run(true, "spaces", {c8}, {"  x   1\t+\n"});
    for (auto &o : {y8, y420, rgb, g8})
        for (auto &p : {y8, y420, rgb, g8}) {
            bool same = o.numPlanes == p.numPlanes && o.subSamplingW == p.subSamplingW;
            run(same, "planes", {clip(o), clip(p)}, {"x"});
            run(o.colorFamily == p.colorFamily && o.subSamplingW == p.subSamplingW, "format", {clip(o)}, {"x"}, &p);
        }
    run(false, "width", {c8, clip(g8, 18, 8)}, {"x"});
    run(false, "height", {c8, clip(g8, 16, 10)}, {"x"});
    run(true, "same size", {c8, clip(gs)}, {"x"});
    for (int b = 8; b <= 32; b++) {
        VSVideoFormat f;
        if (!api->queryVideoFormat(&f, cfGray, stInteger, b, 0, 0, core)) continue;
        run(b <= 16, "input bits", {clip(f)}, {"x"});
        run(b <= 16, "output bits", {c8}, {"x"}, &f);
    }
    run(false, "format id", {c8}, {"x"}, nullptr, 12345);
    run(false, "format id", {c8}, {"x"}, nullptr, -7);
    VSVideoInfo var = mkvi(g8, 0, 0, 1);
    run(false, "variable size", {source(var, [](int, VSFrame *) {})}, {"x"});
    for (auto e : {"x 3e9 pow", "x -3e9 pow", "x 1e30 pow", "x 0 log pow", "x 65536 pow", "x 65537 pow", "x 3e9 pow sqrt", "x sqrt 5e9 pow", "x 2e9 pow x 2e9 pow *"}) {
        R r = run(true, "huge exponent", {c8}, {e}, &gs);
        F g = get(r.node, 0);
        if (strchr(e, 'l') == nullptr) CHECK(std::fabs(g.at(0, 1, 0) - 1) < 1e-3, "1 to any power is %g", g.at(0, 1, 0));
    }
}
