// C19: audio editing filters against functions from sample positions to values, around the internal frame boundaries.
#include "vk.h"
#include "VSConstants4.h"
#include <algorithm>
#include <array>
#include <climits>
#include <cfloat>
#include <set>
using namespace vk;
using seq::cur;

namespace {
const int FS = VS_AUDIO_FRAME_SAMPLES;
struct Session {
    bool warn = false;
    Session() { newCore(1); }
    ~Session() { dropCore(); CHECK(warn || logged == 0, "the core logged: %s", lastLog.c_str()); }
};
VSAudioFormat af(int st, int bits, uint64_t layout) {
    VSAudioFormat f = {};
    CHECK(api->queryAudioFormat(&f, st, bits, layout, core), "internal: audio format");
    return f;
}
std::string aname(const VSAudioFormat &f) { char b[64]; snprintf(b, sizeof b, "%s%d/%llx", f.sampleType == stFloat ? "f" : "s", f.bitsPerSample, (unsigned long long)f.channelLayout); return b; }
double sampleOf(const uint8_t *p, int64_t i, const VSAudioFormat &f) {
    if (f.sampleType == stFloat) return ((const float *)p)[i];
    return f.bytesPerSample == 2 ? ((const int16_t *)p)[i] : ((const int32_t *)p)[i];
}
double stepOf(const VSAudioFormat &f) { return f.sampleType == stFloat ? 0 : std::ldexp(1., f.bytesPerSample * 8 - f.bitsPerSample); }
double maxA(const VSAudioFormat &f) { return (std::ldexp(1., f.bitsPerSample - 1) - 1) * stepOf(f); }
double minA(const VSAudioFormat &f) { return -std::ldexp(1., f.bitsPerSample - 1) * stepOf(f); }

typedef std::function<double(int ch, int64_t pos)> Wave;
struct Ref { VSAudioFormat f; int rate; int64_t len; Wave w; double tol = 0; };   // tol: absolute for integers (in steps), relative for float
// distinct value per position and channel
double content(const VSAudioFormat &f, int id, int ch, int64_t pos) {
    uint32_t r = rnd((uint32_t)pos, (uint32_t)(pos >> 32), ch, id);
    if (f.sampleType == stFloat) return ((r >> 8) & 0xffff) / 32768.0 - 1;
    double v = std::ldexp((double)(int32_t)r, f.bitsPerSample - 32);
    return std::clamp(std::floor(v) * stepOf(f), minA(f), maxA(f));
}
N clipOf(const Ref &r) {
    VSAudioInfo ai = {};
    ai.format = r.f; ai.sampleRate = r.rate; ai.numSamples = r.len;
    Ref c = r;
    return audioSource(ai, [c](int n, VSFrame *f, int samples) {
        for (int ch = 0; ch < c.f.numChannels; ch++) {
            uint8_t *p = api->getWritePtr(f, ch);
            for (int i = 0; i < samples; i++) {
                double v = c.w(ch, (int64_t)n * FS + i);
                if (c.f.sampleType == stFloat) ((float *)p)[i] = (float)v;
                else if (c.f.bytesPerSample == 2) ((int16_t *)p)[i] = (int16_t)v;
                else ((int32_t *)p)[i] = (int32_t)v;
            }
        }
        setInt(f, "n", n);
    });
}
Ref ref(const VSAudioFormat &f, int64_t len, int id = 0, int rate = 44100) { return {f, rate, len, [f, id](int ch, int64_t p) { return content(f, id, ch, p); }}; }
void checkInfo(const N &n, const Ref &r) {
    const VSAudioInfo &ai = n.ai();
    CHECK(ai.numSamples == r.len, "the clip has %lld samples, expected %lld", (long long)ai.numSamples, (long long)r.len);
    CHECK(ai.numFrames == (int)((r.len + FS - 1) / FS), "the clip has %d frames for %lld samples", ai.numFrames, (long long)r.len);
    CHECK(ai.sampleRate == r.rate, "the sample rate is %d, expected %d", ai.sampleRate, r.rate);
    CHECK(ai.format.sampleType == r.f.sampleType && ai.format.bitsPerSample == r.f.bitsPerSample && ai.format.channelLayout == r.f.channelLayout && ai.format.numChannels == r.f.numChannels,
          "the format is %s, expected %s", aname(ai.format).c_str(), aname(r.f).c_str());
}
void checkFrame(const N &node, const Ref &r, int n) {
    std::string err;
    F f = get(node, n, &err);
    CHECK(f, "frame %d: %s", n, err.c_str());
    int64_t start = (int64_t)n * FS;
    int len = (int)std::min<int64_t>(FS, r.len - start);
    CHECK(api->getFrameLength(f.p) == len, "frame %d has %d samples, expected %d", n, api->getFrameLength(f.p), len);
    const VSAudioFormat &g = *api->getAudioFrameFormat(f.p);
    CHECK(g.channelLayout == r.f.channelLayout && g.bitsPerSample == r.f.bitsPerSample && g.sampleType == r.f.sampleType, "frame %d has format %s", n, aname(g).c_str());
    for (int ch = 0; ch < g.numChannels; ch++) {
        const uint8_t *p = api->getReadPtr(f.p, ch);
        for (int i = 0; i < len; i++) {
            double v = sampleOf(p, i, g), e = r.w(ch, start + i);
            double tol = g.sampleType == stFloat ? std::fabs(e) * r.tol : r.tol * stepOf(g);
            if (!(v >= e - tol && v <= e + tol)) {
                // floats are stored in single precision
                if (g.sampleType == stFloat && std::fabs(v - e) <= std::fabs(e) * 6e-8 + 1e-45) continue;
                seq::fail("sample %lld of channel %d (frame %d) is %.9g, expected %.9g", (long long)(start + i), ch, n, v, e);
            }
        }
    }
    seq::step((uint64_t)len * g.numChannels);
}
// the whole clip, requested forwards or backwards
void checkClip(const N &n, const Ref &r, bool backwards = false) {
    checkInfo(n, r);
    int nf = n.ai().numFrames;
    for (int i = 0; i < nf; i++) checkFrame(n, r, backwards ? nf - 1 - i : i);
    seq::exec();
    seq::state(seq::mix(r.len, r.f.bitsPerSample * 64 + r.f.numChannels));
}
const int64_t LENS[] = {1, 2, 3071, 3072, 3073, 6143, 6144, 6145, 9300};
const int64_t I64MAX = INT64_MAX, I64MIN = INT64_MIN;
uint64_t bit(int c) { return 1ull << c; }
std::vector<VSAudioFormat> formats() { return {af(stInteger, 16, 3), af(stInteger, 24, 4), af(stInteger, 32, 3), af(stFloat, 32, 0x603)}; }
R expectErr(bool ok, R r) { CHECK(r.ok() == ok, "%s %s", ok ? "rejected:" : "accepted although the arguments are invalid", r.err.c_str()); seq::exec(); seq::step(); return r; }
}

SEQ_CASE(audTrim, "audio_trim", "C19", true, "9 clip lengths around multiples of the frame size, every first/last/length from boundary values (invalid ones included), 4 sample formats, forward and backward reading") {
    Session s;
    for (int64_t L : LENS) {
        std::set<int64_t> pts = {I64MIN, -1, 0, 1, 2, 100, 3070, 3071, 3072, 3073, 3074, 6143, 6144, 6145, L - 2, L - 1, L, L + 1, L / 2, L - 3072, L - 3071, L - 3073, I64MAX};
        int k = 0;
        for (int64_t first : pts)
            for (int mode = 0; mode < 4; mode++)           // nothing, last, length, both
                for (int64_t v : pts) {
                    if (mode == 0 && v != 0) continue;
                    if (mode == 3 && v != 1) continue;
                    k++;
                    if (!seq::item()) continue;
                    auto fs = formats();
                    Ref r = ref(fs[k % 4], L);
                    N c = clipOf(r);
                    for (int setFirst = first == 0 ? 0 : 1; setFirst < 2; setFirst++) {
                        A a;
                        a.n("clip", c);
                        if (setFirst) a.i("first", first);
                        if (mode & 1) a.i("last", v);
                        if (mode & 2) a.i("length", v);
                        bool ok = first >= 0 && first < L && mode != 3 && (mode != 1 || (v >= first && v < L)) && (mode != 2 || (v >= 1 && v <= L - first));
                        cur("AudioTrim of %lld samples: first=%lld %s=%lld", (long long)L, (long long)first, mode == 1 ? "last" : mode == 2 ? "length" : mode ? "both" : "none", (long long)v);
                        R q = expectErr(ok, call("AudioTrim", a));
                        if (!ok) continue;
                        Ref e = r;
                        e.len = mode == 1 ? v - first + 1 : mode == 2 ? v : L - first;
                        e.w = [r, first](int ch, int64_t p) { return r.w(ch, p + first); };
                        checkClip(q.node, e, k & 1);
                    }
                }
    }
}
SEQ_CASE(audSplice, "audio_splice", "C19", true, "every sequence of 2 and 3 clips with 9 boundary lengths each, sequences of 4 and 5 short clips, repeated clips, mismatching formats and rates") {
    Session s;
    auto fs = formats();
    auto run = [&](std::vector<int64_t> lens, int fi, bool same) {
        std::vector<Ref> r;
        std::vector<N> c;
        for (size_t i = 0; i < lens.size(); i++) {
            if (same && i) { r.push_back(r[0]); c.push_back(c[0]); continue; }
            r.push_back(ref(fs[fi], lens[i], (int)i)); c.push_back(clipOf(r[i]));
        }
        A a;
        std::string d;
        for (size_t i = 0; i < c.size(); i++) { a.n("clips", c[i]); d += std::to_string(r[i].len) + " "; }
        cur("AudioSplice of clips with %ssamples%s", d.c_str(), same ? " (one clip repeated)" : "");
        R q = expectErr(true, call("AudioSplice", a));
        Ref e = r[0];
        e.len = 0;
        for (auto &x : r) e.len += x.len;
        e.w = [r](int ch, int64_t p) { size_t i = 0; while (p >= r[i].len) p -= r[i++].len; return r[i].w(ch, p); };
        checkClip(q.node, e, lens.size() & 1);
    };
    for (int64_t a : LENS) {
        if (seq::item()) { run({a}, 0, false); for (int k = 2; k <= 5; k++) run(std::vector<int64_t>(k, a), k % 4, true); }
        for (int64_t b : LENS) {
            if (seq::item()) run({a, b}, (a + b) % 4, false);
            for (int64_t c : LENS) if (seq::item()) run({a, b, c}, (a + b + c) % 4, false);
        }
    }
    const int64_t sh[] = {1, 100, 3071, 3073};
    for (int k = 0; k < 256; k++) if (seq::item()) run({sh[k & 3], sh[k >> 2 & 3], sh[k >> 4 & 3], sh[k >> 6]}, k % 4, false);
    for (int k = 0; k < 1024; k += seq::thorough ? 1 : 7) if (seq::item()) run({sh[k & 3], sh[k >> 2 & 3], sh[k >> 4 & 3], sh[k >> 6 & 3], sh[k >> 8]}, k % 4, false);
    if (seq::item()) {
        N a = clipOf(ref(fs[0], 5000));
        for (auto &f : {af(stInteger, 24, 3), af(stInteger, 16, 1), af(stInteger, 16, 5), af(stFloat, 32, 3), af(stInteger, 32, 3)}) {
            cur("AudioSplice of different formats");
            expectErr(false, call("AudioSplice", A().n("clips", a).n("clips", clipOf(ref(f, 5000)))));
            expectErr(false, call("AudioSplice", A().n("clips", a).n("clips", a).n("clips", clipOf(ref(f, 5000)))));
        }
        expectErr(false, call("AudioSplice", A().n("clips", a).n("clips", clipOf(ref(fs[0], 5000, 0, 48000)))));
        int64_t M = (int64_t)INT_MAX * FS;
        cur("AudioSplice of very long clips");
        N big = clipOf(ref(fs[0], M - 10)), ten = clipOf(ref(fs[0], 10)), one = clipOf(ref(fs[0], 11, 3));
        R q = expectErr(true, call("AudioSplice", A().n("clips", big).n("clips", ten)));
        Ref e = ref(fs[0], M);
        Ref t = ref(fs[0], 10);
        e.w = [M, t, b = ref(fs[0], M)](int ch, int64_t p) { return p < M - 10 ? b.w(ch, p) : t.w(ch, p - (M - 10)); };
        checkInfo(q.node, e);
        for (int n : {0, 1, 1000000, INT_MAX - 2, INT_MAX - 1}) checkFrame(q.node, e, n);
        expectErr(false, call("AudioSplice", A().n("clips", big).n("clips", one)));
        expectErr(false, call("AudioSplice", A().n("clips", ten).n("clips", big).n("clips", ten)));
    }
}
SEQ_CASE(audLoop, "audio_loop", "C19", true, "source lengths 1..40 and around multiples of the frame size, 1..9 repetitions, infinite repetition read at both ends, limits of the clip length") {
    Session s;
    auto fs = formats();
    std::vector<int64_t> lens(LENS, LENS + 9);
    for (int i = 3; i <= 40; i++) lens.push_back(i);
    for (int64_t l : {1024, 1536, 3070, 3074, 4608, 6142}) lens.push_back(l);
    int64_t M = (int64_t)INT_MAX * FS;
    for (int64_t L : lens)
        for (int64_t times : {(int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)4, (int64_t)9, (int64_t)333, M / L, M / L + 1, I64MAX, (int64_t)-1, I64MIN, (int64_t)INT_MAX + 1}) {
            if (!seq::item()) continue;
            Ref r = ref(fs[L % 4], L);
            N c = clipOf(r);
            bool ok = times >= 0 && (times == 0 || times <= M / L);
            cur("AudioLoop of %lld samples, times=%lld", (long long)L, (long long)times);
            R q = expectErr(ok, call("AudioLoop", A().n("clip", c).i("times", times)));
            if (!ok) continue;
            Ref e = r;
            e.len = times ? L * times : M;
            e.w = [r, L](int ch, int64_t p) { return r.w(ch, p % L); };
            checkInfo(q.node, e);
            int nf = q.node.ai().numFrames;
            std::set<int> want;
            for (int n = 0; n < 12; n++) { want.insert(n); want.insert(nf - 1 - n); want.insert((int)((int64_t)nf * n / 12)); }
            for (int n : want) if (n >= 0 && n < nf) checkFrame(q.node, e, n);
            seq::exec();
            if (times == 0) checkInfo(expectErr(true, call("AudioLoop", A().n("clip", c))).node, e);
        }
}
SEQ_CASE(audReverse, "audio_reverse", "C19", true, "every clip length 1..40 and around multiples of the frame size, every sample format, reversed twice, forward and backward reading") {
    Session s;
    std::vector<int64_t> lens(LENS, LENS + 9);
    for (int i = 3; i <= 40; i++) lens.push_back(i);
    for (int64_t b : {3072, 6144, 9216, 12288}) for (int d = -4; d <= 4; d++) lens.push_back(b + d);
    for (auto &f : formats())
        for (int64_t L : lens) {
            if (!seq::item()) continue;
            Ref r = ref(f, L), e = r;
            e.w = [r, L](int ch, int64_t p) { return r.w(ch, L - 1 - p); };
            N c = clipOf(r);
            cur("AudioReverse of %lld samples %s", (long long)L, aname(f).c_str());
            R q = expectErr(true, call("AudioReverse", A().n("clip", c)));
            checkClip(q.node, e, L & 1);
            checkClip(expectErr(true, call("AudioReverse", A().n("clip", q.node))).node, r, !(L & 1));
        }
}

namespace {
// ideal value to what may be stored; clipped reports whether it leaves the range for sure (2) or perhaps (1)
struct Q { double lo, hi; int clip; };
double g_noise = 0, g_rel = 1e-12;      // admissible dither (in steps) and relative error
Q quant(double v, const VSAudioFormat &f) {
    double st = stepOf(f), x = v / st, e = std::fabs(x) * g_rel + g_noise, mx = maxA(f) / st, mn = minA(f) / st;
    double lo = std::ceil(x - .5 - e), hi = std::floor(x + .5 + e);
    int clip = lo > mx || hi < mn ? 2 : hi > mx || lo < mn ? 1 : 0;
    return {std::clamp(lo, mn, mx) * st, std::clamp(hi, mn, mx) * st, clip};
}
// checks a filter with integer quantisation: ideal(channel, position); overflow_error semantics included
void checkQuantised(const std::function<R(bool overflowError)> &make, const Ref &shape, const Wave &ideal, Session &s) {
    for (int oe = 0; oe < 2; oe++) {
        logged = 0;
        R q = make(oe);
        CHECK(q.ok(), "rejected: %s", q.err.c_str());
        checkInfo(q.node, shape);
        bool any = false, maybe = false;
        for (int n = 0; n < q.node.ai().numFrames; n++) {
            int64_t start = (int64_t)n * FS;
            int len = (int)std::min<int64_t>(FS, shape.len - start), clip = 0;
            if (shape.f.sampleType == stInteger)
                for (int ch = 0; ch < shape.f.numChannels; ch++)
                    for (int i = 0; i < len; i++) clip = std::max(clip, quant(ideal(ch, start + i), shape.f).clip);
            any |= clip == 2; maybe |= clip == 1;
            std::string err;
            F f = get(q.node, n, &err);
            if (oe && clip == 2) { CHECK(!f && err.find("clipping") != std::string::npos, "frame %d clips but is returned without an error (%s)", n, err.c_str()); continue; }
            if (oe && clip == 1 && !f) continue;
            CHECK(f, "frame %d: %s", n, err.c_str());
            CHECK(api->getFrameLength(f.p) == len, "frame %d has %d samples, expected %d", n, api->getFrameLength(f.p), len);
            for (int ch = 0; ch < shape.f.numChannels; ch++)
                for (int i = 0; i < len; i++) {
                    double v = sampleOf(api->getReadPtr(f.p, ch), i, shape.f), e = ideal(ch, start + i);
                    bool ok;
                    if (shape.f.sampleType == stInteger) { Q z = quant(e, shape.f); ok = v >= z.lo && v <= z.hi; }
                    else ok = std::fabs(v - e) <= shape.tol + std::fabs(e) * 3e-7;
                    if (!ok) seq::fail("sample %lld of channel %d is %.10g, expected %.10g", (long long)(start + i), ch, v, e);
                }
            seq::step((uint64_t)len * shape.f.numChannels);
        }
        if (!oe) {
            if (any) { s.warn = true; CHECK(logged == 1 && lastLog.find("clipping") != std::string::npos, "%d warnings about clipping, expected exactly one", logged); }
            else if (!maybe) CHECK(logged == 0, "warned without clipping: %s", lastLog.c_str());
        }
        logged = 0;
        seq::exec();
    }
}
double edgeValue(const VSAudioFormat &f, int ch, int64_t p) {
    if (f.sampleType == stFloat) return content(f, 1, ch, p);
    if (f.bytesPerSample == 2 && f.bitsPerSample == 16 && p < 65536) return (double)((p + ch * 77) % 65536 - 32768);
    double st = stepOf(f), m = maxA(f) / st;
    const double e[] = {0, 1, -1, m, -m - 1, m - 1, -m, std::floor(m / 2), std::floor(m / 2) + 1, -std::floor(m / 2) - 1, 2, -2, 3, 5, -7, 100};
    return p % 3 == 0 ? content(f, 1, ch, p) : e[(p + ch) % 16] * st;
}
}
SEQ_CASE(audGain, "audio_gain", "C19", true, "every 16 bit sample value and boundary values of 17, 20, 24, 31, 32 bit and float samples, 14 gains, one or one per channel, clipping warnings and errors, invalid gain counts") {
    Session s;
    std::vector<VSAudioFormat> fs = {af(stInteger, 16, 3), af(stInteger, 17, 3), af(stInteger, 20, 0x13), af(stInteger, 24, 3), af(stInteger, 31, 1), af(stInteger, 32, 3), af(stFloat, 32, 7)};
    const double gains[] = {1, 0, -1, .5, -.5, 2, .7071, 1.0001, -1.5, 1e9, -1e9, 1e-9, .999999, 3};
    for (auto &f : fs)
        for (double g : gains)
            for (int per = 0; per < 3; per++) {
                if (!seq::item()) continue;
                Ref r{f, 48000, f.bitsPerSample == 16 ? 65536 : 4000, [f](int ch, int64_t p) { return edgeValue(f, ch, p); }};
                N c = clipOf(r);
                std::vector<double> gs;
                for (int i = 0; i < (per ? f.numChannels : 1); i++) gs.push_back(per == 2 ? (i % 2 ? .25 : g) : g);
                cur("AudioGain %s gain=%g per channel=%d", aname(f).c_str(), g, per);
                Ref shape = r;
                checkQuantised([&](bool oe) { A a; a.n("clip", c).d("gain", gs); if (oe) a.i("overflow_error", 1); return call("AudioGain", a); }, shape,
                               [&](int ch, int64_t p) { double k = gs[gs.size() > 1 ? ch : 0]; return edgeValue(f, ch, p) * (f.sampleType == stFloat ? (float)k : k); }, s);
            }
    if (seq::item()) {
        N c = clipOf(ref(af(stInteger, 16, 7), 10));
        for (int k = 0; k <= 5; k++) {
            A a; a.n("clip", c);
            for (int i = 0; i < k; i++) a.d("gain", 1);
            cur("AudioGain with %d gains for 3 channels", k);
            expectErr(k == 1 || k == 3, call("AudioGain", a));
        }
        // a loud stretch in one frame only
        Ref r{af(stInteger, 16, 1), 48000, 3 * FS + 5, [](int, int64_t p) { return p == 2 * FS ? 20000. : 1.; }};
        N l = clipOf(r);
        cur("AudioGain with one clipping sample");
        checkQuantised([&](bool oe) { A a; a.n("clip", l).d("gain", 2).i("overflow_error", oe); return call("AudioGain", a); }, r, [&](int ch, int64_t p) { return r.w(ch, p) * 2; }, s);
    }
}
SEQ_CASE(audMix, "audio_mix", "C19", true, "1..3 input clips with 1..3 channels each, every selection and order of up to 3 of 5 output channels, 4 matrix families, 16, 24, 32 bit and float, clipping, invalid argument combinations") {
    Session s;
    std::vector<VSAudioFormat> base = {af(stInteger, 16, 1), af(stInteger, 24, 1), af(stInteger, 32, 1), af(stFloat, 32, 1)};
    const uint64_t lay[] = {4, 3, 0x15};
    const int outs[][3] = {{0, -1, -1}, {2, -1, -1}, {63, -1, -1}, {0, 1, -1}, {1, 0, -1}, {9, 2, -1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {40, 3, 17}, {5, 33, 4}};
    for (auto &b : base)
        for (int in = 0; in < 3 + 9 + (seq::thorough ? 27 : 9); in++)
            for (auto &o : outs)
                for (int m = 0; m < 4; m++) {
                    if (!seq::item()) continue;
                    std::vector<int> li;
                    if (in < 3) li = {in};
                    else if (in < 12) li = {(in - 3) % 3, (in - 3) / 3};
                    else { int k = in - 12; li = {k % 3, k / 3 % 3, (k / 9 + k) % 3}; }
                    std::vector<Ref> r;
                    A proto;
                    std::vector<std::pair<int, int>> src;
                    std::vector<N> clips;
                    for (size_t i = 0; i < li.size(); i++) {
                        VSAudioFormat f = af(b.sampleType, b.bitsPerSample, lay[li[i]]);
                        r.push_back(Ref{f, 44100, 3080, [f, i](int ch, int64_t p) { return p % 5 ? content(f, (int)i, ch, p) : edgeValue(f, ch + (int)i, p); }});
                        clips.push_back(clipOf(r[i]));
                        for (int ch = 0; ch < f.numChannels; ch++) src.push_back({(int)i, ch});
                    }
                    std::vector<int> oc;
                    for (int c : o) if (c >= 0) oc.push_back(c);
                    std::vector<double> mat;
                    for (size_t j = 0; j < oc.size(); j++)
                        for (size_t i = 0; i < src.size(); i++)
                            mat.push_back(m == 0 ? (i % oc.size() == j) : m == 1 ? 1.0 / (i + j + 2) / src.size() : m == 2 ? ((i + 2 * j) % 3 ? .25 : -.5) : (i == j ? 1.5 : -.125));
                    uint64_t layout = 0;
                    for (int c : oc) layout |= bit(c);
                    Ref shape = r[0];
                    shape.f = af(b.sampleType, b.bitsPerSample, layout);
                    shape.tol = 1e-6;
                    std::vector<int> sorted = oc;
                    std::sort(sorted.begin(), sorted.end());
                    std::string d;
                    for (int c : oc) d += std::to_string(c) + " ";
                    cur("AudioMix %s inputs %d channels_out %smatrix %d", aname(b).c_str(), in, d.c_str(), m);
                    checkQuantised([&](bool oe) {
                        A a;
                        for (auto &c : clips) a.n("clips", c);
                        a.d("matrix", mat).i("channels_out", oc);
                        if (oe) a.i("overflow_error", 1);
                        return call("AudioMix", a);
                    }, shape, [&](int ch, int64_t p) {
                        // the matrix rows are in the order of channels_out
                        size_t row = std::find(oc.begin(), oc.end(), sorted[ch]) - oc.begin();
                        double t = 0;
                        for (size_t i = 0; i < src.size(); i++) t += mat[row * src.size() + i] * r[src[i].first].w(src[i].second, p);
                        return t;
                    }, s);
                }
    if (seq::item()) {
        VSAudioFormat f = af(stInteger, 16, 3);
        N c = clipOf(ref(f, 100));
        auto run = [&](bool ok, const char *what, std::vector<N> clips, std::vector<double> m, std::vector<int> o) {
            A a;
            for (auto &x : clips) a.n("clips", x);
            a.d("matrix", m).i("channels_out", o);
            cur("AudioMix: %s", what);
            expectErr(ok, call("AudioMix", a));
        };
        for (int k = 1; k <= 9; k++) run(k == 4, "number of weights", {c}, std::vector<double>(k, .1), {0, 1});
        for (int ch : {-1, 64, 100, INT_MIN, INT_MAX}) run(false, "channel number", {c}, {1, 0}, {ch});
        run(true, "channel number", {c}, {1, 0}, {63});
        run(false, "channel twice", {c}, {1, 0, 0, 1}, {1, 1});
        for (auto &x : {ref(f, 101), ref(f, 99), ref(f, 100, 0, 48000), ref(af(stInteger, 24, 3), 100), ref(af(stFloat, 32, 3), 100), ref(af(stInteger, 32, 3), 100)}) run(false, "mismatching clips", {c, clipOf(x)}, {1, 0, 0, 1}, {0});
        run(true, "other layout", {c, clipOf(ref(af(stInteger, 16, 0x30), 100))}, {1, 0, 0, 1}, {0});
    }
}
SEQ_CASE(audShuffle, "audio_shuffle", "C19", true, "1..3 clips of different lengths and layouts, every selection of 1 or 2 input channels by constant and by negative index (absent ones included), output channel orders, zero extension, invalid arguments; SplitChannels of 9 layouts") {
    Session s;
    const uint64_t lays[] = {1, 2, 3, 0xc, 0x8000000000000001ull, 0x113, 1ull << 63};
    const int64_t lens[] = {5, 3072, 3073, 7000};
    auto resolve = [](const VSAudioFormat &f, int ch) {
        if (ch < 0) return -ch - 1 < f.numChannels ? -ch - 1 : -1;
        if (ch == 0) return 0;
        if (ch > 63 || !(f.channelLayout & bit(ch))) return -1;
        return __builtin_popcountll(f.channelLayout & (bit(ch) - 1));
    };
    auto run = [&](const std::vector<Ref> &r, const std::vector<int> &ci, const std::vector<int> &co) {
        A a;
        std::vector<N> clips;
        std::string d;
        for (auto &x : r) { clips.push_back(clipOf(x)); a.n("clips", clips.back()); d += aname(x.f) + ":" + std::to_string(x.len) + " "; }
        a.i("channels_in", ci).i("channels_out", co);
        d += "in";
        for (int c : ci) d += " " + std::to_string(c);
        d += " out";
        for (int c : co) d += " " + std::to_string(c);
        cur("ShuffleChannels %s", d.c_str());
        bool ok = ci.size() == co.size() && r.size() <= ci.size();
        uint64_t layout = 0;
        std::vector<std::array<int, 3>> m;          // out channel, clip, index
        int64_t len = 0;
        for (size_t i = 0; ok && i < ci.size(); i++) {
            size_t k = std::min(i, r.size() - 1);
            if (co[i] < 0 || co[i] > 63 || (layout & bit(co[i]))) { ok = false; break; }
            layout |= bit(co[i]);
            int x = resolve(r[k].f, ci[i]);
            if (x < 0) { ok = false; break; }
            len = std::max(len, r[k].len);
            m.push_back({co[i], (int)k, x});
            if (r[k].rate != r[0].rate || r[k].f.bitsPerSample != r[0].f.bitsPerSample || r[k].f.sampleType != r[0].f.sampleType) ok = false;
        }
        R q = expectErr(ok, call("ShuffleChannels", a));
        if (!ok) return;
        std::sort(m.begin(), m.end());
        Ref e = r[0];
        e.f = af(r[0].f.sampleType, r[0].f.bitsPerSample, layout);
        e.len = len;
        e.w = [r, m](int ch, int64_t p) { const Ref &c = r[m[ch][1]]; return p < c.len ? c.w(m[ch][2], p) : 0.; };
        checkClip(q.node, e, ci.size() & 1);
    };
    const int chans[] = {0, 1, 2, 3, 4, 8, 63, -1, -2, -3, -5, -64, -65, 64, INT_MIN, INT_MAX};
    for (uint64_t l : lays)
        for (int st = 0; st < 2; st++)
            for (int c : chans)
                for (int o : {0, 5, 63, -1, 64, INT_MIN})
                    if (seq::item()) run({ref(af(st ? stFloat : stInteger, 32, l), 3100)}, {c}, {o});
    for (int l1 = 0; l1 < 4; l1++)
        for (int l2 = 0; l2 < 4; l2++)
            for (int n1 = 0; n1 < 4; n1++)
                for (int n2 = 0; n2 < 4; n2++)
                    for (int k = 0; k < 4; k++) {
                        if (!seq::item()) continue;
                        std::vector<Ref> r = {ref(af(stInteger, 16, lays[l1]), lens[n1], 1), ref(af(stInteger, 16, lays[l2]), lens[n2], 2)};
                        run(r, {k & 1 ? -1 : 0, k & 1 ? 1 : -1}, k & 2 ? std::vector<int>{4, 1} : std::vector<int>{0, 1});
                        run(r, {-1, 0, -2}, {7, 2, 40});
                        run({r[0]}, {0, -1, 0}, {1, 0, 2});
                    }
    for (int n = 0; n < 64; n++) {
        if (!seq::item()) continue;
        std::vector<Ref> r;
        for (int i = 0; i < 3; i++) r.push_back(ref(af(stFloat, 32, 3), lens[n >> (2 * i) & 3], i));
        run(r, {1, 0, -1}, {2, 0, 1});
        run(r, {1, 0}, {2, 0});
        run(r, {1, 0, -1}, {2, 0});
        run(r, {1, 0, -1}, {2, 0, 2});
        r[1] = ref(n & 1 ? af(stInteger, 32, 3) : af(stFloat, 32, 3), 100, 1, n & 1 ? 44100 : 22050);
        run(r, {1, 0, -1}, {2, 0, 1});
    }
    for (uint64_t l : {1ull, 2ull, 3ull, 6ull, 0x8000000000000001ull, 0x60full, 1ull << 63, 0xfc000000000ull, ~0ull})
        for (int64_t L : {7, 3073}) {
            if (!seq::item()) continue;
            Ref r = ref(af(stInteger, 24, l), L);
            N c = clipOf(r);
            cur("SplitChannels %s %lld samples", aname(r.f).c_str(), (long long)L);
            VSMap *m = api->createMap();
            api->mapSetNode(m, "clip", c.p, maReplace);
            VSMap *o = api->invoke(api->getPluginByID("com.vapoursynth.std", core), "SplitChannels", m);
            CHECK(!api->mapGetError(o), "rejected: %s", api->mapGetError(o));
            CHECK(api->mapNumElements(o, "clip") == r.f.numChannels, "%d clips for %d channels", api->mapNumElements(o, "clip"), r.f.numChannels);
            int idx = 0;
            for (int ch = 0; ch < 64; ch++) {
                if (!(l & bit(ch))) continue;
                Ref e = r;
                e.f = af(stInteger, 24, bit(ch));
                e.w = [r, idx](int, int64_t p) { return r.w(idx, p); };
                checkClip(N(api->mapGetNode(o, "clip", idx, nullptr)), e);
                idx++;
            }
            api->freeMap(o);
            api->freeMap(m);
        }
}
SEQ_CASE(audBlank, "audio_blank", "C19", true, "BlankAudio: every argument from valid and invalid values, alone and combined with a template clip; kept frames for 12 lengths and 4 request orders; 5 waveforms, 12 frequencies, 6 amplitudes, 5 sample formats against the formula; AssumeSampleRate arguments") {
    Session s;
    const int64_t M = (int64_t)INT_MAX * FS;
    VSAudioFormat def = af(stInteger, 16, 3);
    Wave zero = [](int, int64_t) { return 0.; };
    for (int tmpl = 0; tmpl < 2; tmpl++)
        for (int which = 0; which < 64; which++) {
            if (!seq::item()) continue;
            Ref e{def, 44100, 441000, zero};
            A a;
            if (tmpl) { e = {af(stFloat, 32, 0x16), 8000, 4000, zero}; a.n("clip", clipOf(ref(e.f, e.len, 0, e.rate))); }
            int st = e.f.sampleType, bits = e.f.bitsPerSample;
            uint64_t lay = e.f.channelLayout;
            if (which & 1) { a.i("channels", std::vector<int>{63, 0, 7}); lay = bit(63) | 1 | bit(7); }
            if (which & 2) { a.i("bits", 24); bits = 24; }
            if (which & 4) { a.i("sampletype", tmpl ? 0 : 1); st = tmpl ? stInteger : stFloat; }
            if (which & 8) { a.i("samplerate", 9000); e.rate = 9000; if (!tmpl) e.len = 90000; }
            if (which & 16) { a.i("length", 5555); e.len = 5555; }
            if (which & 32) a.i("keep", 1);
            cur("BlankAudio template=%d arguments=%d", tmpl, which);
            bool ok = st == stFloat ? bits == 32 : true;
            R q = expectErr(ok, call("BlankAudio", a));
            if (!ok) continue;
            e.f = af(st, bits, lay);
            checkClip(q.node, e);
        }
    auto arg = [&](bool ok, const char *k, int64_t v) {
        cur("BlankAudio %s=%lld", k, (long long)v);
        R q = expectErr(ok, call("BlankAudio", A().i(k, v)));
        if (ok && strcmp(k, "length") == 0) { Ref e{def, 44100, v, zero}; checkInfo(q.node, e); checkFrame(q.node, e, 0); checkFrame(q.node, e, q.node.ai().numFrames - 1); }
    };
    if (seq::item()) {
        for (int64_t v : {I64MIN, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)3072, M, M + 1, I64MAX}) arg(v > 0 && v <= M, "length", v);
        for (int64_t v : {I64MIN, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)INT_MAX, (int64_t)192000}) arg(v > 0, "samplerate", v);
        for (int v = 0; v <= 64; v++) arg(v >= 16 && v <= 32, "bits", v);
        for (int v : {-1, -2, 64, 65, INT_MAX, INT_MIN}) arg(false, "channels", v);
        for (int v = 0; v < 64; v++) arg(true, "channels", v);
        cur("BlankAudio channel twice");
        expectErr(false, call("BlankAudio", A().i("channels", std::vector<int>{1, 2, 1})));
        for (auto w : {"none", "slope", "sine", "square", "triangle"}) expectErr(true, call("BlankAudio", A().s("waveform", w)));
        for (auto w : {"", "Sine", "sin", "noise", "slope "}) expectErr(false, call("BlankAudio", A().s("waveform", w)));
        for (double v : {(double)INFINITY, -(double)INFINITY, (double)NAN}) { expectErr(false, call("BlankAudio", A().d("amplitude", v))); expectErr(false, call("BlankAudio", A().d("frequency", v))); }
        N t = clipOf(ref(def, 7000));
        for (int64_t v : {I64MIN, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)48000, (int64_t)INT_MAX}) {
            cur("AssumeSampleRate samplerate=%lld", (long long)v);
            R q = expectErr(v > 0, call("AssumeSampleRate", A().n("clip", t).i("samplerate", v)));
            if (v > 0) { Ref e = ref(def, 7000); e.rate = (int)v; checkClip(q.node, e); }
            expectErr(false, call("AssumeSampleRate", A().n("clip", t).n("src", t).i("samplerate", v)));
        }
        Ref e = ref(def, 7000); e.rate = 12345;
        checkClip(expectErr(true, call("AssumeSampleRate", A().n("clip", t).n("src", clipOf(ref(af(stFloat, 32, 4), 9, 0, 12345))))).node, e);
        expectErr(false, call("AssumeSampleRate", A().n("clip", t)));
    }
    for (int64_t L : {1, 3071, 3072, 3073, 6143, 6144, 6145, 9216, 9217, 12000, 30720, 30721})
        for (int order = 0; order < 4; order++)
            for (int keep = 0; keep < 2; keep++) {
                if (!seq::item()) continue;
                Ref e{def, 44100, L, zero};
                cur("BlankAudio length=%lld keep=%d request order %d", (long long)L, keep, order);
                R q = expectErr(true, call("BlankAudio", A().i("length", L).i("keep", keep)));
                checkInfo(q.node, e);
                int nf = q.node.ai().numFrames;
                for (int i = 0; i < nf; i++) checkFrame(q.node, e, order == 0 ? i : order == 1 ? nf - 1 - i : order == 2 ? (i * 7 + nf / 2) % nf : (i + nf - 1) % nf);
            }
    const double freqs[] = {440, 0, 1, 11025, 22050, 44100, 44101, 50000.5, -440, 3.3, 1e-3, 88200};
    const double amps[] = {1, .5, 0, -1, 2, .999};
    const std::vector<VSAudioFormat> fs = {def, af(stInteger, 24, 1), af(stInteger, 32, 4), af(stFloat, 32, 3), af(stInteger, 20, 5)};
    const char *wf[] = {"none", "slope", "sine", "square", "triangle"};
    for (auto &f : fs)
        for (int w = 0; w < 5; w++)
            for (double fr : freqs)
                for (double am : amps) {
                    if (!seq::item()) continue;
                    int64_t L = 2 * FS + 100;
                    cur("BlankAudio %s %s frequency=%g amplitude=%g", aname(f).c_str(), wf[w], fr, am);
                    A a;
                    std::vector<int> ch;
                    for (int c = 0; c < 64; c++) if (f.channelLayout & bit(c)) ch.push_back(c);
                    a.i("channels", ch).i("bits", f.bitsPerSample).i("sampletype", f.sampleType).i("length", L).s("waveform", wf[w]).d("frequency", fr).d("amplitude", am).i("keep", 1);
                    R q = expectErr(true, call("BlankAudio", a));
                    Ref e{f, 44100, L, zero};
                    checkInfo(q.node, e);
                    for (int n = 2; n >= 0; n--) {
                        F g = get(q.node, n);
                        CHECK(g && api->getFrameLength(g.p) == (n == 2 ? 100 : FS), "frame %d is missing or has the wrong length", n);
                        for (int c = 0; c < f.numChannels; c++)
                            for (int i = 0; i < api->getFrameLength(g.p); i++) {
                                int64_t pos = (int64_t)n * FS + i;
                                double v = sampleOf(api->getReadPtr(g.p, c), i, f);
                                long double cyc = (long double)fr * pos / 44100, t = cyc - floorl(cyc);
                                auto value = [&](double t) {
                                    switch (w) {
                                        case 1: return 2 * t - 1;
                                        case 2: return std::sin(2 * M_PI * t);
                                        case 3: return t < .5 ? 1. : -1.;
                                        case 4: return t < .25 ? 4 * t : t < .75 ? 2 - 4 * t : 4 * t - 4;
                                    }
                                    return 0.;
                                };
                                // the phase may be off by rounding: accept both sides of a jump
                                bool ok = false;
                                for (double dt : {0., 1e-9, -1e-9}) {
                                    double tt = (double)t + dt; tt -= std::floor(tt);
                                    double x = am * value(tt);
                                    if (f.sampleType == stFloat) ok |= std::fabs(v - x) <= 1e-6;
                                    else { double sc = std::ldexp(1., f.bitsPerSample - 1), st = stepOf(f), y = std::clamp(x * sc, -sc, sc - 1); ok |= std::fabs(v / st - y) <= .51 + sc * 1e-7 && v >= minA(f) && v <= maxA(f) && std::fmod(v, st) == 0; }
                                }
                                if (!ok) seq::fail("sample %lld of channel %d is %.9g, expected about %.9g of full scale", (long long)pos, c, v, am * value((double)t));
                            }
                        seq::step((uint64_t)f.numChannels * api->getFrameLength(g.p));
                    }
                    seq::exec();
                }
}

// ------------------------------------------------------------------------------------------------ AudioResample (C25)
namespace {
double norm(double v, const VSAudioFormat &f) { return f.sampleType == stFloat ? v : v / std::ldexp(1., f.bytesPerSample * 8 - 1); }
double denorm(double v, const VSAudioFormat &f) { return f.sampleType == stFloat ? v : v * std::ldexp(1., f.bytesPerSample * 8 - 1); }
struct Tol { Tol(double noise, double rel) { g_noise = noise; g_rel = rel; } ~Tol() { g_noise = 0; g_rel = 1e-12; } };
const char *const DITHER[] = {nullptr, "none", "rectangular", "triangular"};
// the same frames whatever the order of the requests
void sameBackwards(const std::function<R()> &make) {
    R a = make(), b = make();
    CHECK(a.ok() && b.ok(), "rejected: %s", a.err.c_str());
    int nf = a.node.ai().numFrames, B = a.node.ai().format.bytesPerSample;
    std::vector<F> fa, fb(nf);
    for (int i = 0; i < nf; i++) fa.push_back(get(a.node, i));
    for (int i = nf; i--;) fb[i] = get(b.node, i);
    for (int i = 0; i < nf; i++) {
        CHECK(fa[i] && fb[i] && api->getFrameLength(fa[i].p) == api->getFrameLength(fb[i].p), "frame %d differs when frames are requested backwards", i);
        for (int ch = 0; ch < a.node.ai().format.numChannels; ch++)
            CHECK(!memcmp(api->getReadPtr(fa[i].p, ch), api->getReadPtr(fb[i].p, ch), (size_t)api->getFrameLength(fa[i].p) * B), "frame %d differs when frames are requested backwards", i);
    }
    seq::step(nf); seq::exec();
}
std::vector<double> samples(const N &n, int ch) {
    std::vector<double> v;
    VSAudioFormat f = n.ai().format;
    for (int i = 0; i < n.ai().numFrames; i++) {
        std::string err;
        F fr = get(n, i, &err);
        CHECK(fr, "frame %d: %s", i, err.c_str());
        int len = (int)std::min<int64_t>(FS, n.ai().numSamples - (int64_t)i * FS);
        CHECK(api->getFrameLength(fr.p) == len, "frame %d has %d samples, expected %d", i, api->getFrameLength(fr.p), len);
        for (int k = 0; k < len; k++) v.push_back(sampleOf(api->getReadPtr(fr.p, ch), k, f));
    }
    seq::step(v.size());
    return v;
}
}
SEQ_CASE(resFormat, "resample_formats", "C25", true, "every pair of 9 integer depths and float, every dither type: all 16 bit values, boundary values and out of range floats; overflow errors, request order") {
    Session s;
    std::vector<VSAudioFormat> fs;
    for (int b : {16, 17, 18, 20, 23, 24, 25, 31, 32}) fs.push_back(af(stInteger, b, 3));
    fs.push_back(af(stFloat, 32, 3));
    for (auto &sf : fs) for (auto &df : fs) for (int di = 0; di < 4; di++) {
        if (!seq::item()) continue;
        if (sf.sampleType == df.sampleType && sf.bitsPerSample == df.bitsPerSample && di > 1) continue;
        Ref r{sf, 44100, sf.bitsPerSample == 16 ? 65536 : 7000, [sf](int ch, int64_t p) {
            if (sf.sampleType == stInteger) return edgeValue(sf, ch, p);
            const double e[] = {0, 1, -1, .5, -.5, .25, .999969482421875, -1.5, 1.0001, 1e-6, -1e-6, 2};
            return p % 3 ? (double)(float)e[(p + ch) % 12] : content(sf, 1, ch, p);
        }};
        N c = clipOf(r);
        cur("AudioResample %s to %s dither %s", aname(sf).c_str(), aname(df).c_str(), DITHER[di] ? DITHER[di] : "default");
        bool narrower = df.sampleType == stInteger && (sf.sampleType == stFloat || sf.bitsPerSample > df.bitsPerSample);
        Tol t(!narrower || di == 1 ? 0 : di == 2 ? .5 : 1, 1e-12);
        Ref shape = r; shape.f = df; shape.w = nullptr;
        auto make = [&](bool oe) {
            A a; a.n("clip", c).i("sampletype", df.sampleType == stFloat);
            if (df.sampleType == stInteger) a.i("bits", df.bitsPerSample);
            if (DITHER[di]) a.s("dither_type", DITHER[di]);
            if (oe) a.i("overflow_error", 1);
            return call("AudioResample", a);
        };
        checkQuantised(make, shape, [&](int ch, int64_t p) { return denorm(norm(r.w(ch, p), sf), df); }, s);
        if (narrower && di != 1) {
            logged = 0; sameBackwards([&] { return make(false); }); logged = 0; s.warn = true;
            // dither has to decide both ways between two steps
            Ref h{sf, 44100, 4000, [sf, df](int, int64_t) { return sf.sampleType == stFloat ? std::ldexp(.5, 1 - df.bitsPerSample) : std::ldexp(stepOf(sf), sf.bitsPerSample - df.bitsPerSample - 1); }};
            if (sf.bytesPerSample == 2 && df.bytesPerSample == 2) continue;
            N hc = clipOf(h);
            A a; a.n("clip", hc).i("sampletype", 0).i("bits", df.bitsPerSample);
            if (DITHER[di]) a.s("dither_type", DITHER[di]);
            R q = call("AudioResample", a);
            CHECK(q.ok(), "rejected: %s", q.err.c_str());
            for (int ch = 0; ch < 2; ch++) {
                int up = 0; double sum = 0;
                auto v = samples(q.node, ch);
                for (double x : v) { sum += x / stepOf(df); up += x > 0; }
                CHECK(up > 1000 && up < 3000, "a constant half a step is dithered upwards %d times of 4000", up);
            }
        }
        seq::state(seq::mix(sf.bitsPerSample * 64 + df.bitsPerSample, di * 4 + sf.sampleType * 2 + df.sampleType));
    }
}
namespace {
enum { FL, FRr, FC, LFE, BL, BR, FLOC, FROC, BC, SL, SR, TC, TFL, TFC, TFR, TBL, TBC, TBR };
// documented weight of an input channel in an output channel; -1: not specified
double weightOf(int in, int out, uint64_t lin, uint64_t lout) {
    auto has = [&](int c) { return (lout >> c) & 1; };
    const double h = std::sqrt(.5);
    if (has(in)) return in == out;
    auto ground = [](int c) { return c == TFL ? FL : c == TFR ? FRr : c == TFC ? FC : c == TC ? FC : c == TBL ? BL : c == TBR ? BR : c == TBC ? BC : c; };
    int g = ground(in);
    if (g != in && has(g)) return g == out;
    switch (g) {
    case FC:
        if (has(FL) && has(FRr)) return out == FL || out == FRr ? h : 0;
        break;
    case FL: case FRr:
        if (has(FC) && !has(FL) && !has(FRr)) return out == FC ? h : 0;
        break;
    case BL: case SL: case BR: case SR: {
        int alt = g == BL ? SL : g == SL ? BL : g == BR ? SR : BR, front = g == BL || g == SL ? FL : FRr;
        if (has(alt)) return out == alt;
        if (has(front)) return out == front ? h : 0;
        break;
    }
    case LFE:
        if (!has(35)) return 0;
        break;
    default: break;
    }
    return -1;
}
}
SEQ_CASE(resMix, "resample_channels", "C25", true, "every pair of 20 channel layouts: the weight of every input in every output channel, measured one input channel at a time, against the documented folding rules; normalisation on, off and default, silent channels, 16 bit, 32 bit and float") {
    Session s;
    std::vector<uint64_t> lay = {bit(FC), 3, 7, 3 | bit(LFE), 0x33, 0x37, 0x3f, 3 | bit(SL) | bit(SR), 7 | bit(SL) | bit(SR), 0xf | bit(SL) | bit(SR), 0x3f | bit(SL) | bit(SR), 3 | bit(BC), 7 | bit(BC), 0xf | bit(BC) | bit(SL) | bit(SR),
        bit(FL), bit(FRr), 3 | bit(TFL) | bit(TFR), 7 | bit(TC), bit(LFE), 0x3f | bit(TBL) | bit(TBR)};
    for (uint64_t li : lay) for (uint64_t lo : lay) {
        if (li == lo || !seq::item()) continue;
        std::vector<int> ci, co;
        for (int i = 0; i < 64; i++) { if ((li >> i) & 1) ci.push_back(i); if ((lo >> i) & 1) co.push_back(i); }
        // measured weights without normalisation
        std::vector<std::vector<double>> w(co.size(), std::vector<double>(ci.size()));
        auto conv = [&](const N &c, int st, int bits, int normalize, const char *d) {
            A a; a.n("clip", c);
            for (int k : co) a.i("channels", k);
            a.i("sampletype", st).i("bits", bits).s("dither_type", d);
            if (normalize >= 0) a.i("normalize", normalize);
            R q = call("AudioResample", a);
            CHECK(q.ok(), "rejected: %s", q.err.c_str());
            VSAudioFormat f = af(st, bits, lo);
            checkInfo(q.node, Ref{f, 44100, c.ai().numSamples, nullptr});
            return q.node;
        };
        for (size_t i = 0; i < ci.size(); i++) {
            cur("AudioResample layout %llx to %llx, channel %d", (unsigned long long)li, (unsigned long long)lo, ci[i]);
            VSAudioFormat f = af(stFloat, 32, li);
            N c = clipOf(Ref{f, 44100, FS + 5, [i](int ch, int64_t p) { return ch == (int)i ? 1. + (p % 2) : 0.; }});
            N q = conv(c, stFloat, 32, 0, "triangular");
            for (size_t o = 0; o < co.size(); o++) {
                auto v = samples(q, (int)o);
                w[o][i] = v[0];
                for (size_t p = 0; p < v.size(); p++) CHECK(std::fabs(v[p] - v[0] * (1 + (double)(p % 2))) < 1e-6, "sample %zu of channel %d is %g", p, co[o], v[p]);
                double e = weightOf(ci[i], co[o], li, lo);
                CHECK(e < 0 || std::fabs(v[0] - e) < 1e-6, "input channel %d contributes %g to output channel %d, expected %g", ci[i], v[0], co[o], e);
                CHECK(v[0] >= 0 && v[0] < 1.0001, "input channel %d contributes %g to output channel %d", ci[i], v[0], co[o]);
            }
            seq::exec();
        }
        double peak = 1;
        for (auto &row : w) { double t = 0; for (double x : row) t += x; peak = std::max(peak, t); }
        cur("AudioResample layout %llx to %llx, mix", (unsigned long long)li, (unsigned long long)lo);
        for (int fmtc = 0; fmtc < 3; fmtc++) for (int nm = -1; nm < 2; nm++) {
            VSAudioFormat f = fmtc == 0 ? af(stInteger, 16, li) : fmtc == 1 ? af(stInteger, 32, li) : af(stFloat, 32, li), g = af(f.sampleType, f.bitsPerSample, lo);
            Ref r{f, 44100, 700, [f](int ch, int64_t p) { return content(f, 3, ch, p) * (f.sampleType == stFloat ? 1 : 1); }};
            N c = clipOf(r);
            bool on = nm < 0 ? f.sampleType == stInteger : nm;
            double scale = on ? 1 / peak : 1;
            N q = conv(c, f.sampleType, f.bitsPerSample, nm, "none");
            Tol t(f.bitsPerSample == 32 && f.sampleType == stInteger ? 2000 : .01, 1e-6);
            for (size_t o = 0; o < co.size(); o++) {
                auto v = samples(q, (int)o);
                for (size_t p = 0; p < v.size(); p++) {
                    double e = 0;
                    for (size_t i = 0; i < ci.size(); i++) e += w[o][i] * scale * norm(r.w((int)i, p), f);
                    if (g.sampleType == stInteger) { Q z = quant(denorm(e, g), g); CHECK(v[p] >= z.lo && v[p] <= z.hi, "sample %zu of channel %d is %g, expected %g", p, co[o], v[p], denorm(e, g)); CHECK(!on || z.clip < 2, "clips although normalised"); }
                    else CHECK(std::fabs(v[p] - e) < 2e-6, "sample %zu of channel %d is %g, expected %g", p, co[o], v[p], e);
                }
            }
            if (on && logged) seq::fail("clipping reported although the matrix is normalised: %s", lastLog.c_str());
            logged = 0;
            seq::exec();
        }
        // outputs nothing feeds stay digital silence even when dithering
        {
            N c = clipOf(Ref{af(stInteger, 16, li), 44100, 300, [](int, int64_t) { return 0.; }});
            N q = conv(c, stInteger, 16, -1, "triangular");
            for (size_t o = 0; o < co.size(); o++) {
                bool fed = false;
                for (double x : w[o]) fed |= x != 0;
                if (!fed) for (double x : samples(q, (int)o)) CHECK(x == 0, "an output channel nothing feeds is not silent");
            }
        }
        seq::state(seq::mix(li, lo));
    }
}
SEQ_CASE(resRate, "resample_rates", "C25", true, "16 rate pairs, 8 clip lengths: output length; constants and sines in the pass band come out as the same signal at the new rate, sines above the lower Nyquist frequency vanish; the result doesn't depend on the position of frame boundaries (clip shifted by whole filter periods) nor on the request order") {
    Session s;
    const int rates[][2] = {{44100, 48000}, {48000, 44100}, {44100, 88200}, {48000, 24000}, {48000, 32000}, {8000, 44100}, {44100, 8000}, {11025, 48000}, {96000, 44100}, {1, 2}, {2, 1}, {3, 2}, {2, 3}, {7, 5}, {44100, 44100 * 3}, {48000, 1000}};
    for (auto &rt : rates) {
        int in = rt[0], out = rt[1];
        int64_t a = in, b = out; while (b) { int64_t t = a % b; a = b; b = t; }
        int64_t p = out / a, q = in / a;
        const VSAudioFormat f = af(stFloat, 32, 3);
        auto conv = [&](const N &c) {
            R r = call("AudioResample", A().n("clip", c).i("samplerate", out));
            CHECK(r.ok(), "rejected: %s", r.err.c_str());
            return r.node;
        };
        for (int64_t L : {(int64_t)1, (int64_t)2, (int64_t)100, (int64_t)3071, (int64_t)3072, (int64_t)3073, (int64_t)6145, q * 10}) {
            if (!seq::item()) continue;
            cur("AudioResample %d to %d, %lld samples", in, out, (long long)L);
            N c = clipOf(ref(f, L, 1, in));
            N n = conv(c);
            checkInfo(n, Ref{f, out, (L * p + q - 1) / q, nullptr});
            auto v = samples(n, 1);
            for (double x : v) CHECK(std::fabs(x) < 4, "sample value %g", x);
            sameBackwards([&] { return call("AudioResample", A().n("clip", c).i("samplerate", out)); });
            seq::state(seq::mix(in * 100000ll + out, L));
        }
        // 30000 samples: silence, signal, silence
        const double lower = std::min(in, out);
        const int64_t L = std::max<int64_t>(30000, q * 4 + 24000);
        const int margin = 80 * std::max(1, in / std::max(1, out)) + 10;
        for (int k = 0; k < 9; k++) {
            if (!seq::item()) continue;
            double fr = k == 0 ? 0 : k < 6 ? lower * .5 * (.02 + .156 * (k - 1)) : lower * .5 * (1 + .31 * (k - 6));
            bool pass = k < 6;
            if (!pass && fr >= in * .5) continue;
            cur("AudioResample %d to %d, %s at %g Hz", in, out, k ? "sine" : "constant", fr);
            Wave w = [=](int ch, int64_t n) { return k ? std::sin(2 * M_PI * std::fmod(fr * n / in, 1.) + ch) * .5 : .5; };
            N n = conv(clipOf(Ref{f, in, L, w}));
            for (int ch = 0; ch < 2; ch++) {
                auto v = samples(n, ch);
                for (size_t m = 0; m < v.size(); m++) {
                    double pos = (double)m * q / p;
                    if (pos < margin || pos > L - margin) continue;
                    double e = !pass ? 0 : k ? std::sin(2 * M_PI * std::fmod(fr * pos / in, 1.) + ch) * .5 : .5;
                    CHECK(std::fabs(v[m] - e) < 2e-4, "sample %zu is %g, expected %g", m, v[m], e);
                }
            }
            seq::exec();
        }
        for (int64_t shift : {(int64_t)1, (int64_t)7, (int64_t)(1500 / q)}) {
            if (!seq::item() || shift < 1) continue;
            cur("AudioResample %d to %d, shifted by %lld periods", in, out, (long long)shift);
            int64_t S = std::max<int64_t>(shift * q, 0) + margin;
            Wave w = [=](int ch, int64_t n) { return n < S || n >= S + 9000 ? 0. : content(f, 2, ch, n); };
            N c = clipOf(Ref{f, in, S + 9000 + margin, w});
            N t = call("AudioTrim", A().n("clip", c).i("first", shift * q)).node;
            N x = conv(c), y = conv(t);
            for (int ch = 0; ch < 2; ch++) {
                auto vx = samples(x, ch), vy = samples(y, ch);
                CHECK(vx.size() == vy.size() + shift * p, "the shifted clip has %zu samples instead of %zu", vy.size(), (size_t)(vx.size() - shift * p));
                for (size_t m = 0; m < vy.size(); m++)
                    CHECK(vx[m + shift * p] == vy[m], "sample %zu changes from %.9g to %.9g when the clip is shifted by whole periods", m, vx[m + shift * p], vy[m]);
            }
            seq::exec();
        }
        // several steps at once and an integer destination
        if (seq::item()) {
            cur("AudioResample %d to %d with channels and format", in, out);
            N c = clipOf(ref(af(stInteger, 24, 7), 9000, 5, in));
            R fl = call("AudioResample", A().n("clip", c).i("samplerate", out).i("channels", std::vector<int>{FL, FRr}).i("sampletype", 1).i("normalize", 1));
            R it = call("AudioResample", A().n("clip", c).i("samplerate", out).i("channels", std::vector<int>{FRr, FL}).i("bits", 16).s("dither_type", "none"));
            CHECK(fl.ok() && it.ok(), "rejected: %s", (fl.err + it.err).c_str());
            VSAudioFormat g = af(stInteger, 16, 3);
            Tol t(.01, 1e-6);
            for (int ch = 0; ch < 2; ch++) {
                auto a1 = samples(fl.node, ch), b1 = samples(it.node, ch);
                CHECK(a1.size() == b1.size(), "lengths differ");
                for (size_t m = 0; m < a1.size(); m++) { Q z = quant(denorm(a1[m], g), g); CHECK(b1[m] >= z.lo && b1[m] <= z.hi, "sample %zu is %g, expected %g", m, b1[m], denorm(a1[m], g)); }
            }
            logged = 0;
            seq::exec();
        }
    }
    s.warn = true;
}
SEQ_CASE(resArgs, "resample_arguments", "C25", true, "every argument from valid and invalid values; conversions that change nothing return the clip itself") {
    Session s;
    const int64_t rates[] = {INT64_MIN, -1, 0, 1, 44100, 48000, 96001, INT_MAX, INT64_MAX};
    for (int64_t rate : rates) {
        if (!seq::item()) continue;
        N c = clipOf(ref(af(stInteger, 16, 3), 5000, 0, 48000));
        cur("AudioResample samplerate=%lld", (long long)rate);
        R r = call("AudioResample", A().n("clip", c).i("samplerate", rate));
        bool mustFail = rate < 1 || rate == 96001 || rate > 1000000000;
        bool mustWork = rate == 48000 || rate == 44100;
        CHECK(!(mustFail && r.ok()), "accepted");
        CHECK(!(mustWork && !r.ok()), "rejected: %s", r.err.c_str());
        seq::exec(); seq::step();
    }
    const std::vector<std::vector<int>> chans = {{0}, {0, 1}, {1, 0}, {0, 0}, {-1}, {64}, {63}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, {2, 0, 2}};
    for (auto &ch : chans) for (int st = -1; st < 3; st++) for (int bits : {-1, 0, 8, 15, 16, 17, 24, 31, 32, 33, 64}) for (const char *d : {"", "none", "rectangular", "triangular", "Triangular", "tri"}) {
        if (!seq::item()) continue;
        N c = clipOf(ref(af(stInteger, 16, 3), 100, 0, 48000));
        A a; a.n("clip", c).i("channels", ch);
        if (st >= 0) a.i("sampletype", st);
        if (bits >= 0) a.i("bits", bits);
        if (*d) a.s("dither_type", d);
        cur("AudioResample channels=%zu:%d sampletype=%d bits=%d dither=%s", ch.size(), ch[0], st, bits, d);
        bool ok = true, dup = false;
        std::set<int> seen;
        for (int x : ch) { ok &= x >= 0 && x < 64; dup |= !seen.insert(x).second; }
        int b = bits >= 0 ? bits : st > 0 ? 32 : 16;
        ok = ok && !dup && (st > 0 ? b == 32 : b >= 16 && b <= 32);
        std::string ds = d;
        ok = ok && (ds.empty() || ds == "none" || ds == "rectangular" || ds == "triangular");
        R r = expectErr(ok, call("AudioResample", a));
        if (!ok) continue;
        uint64_t lo = 0;
        for (int x : ch) lo |= bit(x);
        VSAudioFormat g = af(st > 0 ? stFloat : stInteger, b, lo);
        checkInfo(r.node, Ref{g, 48000, 100, nullptr});
        if (lo == 3 && st <= 0 && b == 16) checkClip(r.node, ref(g, 100, 0, 48000));
        else CHECK(get(r.node, 0), "the frame cannot be produced");
        logged = 0;
    }
    s.warn = true;
}
