// C26: no argument value makes a built-in function crash, corrupt memory, hang or leak. Built with address and
// undefined behaviour sanitizers. The functions and their arguments are taken from the registered signatures.
#include "vk.h"
#include "px.h"
#include <atomic>
#include <climits>
#include <cstdlib>
#include <limits>
#include <unistd.h>

using namespace vk;
using namespace seq;
namespace {
std::atomic<int> live;                        // instances of our own sources and functions
struct Clip { const char *name; VSVideoInfo vi; bool var; };
struct ClipI { VSVideoInfo vi; int var; };
const VSFrame *VS_CC clipGet(int n, int reason, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *a) {
    if (reason != arInitial)
        return nullptr;
    ClipI *d = static_cast<ClipI *>(inst);
    VSVideoFormat f = d->vi.format;
    int w = d->vi.width, h = d->vi.height;
    if (d->var) {                             // changes size and format from frame to frame
        static const uint32_t ids[] = { pfGray8, pfYUV420P8, pfRGB24, pfGrayS, pfYUV444P16 };
        if (d->var & 2) a->getVideoFormatByID(&f, ids[n % 5], c);
        if (d->var & 1) { w = 48 - 8 * (n % 3); h = 48 + 4 * (n % 2); }
    }
    VSFrame *fr = a->newVideoFrame(&f, w, h, nullptr, c);
    for (int p = 0; p < f.numPlanes; p++)
        for (int y = 0; y < a->getFrameHeight(fr, p); y++)
            for (int x = 0; x < a->getFrameWidth(fr, p); x++) {
                uint32_t r = rnd(x, y, p, n);
                double v = f.sampleType == stFloat ? (r & 1023) / 1023.0 - (p && f.colorFamily == cfYUV ? 0.5 : 0) : r >> (32 - f.bitsPerSample);
                putSample(a->getWritePtr(fr, p) + y * a->getStride(fr, p), x, f, v);
            }
    VSMap *m = a->getFramePropertiesRW(fr);
    a->mapSetInt(m, "_DurationNum", 1, maReplace);
    a->mapSetInt(m, "_DurationDen", 25, maReplace);
    a->mapSetInt(m, "_FieldBased", n % 3, maReplace);
    a->mapSetInt(m, "_Range", n & 1, maReplace);
    a->mapSetInt(m, "_SceneChangePrev", n == 2, maReplace);
    a->mapSetInt(m, "x", n, maReplace);
    a->mapSetFloat(m, "fl", 0.5 * n, maReplace);
    a->mapSetData(m, "d", "text", 4, dtUtf8, maReplace);
    if (!d->var) {
        VSFrame *inner = a->newVideoFrame(&f, 8, 8, nullptr, c);
        for (int p = 0; p < f.numPlanes; p++) memset(a->getWritePtr(inner, p), 0, a->getStride(inner, p) * a->getFrameHeight(inner, p));
        a->mapConsumeFrame(m, "_Alpha", inner, maReplace);
    }
    return fr;
}
void VS_CC clipFree(void *inst, VSCore *, const VSAPI *) { live--; delete static_cast<ClipI *>(inst); }
N clip(const VSVideoInfo &vi, int var = 0) {
    VSVideoInfo o = vi;
    if (var & 1) o.width = o.height = 0;
    if (var & 2) o.format = {};
    live++;
    VSNode *n = api->createVideoFilter2("Source", &o, clipGet, clipFree, fmParallel, nullptr, 0, new ClipI{ vi, var }, core);
    CHECK(n, "internal: source");
    api->setCacheMode(n, cmForceDisable);
    return N(n);
}
struct AudI { VSAudioInfo ai; };
N audio(int st, int bits, uint64_t layout, int64_t len) {
    AudI *d = new AudI;
    CHECK(api->queryAudioFormat(&d->ai.format, st, bits, layout, core), "internal: audio format");
    d->ai.sampleRate = 44100; d->ai.numSamples = len; d->ai.numFrames = 0;
    live++;
    VSNode *n = api->createAudioFilter2("Source", &d->ai, [](int n, int reason, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *a) -> const VSFrame * {
        if (reason != arInitial) return nullptr;
        AudI *d = static_cast<AudI *>(inst);
        int s = (int)std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, d->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES);
        VSFrame *f = a->newAudioFrame(&d->ai.format, s, nullptr, c);
        for (int ch = 0; ch < d->ai.format.numChannels; ch++)
            for (int i = 0; i < s; i++) {
                uint32_t r = rnd(i, ch, n);
                uint8_t *p = a->getWritePtr(f, ch);
                if (d->ai.format.sampleType == stFloat) reinterpret_cast<float *>(p)[i] = (int)(r >> 16) / 32768.0f - 1;
                else if (d->ai.format.bytesPerSample == 2) reinterpret_cast<uint16_t *>(p)[i] = r;
                else reinterpret_cast<uint32_t *>(p)[i] = r & (~0u << (32 - d->ai.format.bitsPerSample));
            }
        return f;
    }, [](void *inst, VSCore *, const VSAPI *) { live--; delete static_cast<AudI *>(inst); }, fmParallel, nullptr, 0, d, core);
    CHECK(n, "internal: audio source");
    api->setCacheMode(n, cmForceDisable);
    return N(n);
}

struct World {                                // everything arguments refer to; rebuilt when something has leaked
    std::vector<std::pair<std::string, N>> v, a;
    VSFunction *fn;
    F frame;
    World() {
        newCore(1);
        live = 0;
        auto add = [&](const char *nm, const VSVideoFormat &f, int w = 48, int h = 48, int frames = 5, int var = 0) { v.emplace_back(nm, clip(mkvi(f, w, h, frames), var)); };
        add("gray8", fmt(cfGray, stInteger, 8));
        add("yuv420p8", fmt(cfYUV, stInteger, 8, 1, 1));
        add("rgb24", fmt(cfRGB, stInteger, 8));
        add("gray16", fmt(cfGray, stInteger, 16));
        add("grays", fmt(cfGray, stFloat, 32));
        add("grayh", fmt(cfGray, stFloat, 16));
        add("gray32", fmt(cfGray, stInteger, 32));
        add("yuv444ps", fmt(cfYUV, stFloat, 32));
        add("yuv410p10", fmt(cfYUV, stInteger, 10, 2, 2));
        add("gray8 1x1", fmt(cfGray, stInteger, 8), 1, 1);
        add("gray8 one frame", fmt(cfGray, stInteger, 8), 48, 48, 1);
        add("gray8 endless", fmt(cfGray, stInteger, 8), 48, 48, INT_MAX);
        add("gray9", fmt(cfGray, stInteger, 9));
        add("changing size", fmt(cfGray, stInteger, 8), 48, 48, 5, 1);
        add("changing format", fmt(cfGray, stInteger, 8), 48, 48, 5, 2);
        add("changing everything", fmt(cfGray, stInteger, 8), 48, 48, 5, 3);
        a.emplace_back("s16 stereo", audio(stInteger, 16, 3, 7000));
        a.emplace_back("f32 mono", audio(stFloat, 32, 1, 7000));
        a.emplace_back("s24 surround", audio(stInteger, 24, 0x3f, 3072));
        a.emplace_back("s16 one sample", audio(stInteger, 16, 3, 1));
        a.emplace_back("s16 endless", audio(stInteger, 16, 3, (int64_t)INT_MAX * VS_AUDIO_FRAME_SAMPLES));
        fn = nullptr;
        frame = get(v[0].second, 1);
    }
    ~World() {
        v.clear();
        a.clear();
        frame = F();
        dropCore();
        CHECK(lastLog.find("Core freed") == std::string::npos && live == 0, "at the end %d sources are alive, last message: %s", (int)live, lastLog.c_str());
    }
};
World *w;
VSFunction *userFunction(int kind) {          // what a user function may do
    live++;
    return api->createFunction([](const VSMap *in, VSMap *out, void *u, VSCore *, const VSAPI *a) {
        int err, kind = (int)(intptr_t)u;
        if (kind == 1) { a->mapSetError(out, "user error"); return; }
        if (kind == 2) return;
        if (kind == 3) { a->mapSetData(out, "val", "text", 4, dtUtf8, maReplace); return; }
        if (kind == 4) { a->mapSetFloat(out, "val", std::numeric_limits<double>::quiet_NaN(), maReplace); return; }
        if (kind == 5) { a->mapSetInt(out, "val", INT64_MIN, maReplace); return; }
        const VSFrame *f = a->mapGetFrame(in, "f", 0, &err);
        if (f) { a->mapConsumeFrame(out, "val", f, maReplace); return; }
        int64_t x = a->mapGetInt(in, "x", 0, &err);
        if (!err) { a->mapSetInt(out, "val", x & 255, maReplace); return; }
        a->mapSetNode(out, "val", w->v[kind == 6 ? 2 : 0].second.p, maReplace);
    }, (void *)(intptr_t)kind, [](void *) { live--; }, core);
}

typedef std::function<void(VSMap *)> Put;
struct Alt { std::string label; Put put; };
struct Arg { std::string name, type; bool arr, opt; };
struct Fn { std::string plugin, name; bool any = false; std::vector<Arg> args; };
std::vector<Arg> parse(const std::string &s, bool *any) {
    std::vector<Arg> r;
    for (size_t i = 0; i < s.size();) {
        size_t e = s.find(';', i);
        std::string p = s.substr(i, e == std::string::npos ? e : e - i);
        i = e == std::string::npos ? s.size() : e + 1;
        size_t c = p.find(':');
        if (c == std::string::npos) { if (p == "any") *any = true; continue; }
        Arg a;
        a.name = p.substr(0, c);
        a.opt = p.find(":opt") != std::string::npos;
        a.type = p.substr(c + 1, p.find(':', c + 1) == std::string::npos ? std::string::npos : p.find(':', c + 1) - c - 1);
        a.arr = a.type.size() > 2 && a.type.substr(a.type.size() - 2) == "[]";
        if (a.arr) a.type.resize(a.type.size() - 2);
        r.push_back(a);
    }
    return r;
}
typedef std::pair<std::string, Put> Elem;     // appends one value under a key
struct ElemMaker { std::string label; std::function<void(VSMap *, const char *)> put; };
std::vector<ElemMaker> elements(const std::string &type, const std::string &arg, bool extreme) {
    std::vector<ElemMaker> r;
    if (type == "int") {
        std::vector<int64_t> v = extreme ? std::vector<int64_t>{ INT64_MIN, INT_MIN, -1, 0, 1, 2, 7, 256, INT_MAX - 1, INT_MAX, INT64_MAX }
            : std::vector<int64_t>{ INT64_MIN, INT64_MIN + 1, (int64_t)INT_MIN - 1, INT_MIN, INT_MIN + 1, -257, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095,
                30000, 32767, 32768, 65535, 65536, 1 << 24, 1 << 30, INT_MAX - 1, INT_MAX, (int64_t)INT_MAX + 1, UINT32_MAX, (int64_t)UINT32_MAX + 1, ((int64_t)1 << 53) + 1, (int64_t)INT_MAX * VS_AUDIO_FRAME_SAMPLES, (int64_t)INT_MAX * VS_AUDIO_FRAME_SAMPLES + 1, INT64_MAX / 2 + 1, INT64_MAX - 1, INT64_MAX };
        if (arg == "format") for (int64_t f : { (int64_t)pfYUV420P8, (int64_t)pfRGB24, (int64_t)pfRGBS, (int64_t)pfGray32, (int64_t)pfGrayH, (int64_t)pfYUV410P8 }) v.push_back(f);
        for (int64_t x : v) r.push_back({ std::to_string(x), [x](VSMap *m, const char *k) { api->mapSetInt(m, k, x, maAppend); } });
    } else if (type == "float") {
        const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
        std::vector<double> v = extreme ? std::vector<double>{ nan, -inf, inf, -1e300, -1, 0, 0.5, 255, 65536, 1e10 }
            : std::vector<double>{ nan, -inf, inf, -1e300, 1e300, -1e40, -1e20, -1e10, -65536, -1024, -255.5, -3, -1.5, -1, -0.5, -1e-310, -0.0, 0, 1e-310, 1e-30, 0.25, 0.5, 1, 1.5, 2, 3, 127.5, 255, 255.5, 256, 1023, 1024, 65535, 65536, 65536.5, 2147483647, 2147483648.0, 4294967295.0, 4294967296.0, 1e10, 9.3e18, 1e20, 3.4e38, 3.5e38 };
        for (double x : v) { char b[40]; snprintf(b, 40, "%g", x); r.push_back({ b, [x](VSMap *m, const char *k) { api->mapSetFloat(m, k, x, maAppend); } }); }
    } else if (type == "data") {
        std::vector<std::string> v = { "", "x", std::string("a\0b", 3), "\xff\xfe", "\xe2\x82", "*", "hv", "square", "_*", "x x +", std::string(300, 'w'), "%s%n%d", "x\n\t\r\x01y" };
        if (!extreme) {
            for (const char *s : { "h", "v", "s", "sine", "none", "rectangular", "triangular", "tpdf", "0", "-1", "_Range", "_FieldBased", "d", "fl", "sse2", "x y z", "1e999", "nan", "x[5,5]", "dup0", "swap99999999999999999999", "x dup999999", "x.y", "0x", "x 2 ^", "1 0 /", "0 0 %" }) v.push_back(s);
            v.push_back(std::string(5000, 'x'));
            std::string deep = "x"; for (int i = 0; i < 600; i++) deep += " x +"; v.push_back(deep);
            std::string wide; for (int i = 0; i < 300; i++) wide += "x "; for (int i = 0; i < 299; i++) wide += "+ "; v.push_back(wide);
        }
        for (auto &x : v) r.push_back({ "\"" + (x.size() > 30 ? x.substr(0, 20) + "..." : x) + "\"", [x](VSMap *m, const char *k) { api->mapSetData(m, k, x.data(), (int)x.size(), dtUtf8, maAppend); } });
    } else if (type == "vnode" || type == "anode") {
        auto &l = type == "vnode" ? w->v : w->a;
        for (size_t i = 0; i < l.size(); i++) {
            bool vn = type == "vnode";
            r.push_back({ l[i].first, [i, vn](VSMap *m, const char *k) { api->mapSetNode(m, k, (vn ? w->v : w->a)[i].second.p, maAppend); } });
        }
    } else if (type == "func") {
        for (int i = 0; i < 7; i++)
            r.push_back({ "function " + std::to_string(i), [i](VSMap *m, const char *k) { api->mapConsumeFunction(m, k, userFunction(i), maAppend); } });
    } else if (type == "vframe" || type == "aframe")
        r.push_back({ "frame", [](VSMap *m, const char *k) { api->mapSetFrame(m, k, w->frame.p, maAppend); } });
    return r;
}
void times(std::vector<Alt> &out, const std::string &arg, const ElemMaker &e, int n, const ElemMaker *last = nullptr) {
    out.push_back({ arg + "=[" + e.label + (n > 1 ? " x" + std::to_string(n) : "") + (last ? "," + last->label : "") + "]",
        [=, l = last ? *last : ElemMaker{}](VSMap *m) { for (int i = 0; i < n; i++) e.put(m, arg.c_str()); if (l.put) l.put(m, arg.c_str()); } });
}
// the value an argument has in the base call, or nothing
const std::map<std::string, std::vector<double>> BASE = {
    { "weights", { 1 } }, { "matrix", { 1, 2, 1, 2, 4, 2, 1, 2, 1 } }, { "offsets", { 0 } }, { "frames", { 1 } }, { "planes!", { 0 } }, { "colorfamily", { cfGray } },
    { "channels_in", { 0 } }, { "channels_out", { 0 } }, { "cycle", { 2 } }, { "width", { 16 } }, { "height", { 16 } }, { "value", { 1 } }, { "intval", { 1 } },
};
Alt baseOf(const Fn &f, const Arg &a) {
    if (f.name == "AudioMix" && a.name == "matrix") return { "", [](VSMap *m) { api->mapSetFloat(m, "matrix", 1, maAppend); api->mapSetFloat(m, "matrix", 0.5, maAppend); } };
    if (f.name == "FreezeFrames") return { "", [n = a.name](VSMap *m) { api->mapSetInt(m, n.c_str(), 1, maAppend); if (n == "clip") { api->mapDeleteKey(m, "clip"); api->mapSetNode(m, "clip", w->v[0].second.p, maAppend); } } };
    if ((f.name == "AssumeFPS" && a.name == "fpsnum") || (f.name == "AssumeSampleRate" && a.name == "samplerate")) return { "", [n = a.name](VSMap *m) { api->mapSetInt(m, n.c_str(), 25000, maAppend); } };
    if (f.name == "AudioGain" && a.name == "gain") return { "", [](VSMap *m) { api->mapSetFloat(m, "gain", 1.5, maAppend); } };
    if (a.opt && !(f.name == "SetFrameProp" && a.name == "intval") && !(a.name == "function")) return { "", nullptr };
    if (a.type == "int" || a.type == "float") {
        auto it = BASE.find(a.name == "planes" ? "planes!" : a.name);
        std::vector<double> v = it == BASE.end() ? std::vector<double>{ 1 } : it->second;
        return { "", [=, n = a.name, fl = a.type == "float"](VSMap *m) { for (double x : v) { if (fl) api->mapSetFloat(m, n.c_str(), x, maAppend); else api->mapSetInt(m, n.c_str(), (int64_t)x, maAppend); } } };
    }
    if (a.type == "data") {
        std::string v = a.name == "expr" ? "x" : a.name == "cpu" ? "none" : a.name == "path" ? "nothing" : "prop";
        return { "", [=, n = a.name](VSMap *m) { api->mapSetData(m, n.c_str(), v.data(), (int)v.size(), dtUtf8, maAppend); } };
    }
    return { "", [e = elements(a.type, a.name, true)[0], n = a.name](VSMap *m) { e.put(m, n.c_str()); } };
}
std::vector<Alt> alternatives(const Fn &f, const Arg &a, bool extreme) {
    std::vector<Alt> r;
    if (a.opt) r.push_back({ a.name + " absent", nullptr });
    if (a.name == "path") extreme = true;
    auto el = elements(a.type, a.name, extreme);
    int t = a.type == "int" ? ptInt : a.type == "float" ? ptFloat : a.type == "data" ? ptData : a.type == "vnode" ? ptVideoNode : a.type == "anode" ? ptAudioNode : a.type == "func" ? ptFunction : ptVideoFrame;
    r.push_back({ a.name + " empty", [t, n = a.name](VSMap *m) { api->mapSetEmpty(m, n.c_str(), t); } });
    for (auto &e : el) times(r, a.name, e, 1);
    if (!a.arr) return r;
    auto ex = elements(a.type, a.name, true);
    for (auto &e : ex)
        for (int n : extreme ? std::vector<int>{ 3, 9 } : std::vector<int>{ 2, 3, 4, 9, 24, 25, 26, 31, 32, 49, 65, 300 }) times(r, a.name, e, n);
    if (!extreme)
        for (auto &e : ex)
            for (auto &l : el) { times(r, a.name, e, 1, &l); if (&e == &ex[0] || &e == &ex[ex.size() / 2]) { times(r, a.name, e, 2, &l); times(r, a.name, e, 8, &l); } }
    if (a.name == "lut" || a.name == "lutf")
        for (int n : { 255, 256, 257, 65536 }) for (size_t k : { (size_t)0, ex.size() / 2, ex.size() - 1 }) times(r, a.name, ex[k], n);
    return r;
}
std::vector<Fn> functions() {
    std::vector<Fn> r;
    for (VSPlugin *p = api->getNextPlugin(nullptr, core); p; p = api->getNextPlugin(p, core)) {
        std::string id = api->getPluginID(p);
        if (id.find("resize") != std::string::npos) continue;        // a stub in this build
        for (VSPluginFunction *q = api->getNextPluginFunction(nullptr, p); q; q = api->getNextPluginFunction(q, p)) {
            Fn f;
            f.plugin = id;
            f.name = api->getPluginFunctionName(q);
            f.args = parse(api->getPluginFunctionArguments(q), &f.any);
            if (const char *only = getenv("ARGS_ONLY")) if (f.name != only) continue;
            r.push_back(f);
        }
    }
    return r;
}
bool costly(const Fn &f, const VSMap *m) {     // legitimate but endless work
    for (const char *k : { "hpasses", "vpasses" }) { int e; if (api->mapGetInt(m, k, 0, &e) > 100) return true; }
    return false;
}
bool huge(const VSMap *m) {                    // frames of a changing size that don't fit the memory
    for (const char *k : { "width", "height", "left", "right", "top", "bottom" }) { int e; if (api->mapGetInt(m, k, 0, &e) > 1 << 12) return true; }
    return false;
}
uint64_t used() { VSCoreInfo ci; api->getCoreInfo(core, &ci); return ci.usedFramebufferSize; }
void fetch(VSNode *n, const VSMap *m) {
    std::vector<int> frames;
    int last;
    if (api->getNodeType(n) == mtVideo) {
        const VSVideoInfo *vi = api->getVideoInfo(n);
        if ((int64_t)vi->width * vi->height > 1 << 20 || (!vi->width && huge(m))) return;
        last = vi->numFrames - 1;
        CHECK(vi->numFrames > 0 && vi->width >= 0 && vi->height >= 0, "the clip has %d frames of %dx%d", vi->numFrames, vi->width, vi->height);
    } else {
        last = api->getAudioInfo(n)->numFrames - 1;
        CHECK(last >= 0 && api->getAudioInfo(n)->numSamples > 0, "the audio clip has %lld samples", (long long)api->getAudioInfo(n)->numSamples);
    }
    for (int i : { 0, 1, 2, last / 2, last - 1, last })
        if (i >= 0 && i <= last && (frames.empty() || i > frames.back())) frames.push_back(i);
    for (int i : frames) {
        std::string err;
        F f = get(N(api->addNodeRef(n)), i, &err);
        step();
        if (!f) CHECK(!err.empty(), "frame %d failed without a message", i);
    }
}
void check(const Fn &f, const std::vector<const Alt *> &alts, const std::string &base) {
    std::string label;
    for (auto *a : alts) if (a && !a->label.empty()) label += (label.empty() ? "" : ", ") + a->label;
    cur("%s(%s)%s%s", f.name.c_str(), label.c_str(), base.empty() ? "" : " on ", base.c_str());
    int before = live;
    uint64_t mem = used();
    VSMap *m = api->createMap();
    for (auto *a : alts) if (a && a->put) a->put(m);
    VSMap *o = api->invoke(api->getPluginByID(f.plugin.c_str(), core), f.name.c_str(), m);
    exec();
    const char *e = api->mapGetError(o);
    if (label.empty() && getenv("ARGS_SHOW"))
        fprintf(stderr, "BASE %s on %s: %s\n", f.name.c_str(), base.c_str(), e ? e : "ok");
    if (e)
        CHECK(*e, "an error without a message");
    else if (!costly(f, m))
        for (int k = 0; k < api->mapNumKeys(o); k++) {
            const char *key = api->mapGetKey(o, k);
            int t = api->mapGetType(o, key);
            if (t != ptVideoNode && t != ptAudioNode) continue;
            for (int i = 0; i < std::min(api->mapNumElements(o, key), 3); i++) {
                VSNode *n = api->mapGetNode(o, key, i, nullptr);
                fetch(n, m);
                api->freeNode(n);
            }
        }
    api->freeMap(m);
    api->freeMap(o);
    if (f.name == "SetVideoCache" || f.name == "SetAudioCache")
        for (auto *l : { &w->v, &w->a }) for (auto &x : *l) api->setCacheMode(x.second.p, cmForceDisable);
    if (getenv("ARGS_EACH")) { delete w; w = new World; return; }
    for (int i = 0; i < 20000 && (live != before || used() != mem); i++) if (i > 50) usleep(500);
    CHECK(live == before, "%d source clips or functions are still referenced afterwards", live - before);
    CHECK(used() == mem, "%lld bytes of frames are still allocated afterwards", (long long)(used() - mem));
}
Alt clipArg(const Fn &f, const std::string &n, size_t k) {
    if (f.name == "MergeFullDiff" && n == "clipb" && k == 0)
        while (w->v[k].first != "gray9") k++;
    return { "", [k, n](VSMap *m) { api->mapSetNode(m, n.c_str(), w->v[k].second.p, maAppend); } };
}
void singles(const Fn &f, bool extreme, const std::vector<size_t> &kinds, const char *clips) {
    std::vector<Alt> base;
    for (auto &a : f.args) base.push_back(baseOf(f, a));
    bool hasClip = false;
    for (auto &a : f.args) hasClip |= a.type == "vnode" && !a.opt;
    for (size_t k : kinds) {
        if (!hasClip && k) break;
        std::vector<const Alt *> cur;
        std::vector<Alt> b = base;
        for (size_t i = 0; i < f.args.size(); i++)
            if (f.args[i].type == "vnode" && !f.args[i].opt)
                b[i] = clipArg(f, f.args[i].name, k);
        for (auto &x : b) cur.push_back(&x);
        if (item()) check(f, cur, w->v[k].first);
        for (size_t i = 0; i < f.args.size(); i++) {
            auto al = alternatives(f, f.args[i], extreme);
            for (auto &x : al) {
                if (!item()) continue;
                auto c = cur;
                c[i] = &x;
                check(f, c, hasClip ? w->v[k].first : "");
            }
        }
    }
    state(hash(f.name + clips));
}
void pairs(const Fn &f, size_t k, bool fullFirst) {
    std::vector<Alt> b;
    bool hasClip = false;
    for (auto &a : f.args) {
        b.push_back(baseOf(f, a));
        if (a.type == "vnode" && !a.opt) { hasClip = true; b.back() = clipArg(f, a.name, k); }
    }
    if (!hasClip && k) return;
    std::vector<std::vector<Alt>> ex, full;
    for (auto &a : f.args) { ex.push_back(alternatives(f, a, true)); if (fullFirst) full.push_back(alternatives(f, a, false)); }
    for (size_t i = 0; i < f.args.size(); i++)
        for (size_t j = i + 1; j < f.args.size(); j++)
            for (auto &x : fullFirst ? full[i] : ex[i])
                for (auto &y : ex[j]) {
                    if (!item()) continue;
                    std::vector<const Alt *> c;
                    for (auto &q : b) c.push_back(&q);
                    c[i] = &x;
                    c[j] = &y;
                    check(f, c, hasClip ? w->v[k].first : "");
                }
}
}
SEQ_CASE(argsSingle, "arguments_single", "C26", true, "every registered function of the std and text plugins x every argument x its list of boundary values and array lengths, on all kinds of clips (formats, changing size/format, 1x1, one frame, endless)") {
    w = new World;
    auto fs = functions();
    for (auto &f : fs) {
        delete w;                             // a world per function: a reference to a clip that is kept shows when it is torn down
        w = new World;
        singles(f, false, { 0 }, "gray8");
        std::vector<size_t> rest;
        for (size_t i = 1; i < w->v.size(); i++) rest.push_back(i);
        singles(f, !thorough, rest, "all");
    }
    delete w;
}
SEQ_CASE(argsPairs, "arguments_pairs", "C26", true, "every registered function x every pair of arguments x all pairs of boundary values, on an 8 bit clip with subsampled chroma (thorough: on all kinds of clips, full value lists against boundary values)") {
    w = new World;
    auto fs = functions();
    for (auto &f : fs) {
        delete w;                             // a world per function: a reference to a clip that is kept shows when it is torn down
        w = new World;
        if (!thorough) { bool clip = false; for (auto &a : f.args) clip |= a.type == "vnode" && !a.opt; pairs(f, clip ? 1 : 0, false); }
        else for (size_t k = 0; k < w->v.size(); k++) pairs(f, k, k < 3);
    }
    delete w;
}
