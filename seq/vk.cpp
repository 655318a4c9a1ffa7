#include "vk.h"
#include <cstdio>
#include <cstdlib>
#include <limits>

namespace vk {
const VSAPI *api;
VSCore *core;
int logged;
std::string lastLog;

static void VS_CC onLog(int type, const char *msg, void *) {
    if (type >= mtWarning) {
        logged++;
        lastLog = msg;
    }
}

VSCore *newCore(int threads, int flags) {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    CHECK(api, "no api");
    core = api->createCore(flags | ccfDisableAutoLoading);
    CHECK(core, "no core");
    api->addLogHandler(onLog, nullptr, nullptr, core);
    api->setThreadCount(threads, core);
    return core;
}
void dropCore() {
    api->freeCore(core);
    core = nullptr;
}
VSVideoFormat fmt(int family, int sampleType, int bits, int ssw, int ssh) {
    VSVideoFormat f = {};
    CHECK(api->queryVideoFormat(&f, family, sampleType, bits, ssw, ssh, core), "format query failed");
    return f;
}
std::string fname(const VSVideoFormat &f) {
    char b[32] = {};
    api->getVideoFormatName(&f, b);
    return b;
}
double sampleAt(const uint8_t *row, int x, const VSVideoFormat &f) {
    if (f.sampleType == stFloat) {
        if (f.bytesPerSample == 4)
            return reinterpret_cast<const float *>(row)[x];
        return (double)reinterpret_cast<const _Float16 *>(row)[x];
    }
    switch (f.bytesPerSample) {
    case 1: return row[x];
    case 2: return reinterpret_cast<const uint16_t *>(row)[x];
    default: return reinterpret_cast<const uint32_t *>(row)[x];
    }
}
void putSample(uint8_t *row, int x, const VSVideoFormat &f, double v) {
    if (f.sampleType == stFloat) {
        if (f.bytesPerSample == 4)
            reinterpret_cast<float *>(row)[x] = (float)v;
        else
            reinterpret_cast<_Float16 *>(row)[x] = (_Float16)v;
        return;
    }
    switch (f.bytesPerSample) {
    case 1: row[x] = (uint8_t)v; break;
    case 2: reinterpret_cast<uint16_t *>(row)[x] = (uint16_t)v; break;
    default: reinterpret_cast<uint32_t *>(row)[x] = (uint32_t)v; break;
    }
}
double F::at(int pl, int x, int y) const {
    return sampleAt(api->getReadPtr(p, pl) + y * api->getStride(p, pl), x, f());
}
int64_t F::propInt(const char *k, int64_t def) const {
    int e;
    int64_t v = api->mapGetInt(props(), k, 0, &e);
    return e ? def : v;
}
R call(const char *fn, const A &a, const char *outkey, const char *plugin) {
    R r;
    VSMap *o = api->invoke(api->getPluginByID(plugin, core), fn, a.m);
    if (const char *e = api->mapGetError(o)) {
        r.err = e;
        if (r.err.empty())
            r.err = "(empty error)";
    } else {
        int err;
        if (outkey) r.node = N(api->mapGetNode(o, outkey, 0, &err));
        if (outkey && !r.node)
            r.err = "(no output node)";
    }
    api->freeMap(o);
    return r;
}
F get(const N &n, int frame, std::string *err) {
    char b[2048] = {};
    const VSFrame *f = api->getFrame(frame, n.p, b, sizeof(b));
    if (!f) {
        if (!err)
            seq::fail("unexpected error for frame %d: %s", frame, b);
        *err = b[0] ? b : "(empty error)";
    } else if (err)
        err->clear();
    return F(f);
}
struct Src {
    VSVideoInfo vi;
    VSAudioInfo ai;
    bool audio;
    std::function<void(int, VSFrame *)> fill;
    std::function<void(int, VSFrame *, int)> afill;
};
static const VSFrame *VS_CC srcGet(int n, int reason, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *a) {
    Src *s = static_cast<Src *>(inst);
    if (reason != arInitial)
        return nullptr;
    if (s->audio) {
        int64_t left = s->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES;
        int samples = (int)std::min<int64_t>(left, VS_AUDIO_FRAME_SAMPLES);
        VSFrame *f = a->newAudioFrame(&s->ai.format, samples, nullptr, c);
        s->afill(n, f, samples);
        return f;
    }
    VSFrame *f = a->newVideoFrame(&s->vi.format, s->vi.width, s->vi.height, nullptr, c);
    s->fill(n, f);
    return f;
}
static void VS_CC srcFree(void *inst, VSCore *, const VSAPI *) { delete static_cast<Src *>(inst); }
N source(const VSVideoInfo &vi, std::function<void(int, VSFrame *)> fill, int mode) {
    Src *s = new Src{vi, {}, false, fill, {}};
    VSNode *n = api->createVideoFilter2("Src", &vi, srcGet, srcFree, mode, nullptr, 0, s, core);
    CHECK(n, "source creation failed");
    return N(n);
}
struct Maker { std::function<const VSFrame *(int, VSFrameContext *)> f; };
N maker(const VSVideoInfo &vi, std::function<const VSFrame *(int, VSFrameContext *)> make, int mode) {
    VSNode *n = api->createVideoFilter2("Maker", &vi,
        [](int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *) -> const VSFrame * { return reason == arInitial ? static_cast<Maker *>(inst)->f(n, ctx) : nullptr; },
        [](void *inst, VSCore *, const VSAPI *) { delete static_cast<Maker *>(inst); }, mode, nullptr, 0, new Maker{make}, core);
    CHECK(n, "source creation failed");
    return N(n);
}
N audioSource(const VSAudioInfo &ai, std::function<void(int, VSFrame *, int)> fill) {
    Src *s = new Src{{}, ai, true, {}, fill};
    VSNode *n = api->createAudioFilter2("Src", &ai, srcGet, srcFree, fmParallel, nullptr, 0, s, core);
    CHECK(n, "audio source creation failed");
    return N(n);
}
VSVideoInfo mkvi(const VSVideoFormat &f, int w, int h, int frames, int64_t num, int64_t den) {
    VSVideoInfo vi = {};
    vi.format = f; vi.width = w; vi.height = h; vi.numFrames = frames; vi.fpsNum = num; vi.fpsDen = den;
    return vi;
}
struct Fn { std::function<void(const VSMap *, VSMap *)> f; };
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *u, VSCore *, const VSAPI *) { static_cast<Fn *>(u)->f(in, out); }
static void VS_CC fnFree(void *u) { delete static_cast<Fn *>(u); }
VSFunction *func(std::function<void(const VSMap *, VSMap *)> f) {
    return api->createFunction(fnCall, new Fn{f}, fnFree, core);
}
bool sameFormat(const VSVideoFormat &a, const VSVideoFormat &b) {
    return a.colorFamily == b.colorFamily && a.sampleType == b.sampleType && a.bitsPerSample == b.bitsPerSample &&
           a.bytesPerSample == b.bytesPerSample && a.subSamplingW == b.subSamplingW && a.subSamplingH == b.subSamplingH && a.numPlanes == b.numPlanes;
}
std::string propText(const VSMap *m) {
    std::string r;
    for (int i = 0; i < api->mapNumKeys(m); i++) {
        const char *k = api->mapGetKey(m, i);
        int t = api->mapGetType(m, k), n = api->mapNumElements(m, k);
        r += std::string(k) + ":" + std::to_string(t) + "[";
        for (int j = 0; j < n; j++) {
            if (j) r += ",";
            if (t == ptInt) r += std::to_string(api->mapGetInt(m, k, j, nullptr));
            else if (t == ptFloat) { char b[64]; snprintf(b, 64, "%.17g", api->mapGetFloat(m, k, j, nullptr)); r += b; }
            else if (t == ptData) r += std::string(api->mapGetData(m, k, j, nullptr), api->mapGetDataSize(m, k, j, nullptr)) + "/" + std::to_string(api->mapGetDataTypeHint(m, k, j, nullptr));
            else r += "*";
        }
        r += "] ";
    }
    return r;
}
}
