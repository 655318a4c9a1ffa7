// Built-in filters with several requests in flight: every frame must equal the frame of a run with one
// request at a time, and the (instrumented) filter code must be free of data races.
#include "kit.h"
#include "VSHelper4.h"
#include <sys/mman.h>
using namespace kit;

namespace {
constexpr int MAXC = 64, MAXF = 8;
struct Ref { uint64_t h[MAXC][MAXF]; };
Ref *g_ref;
std::string g_refErr;

// ---------------------------------------------------------------- sources
struct Src { VSVideoInfo vi; int seed; int props; };
uint32_t noise(uint32_t a, uint32_t b, uint32_t c, uint32_t d) {
    uint32_t h = a * 2654435761u ^ b * 40503u ^ c * 2246822519u ^ d * 3266489917u;
    h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    return h;
}
const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *core, const VSAPI *api) {
    if (ar != arInitial)
        return nullptr;
    Src *s = static_cast<Src *>(inst);
    VSFrame *f = api->newVideoFrame(&s->vi.format, s->vi.width, s->vi.height, nullptr, core);
    for (int p = 0; p < s->vi.format.numPlanes; p++) {
        uint8_t *d = api->getWritePtr(f, p);
        ptrdiff_t st = api->getStride(f, p);
        int w = api->getFrameWidth(f, p), h = api->getFrameHeight(f, p), B = s->vi.format.bytesPerSample;
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) {
                uint32_t v = noise(n + 7 * s->seed, p, y, x);
                if (s->vi.format.sampleType == stFloat) {
                    float fl = (v & 255) / 256.0f;
                    if (B == 4) memcpy(d + y * st + x * 4, &fl, 4);
                    else { uint16_t q = 0x3000 + (v & 0x7ff); memcpy(d + y * st + x * 2, &q, 2); }
                } else if (B == 1) d[y * st + x] = v & 255;
                else { uint16_t q = v & ((1 << s->vi.format.bitsPerSample) - 1); memcpy(d + y * st + x * 2, &q, 2); }
            }
    }
    VSMap *m = api->getFramePropertiesRW(f);
    api->mapSetInt(m, "_DurationNum", 1, maReplace);
    api->mapSetInt(m, "_DurationDen", 25, maReplace);
    api->mapSetInt(m, "num", n * 10 + s->seed, maReplace);
    if (s->props) {
        api->mapSetInt(m, "_FieldBased", 2, maReplace);
        api->mapSetInt(m, "_Field", n & 1, maReplace);
        api->mapSetInt(m, "_SceneChangePrev", n == 1, maReplace);
    }
    return f;
}
void VS_CC srcFree(void *inst, VSCore *, const VSAPI *) { delete static_cast<Src *>(inst); }
VSVideoFormat vf(int fam, int st, int bits, int ssw = 0, int ssh = 0) {
    VSVideoFormat f;
    if (!api->queryVideoFormat(&f, fam, st, bits, ssw, ssh, core))
        mc::violation("harness: format");
    return f;
}
VSNode *src(int fam = cfGray, int bits = 8, int w = 6, int h = 4, int frames = 5, int seed = 1, int props = 0, int ss = 0) {
    VSVideoInfo vi;
    memset(&vi, 0, sizeof(vi));
    vi.format = vf(fam, bits == 32 ? stFloat : stInteger, bits, ss, ss);
    vi.fpsNum = 25; vi.fpsDen = 1;
    vi.width = w; vi.height = h; vi.numFrames = frames;
    VSNode *n = api->createVideoFilter2("src", &vi, srcGet, srcFree, fmParallel, nullptr, 0, new Src{ vi, seed, props }, core);
    if (!n)
        mc::violation("harness: source");
    return n;
}
struct ASrc { VSAudioInfo ai; int seed; };
const VSFrame *VS_CC asrcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *core, const VSAPI *api) {
    if (ar != arInitial)
        return nullptr;
    ASrc *s = static_cast<ASrc *>(inst);
    int len = (int)std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, s->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES);
    VSFrame *f = api->newAudioFrame(&s->ai.format, len, nullptr, core);
    for (int c = 0; c < s->ai.format.numChannels; c++) {
        uint8_t *d = api->getWritePtr(f, c);
        for (int i = 0; i < len; i++) {
            uint32_t v = (uint32_t)(n * VS_AUDIO_FRAME_SAMPLES + i) * 7 + c * 1000 + s->seed * 77;
            if (s->ai.format.sampleType == stFloat) { float q = (v & 1023) / 2048.0f; memcpy(d + 4 * i, &q, 4); }
            else if (s->ai.format.bytesPerSample == 2) { uint16_t q = v; memcpy(d + 2 * i, &q, 2); }
            else { uint32_t q = v << 8; memcpy(d + 4 * i, &q, 4); }
        }
    }
    return f;
}
void VS_CC asrcFree(void *inst, VSCore *, const VSAPI *) { delete static_cast<ASrc *>(inst); }
VSNode *asrc(int bits, int channels, int64_t samples, int seed = 1) {
    VSAudioInfo ai;
    memset(&ai, 0, sizeof(ai));
    if (!api->queryAudioFormat(&ai.format, bits == 0 ? stFloat : stInteger, bits ? bits : 32, (1ull << channels) - 1, core))
        mc::violation("harness: audio format");
    ai.sampleRate = 44100;
    ai.numSamples = samples;
    VSNode *n = api->createAudioFilter2("asrc", &ai, asrcGet, asrcFree, fmParallel, nullptr, 0, new ASrc{ ai, seed }, core);
    if (!n)
        mc::violation("harness: audio source");
    return n;
}

// ---------------------------------------------------------------- invoking
struct M {
    VSMap *m = api->createMap();
    std::string fn, ns = "std";
    explicit M(const char *f) : fn(f) {}
    M &own(const char *k, VSNode *n) { api->mapConsumeNode(m, k, n, maAppend); return *this; }
    M &i(const char *k, int64_t v) { api->mapSetInt(m, k, v, maAppend); return *this; }
    M &d(const char *k, double v) { api->mapSetFloat(m, k, v, maAppend); return *this; }
    M &s(const char *k, const char *v) { api->mapSetData(m, k, v, -1, dtUtf8, maAppend); return *this; }
    M &f(const char *k, VSFunction *v) { api->mapConsumeFunction(m, k, v, maAppend); return *this; }
    M &in(const char *n) { ns = n; return *this; }
    VSNode *operator()(int index = 0) {
        VSPlugin *p = api->getPluginByNamespace(ns.c_str(), core);
        VSMap *r = api->invoke(p, fn.c_str(), m);
        api->freeMap(m);
        if (const char *e = api->mapGetError(r))
            mc::violation("%s failed: %s", fn.c_str(), e);
        VSNode *n = api->mapGetNode(r, "clip", index, nullptr);
        api->freeMap(r);
        return n;
    }
};

uint64_t digest(const VSFrame *f) {
    uint64_t h = 77;
    if (api->getFrameType(f) == mtVideo) {
        const VSVideoFormat *vf = api->getVideoFrameFormat(f);
        for (int p = 0; p < vf->numPlanes; p++) {
            int w = api->getFrameWidth(f, p) * vf->bytesPerSample, ht = api->getFrameHeight(f, p);
            h = mixv(mixv(h, w), ht);
            const uint8_t *d = api->getReadPtr(f, p);
            for (int y = 0; y < ht; y++)
                for (int x = 0; x < w; x++)
                    h = (h ^ d[y * api->getStride(f, p) + x]) * 1099511628211ull;
        }
    } else {
        const VSAudioFormat *af = api->getAudioFrameFormat(f);
        int len = api->getFrameLength(f) * af->bytesPerSample;
        h = mixv(mixv(h, len), af->numChannels);
        for (int c = 0; c < af->numChannels; c++) {
            const uint8_t *d = api->getReadPtr(f, c);
            for (int x = 0; x < len; x++)
                h = (h ^ d[x]) * 1099511628211ull;
        }
    }
    const VSMap *m = api->getFramePropertiesRO(f);
    uint64_t sum = 0;
    for (int k = 0; k < api->mapNumKeys(m); k++) {
        const char *key = api->mapGetKey(m, k);
        uint64_t q = 5;
        for (const char *c = key; *c; c++)
            q = mixv(q, *c);
        int t = api->mapGetType(m, key), n = api->mapNumElements(m, key);
        q = mixv(mixv(q, t), n);
        for (int i = 0; i < n; i++) {
            if (t == ptInt) q = mixv(q, api->mapGetInt(m, key, i, nullptr));
            else if (t == ptFloat) { double v = api->mapGetFloat(m, key, i, nullptr); uint64_t u; memcpy(&u, &v, 8); q = mixv(q, u); }
            else if (t == ptData) {
                const char *d = api->mapGetData(m, key, i, nullptr);
                for (int j = 0; j < api->mapGetDataSize(m, key, i, nullptr); j++)
                    q = mixv(q, (unsigned char)d[j]);
            } else if (t == ptVideoFrame || t == ptAudioFrame) {
                const VSFrame *s = api->mapGetFrame(m, key, i, nullptr);
                q = mixv(q, digest(s));
                api->freeFrame(s);
            }
        }
        sum += q;
    }
    return mixv(h, sum);
}

// ---------------------------------------------------------------- user functions
// a user function is only ever run by one thread at a time (the filters are serialised by the core)
int g_inFn;
uint64_t g_fnState;
void enterFn() {
    if (g_inFn++)
        mc::violation("a user function was entered by two threads at once");
    __tsan_write8(&g_fnState);
    mc::yieldPoint("user function");
}
void leaveFn() { __tsan_write8(&g_fnState); g_inFn--; }
void VS_CC evalFn(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *) {
    enterFn();
    int64_t n = api->mapGetInt(in, "n", 0, nullptr);
    VSMap *a = api->createMap();
    VSNode *c = src(cfGray, 8, 6, 4, 5, 3);
    api->mapConsumeNode(a, "clip", c, maReplace);
    api->mapSetInt(a, "first", n == 0 ? 1 : 0, maReplace);
    VSMap *r = api->invoke(api->getPluginByNamespace("std", core), "Trim", a);
    api->freeMap(a);
    api->mapConsumeNode(out, "val", api->mapGetNode(r, "clip", 0, nullptr), maReplace);
    api->freeMap(r);
    leaveFn();
}
void VS_CC evalPropFn(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *) {
    enterFn();
    int err;
    const VSFrame *f = api->mapGetFrame(in, "f", 0, &err);
    int64_t v = api->mapGetInt(api->getFramePropertiesRO(f), "num", 0, nullptr);
    api->freeFrame(f);
    api->mapConsumeNode(out, "val", src(cfGray, 8, 6, 4, 5, (int)v), maReplace);
    leaveFn();
}
void VS_CC modifyFn(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *) {
    enterFn();
    const VSFrame *f = api->mapGetFrame(in, "f", 0, nullptr);
    VSFrame *c = api->copyFrame(f, core);
    api->freeFrame(f);
    api->mapSetInt(api->getFramePropertiesRW(c), "seen", api->mapGetInt(in, "n", 0, nullptr), maReplace);
    api->getWritePtr(c, 0)[0] ^= 0x55;
    api->mapConsumeFrame(out, "val", c, maReplace);
    leaveFn();
}
void VS_CC lutFn(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *) {
    int err;
    int64_t y = api->mapGetInt(in, "y", 0, &err);
    api->mapSetInt(out, "val", (api->mapGetInt(in, "x", 0, nullptr) * 3 + (err ? 0 : y)) & 255, maReplace);
}
VSFunction *fun(VSPublicFunction f) { return api->createFunction(f, nullptr, nullptr, core); }

// ---------------------------------------------------------------- driver
struct Case { const char *name; VSNode *(*make)(); std::vector<int> frames; };

unsigned pick(unsigned n, const char *tag) {
    unsigned hi = mc::choose((n + 7) / 8, 0, tag);
    unsigned lo = mc::choose(std::min(8u, n - hi * 8), 0, tag);
    return hi * 8 + lo;
}
struct Pending {
    std::mutex m;
    std::condition_variable cv;
    int left;
    const VSFrame *f[MAXF] = {};
    std::string err[MAXF];
};
struct One { Pending *p; int slot; };
void VS_CC done(void *u, const VSFrame *f, int, VSNode *, const char *e) {
    One *o = static_cast<One *>(u);
    std::lock_guard<std::mutex> l(o->p->m);
    o->p->f[o->slot] = f;
    if (e)
        o->p->err[o->slot] = e;
    if (--o->p->left == 0)
        o->p->cv.notify_all();
    delete o;
}
const std::vector<Case> *g_cases;
int g_seqCase;
void cleanup(VSNode *n) {
    api->freeNode(n);
    api->freeCore(core);
}
void seqOne() {
    const Case &c = (*g_cases)[g_seqCase];
    g_fnState = 0;
    VSNode *n = c.make();
    for (size_t i = 0; i < c.frames.size(); i++) {
        char buf[200] = "";
        const VSFrame *f = api->getFrame(c.frames[i], n, buf, sizeof(buf));
        if (!f)
            mc::violation("%s: frame %d failed: %s", c.name, c.frames[i], buf);
        g_ref->h[g_seqCase][i] = digest(f);
        api->freeFrame(f);
    }
    cleanup(n);
}
void prepare(const std::vector<Case> &cs) {
    g_cases = &cs;
    core = makeCore(2);
    for (const Case &c : cs)            // builds the filters' function-local statics once and for all
        if (strcmp(c.name, "PropToClip"))   // its creation requests a frame, and there is no worker to run it yet
            api->freeNode(c.make());
    g_ref = static_cast<Ref *>(mmap(nullptr, sizeof(Ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (g_seqCase = 0; g_seqCase < (int)cs.size() && g_refErr.empty(); g_seqCase++) {
        g_refErr = mc::sequential(seqOne);
        if (!g_refErr.empty())
            g_refErr = std::string(cs[g_seqCase].name) + " (frames requested one at a time): " + g_refErr;
    }
}
void together() {
    if (!g_refErr.empty())
        mc::violation("%s", g_refErr.c_str());
    const auto &cs = *g_cases;
    const Case &c = cs[pick(cs.size(), "filter")];
    size_t k = &c - cs.data();
    mc::note("filter %s", c.name);
    VSNode *n = c.make();
    {
        Pending p;
        p.left = (int)c.frames.size();
        for (size_t i = 0; i < c.frames.size(); i++)
            api->getFrameAsync(c.frames[i], n, done, new One{ &p, (int)i });
        {
            std::unique_lock<std::mutex> l(p.m);
            while (p.left)
                p.cv.wait(l);
        }
        for (size_t i = 0; i < c.frames.size(); i++) {
            if (!p.f[i])
                mc::violation("%s: frame %d failed when requested with others: %s", c.name, c.frames[i], p.err[i].c_str());
            if (digest(p.f[i]) != g_ref->h[k][i])
                mc::violation("%s: frame %d differs from the one produced when frames are requested one at a time", c.name, c.frames[i]);
            api->freeFrame(p.f[i]);
        }
    }
    cleanup(n);
    mc::expectNoLeaks(c.name);
}
}

#define FILTERS(fn, name, cases, qb, tb, qs, ts) \
    static mc::Registrar fn##Reg({ name, "C22", [] { prepare(cases); }, together, mc::fDelay, qb, tb, 2, qs, ts })
#define C(name, frames, expr) { name, []() -> VSNode * { return expr; }, frames }
#define FR(...) std::vector<int>{ __VA_ARGS__ }

static const std::vector<Case> reorder = {
    C("Trim", FR(0, 1), M("Trim").own("clip", src()).i("first", 1)()),
    C("Reverse", FR(0, 1), M("Reverse").own("clip", src())()),
    C("Loop", FR(1, 6), M("Loop").own("clip", src()).i("times", 3)()),
    C("Interleave", FR(0, 1), M("Interleave").own("clips", src()).own("clips", src(cfGray, 8, 6, 4, 5, 2))()),
    C("SelectEvery", FR(0, 1), M("SelectEvery").own("clip", src()).i("cycle", 2).i("offsets", 1).i("offsets", 0)()),
    C("Splice", FR(4, 5), M("Splice").own("clips", src()).own("clips", src(cfGray, 8, 6, 4, 5, 2))()),
    C("DuplicateFrames", FR(1, 2), M("DuplicateFrames").own("clip", src()).i("frames", 1)()),
    C("DeleteFrames", FR(0, 1), M("DeleteFrames").own("clip", src()).i("frames", 1)()),
    C("FreezeFrames", FR(1, 2), M("FreezeFrames").own("clip", src()).i("first", 1).i("last", 3).i("replacement", 0)()),
    C("SeparateFields", FR(0, 1), M("SeparateFields").own("clip", src(cfGray, 8, 6, 4, 5, 1, 1))()),
    C("DoubleWeave", FR(0, 1), M("DoubleWeave").own("clip", src(cfGray, 8, 6, 2, 5, 1, 1))()),
    C("AssumeFPS", FR(0, 1), M("AssumeFPS").own("clip", src()).i("fpsnum", 30)()),
};
FILTERS(fReorder, "filters_reorder", reorder, 3, 4, 8, 200);

static const std::vector<Case> geometry = {
    C("CropAbs", FR(0, 1), M("CropAbs").own("clip", src()).i("width", 3).i("height", 2).i("left", 1)()),
    C("Crop", FR(0, 1), M("Crop").own("clip", src(cfYUV, 8, 6, 4, 5, 1, 0, 1)).i("left", 2)()),
    C("AddBorders", FR(0, 1), M("AddBorders").own("clip", src(cfRGB, 8)).i("left", 2).d("color", 1).d("color", 2).d("color", 3)()),
    C("FlipVertical", FR(0, 1), M("FlipVertical").own("clip", src())()),
    C("FlipHorizontal", FR(0, 1), M("FlipHorizontal").own("clip", src(cfGray, 16))()),
    C("Turn180", FR(0, 1), M("Turn180").own("clip", src(cfGray, 32))()),
    C("Turn90", FR(0, 1), M("Turn90").own("clip", src())()),
    C("Transpose", FR(0, 1), M("Transpose").own("clip", src(cfGray, 16, 16, 16))()),
    C("StackVertical", FR(0, 1), M("StackVertical").own("clips", src()).own("clips", src(cfGray, 8, 6, 2, 5, 2))()),
    C("StackHorizontal", FR(0, 1), M("StackHorizontal").own("clips", src()).own("clips", src(cfGray, 8, 4, 4, 3, 2))()),
    C("ShufflePlanes", FR(0, 1), M("ShufflePlanes").own("clips", src(cfRGB)).i("planes", 2).i("planes", 0).i("planes", 1).i("colorfamily", cfYUV)()),
    C("SplitPlanes", FR(0, 1), M("SplitPlanes").own("clip", src(cfRGB))(1)),
    C("BlankClip", FR(0, 1), M("BlankClip").i("width", 6).i("height", 4).i("length", 3)()),
    C("BlankClip keep", FR(0, 1), M("BlankClip").i("width", 6).i("height", 4).i("length", 3).i("keep", 1)()),
    C("Cache", FR(0, 1), M("Cache").own("clip", src()).i("size", 2)()),
    C("Cache linear", FR(1, 0), M("Cache").own("clip", src()).i("size", 2).i("make_linear", 1)()),
};
FILTERS(fGeometry, "filters_geometry", geometry, 3, 4, 8, 200);

static const std::vector<Case> props = {
    C("SetFrameProp", FR(0, 1), M("SetFrameProp").own("clip", src()).s("prop", "a").i("intval", 1)()),
    C("SetFrameProps", FR(0, 1), M("SetFrameProps").own("clip", src()).s("a", "text").i("num", 3)()),
    C("RemoveFrameProps", FR(0, 1), M("RemoveFrameProps").own("clip", src()).s("props", "num")()),
    C("RemoveFrameProps wildcard", FR(0, 1), M("RemoveFrameProps").own("clip", src()).s("props", "_*")()),
    C("CopyFrameProps", FR(0, 1), M("CopyFrameProps").own("clip", src()).own("prop_src", src(cfGray, 8, 6, 4, 5, 2))()),
    C("SetFieldBased", FR(0, 1), M("SetFieldBased").own("clip", src()).i("value", 1)()),
    C("ClipToProp", FR(0, 1), M("ClipToProp").own("clip", src()).own("mclip", src(cfGray, 8, 2, 2, 5, 2))()),
    C("PropToClip", FR(0, 1), M("PropToClip").own("clip", M("ClipToProp").own("clip", src()).own("mclip", src(cfGray, 8, 2, 2, 5, 2))())()),
    C("FrameEval", FR(0, 1), M("FrameEval").own("clip", src()).f("eval", fun(evalFn))()),
    C("FrameEval prop_src", FR(0, 1), M("FrameEval").own("clip", src()).f("eval", fun(evalPropFn)).own("prop_src", src(cfGray, 8, 2, 2, 5, 2))()),
    C("ModifyFrame", FR(0, 1), M("ModifyFrame").own("clip", src()).own("clips", src(cfGray, 8, 6, 4, 5, 2)).f("selector", fun(modifyFn))()),
    C("PEMVerifier", FR(0, 1), M("PEMVerifier").own("clip", src())()),
};
FILTERS(fProps, "filters_props", props, 2, 3, 10, 200);

static const std::vector<Case> pixels = {
    C("Minimum", FR(0, 1), M("Minimum").own("clip", src())()),
    C("Median", FR(0, 1), M("Median").own("clip", src(cfGray, 16))()),
    C("Deflate", FR(0, 1), M("Deflate").own("clip", src(cfGray, 32))()),
    C("Convolution", FR(0, 1), M("Convolution").own("clip", src()).d("matrix", 1).d("matrix", 2).d("matrix", 1).d("matrix", 2).d("matrix", 4).d("matrix", 2).d("matrix", 1).d("matrix", 2).d("matrix", 1)()),
    C("Convolution hv", FR(0, 1), M("Convolution").own("clip", src()).d("matrix", 1).d("matrix", 2).d("matrix", 1).s("mode", "hv")()),
    C("Convolution v", FR(0, 1), M("Convolution").own("clip", src(cfGray, 16)).d("matrix", 1).d("matrix", 2).d("matrix", 1).s("mode", "v")()),
    C("Convolution 5x5", FR(0, 1), [] { M m("Convolution"); m.own("clip", src()); for (int i = 0; i < 25; i++) m.d("matrix", i); return m(); }()),
    C("Prewitt", FR(0, 1), M("Prewitt").own("clip", src())()),
    C("Sobel", FR(0, 1), M("Sobel").own("clip", src(cfGray, 16))()),
    C("Invert", FR(0, 1), M("Invert").own("clip", src())()),
    C("Limiter", FR(0, 1), M("Limiter").own("clip", src()).d("min", 20).d("max", 200)()),
    C("Binarize", FR(0, 1), M("Binarize").own("clip", src())()),
    C("Levels", FR(0, 1), M("Levels").own("clip", src()).d("min_in", 20).d("gamma", 2)()),
    C("Lut", FR(0, 1), M("Lut").own("clip", src()).f("function", fun(lutFn))()),
    C("BoxBlur", FR(0, 1), M("BoxBlur").own("clip", src()).i("hradius", 1).i("hpasses", 2).i("vradius", 1).i("vpasses", 2)()),
    C("BoxBlur float", FR(0, 1), M("BoxBlur").own("clip", src(cfGray, 32)).i("hradius", 2).i("hpasses", 3)()),
    C("Text", FR(0, 1), M("Text").in("text").own("clip", src(cfGray, 8, 48, 64)).s("text", "a")()),
    C("FrameNum", FR(0, 1), M("FrameNum").in("text").own("clip", src(cfGray, 8, 48, 64))()),
    C("FrameProps", FR(0, 1), M("FrameProps").in("text").own("clip", src(cfGray, 8, 120, 100))()),
    C("ClipInfo", FR(0, 1), M("ClipInfo").in("text").own("clip", src(cfGray, 8, 120, 100))()),
    C("CoreInfo", FR(0, 1), M("CoreInfo").in("text").own("clip", src(cfGray, 8, 120, 100))()),
};
FILTERS(fPixels, "filters_pixels", pixels, 2, 3, 12, 200);

static const std::vector<Case> several = {
    C("Merge", FR(0, 1), M("Merge").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2)).d("weight", 0.3)()),
    C("MaskedMerge", FR(0, 1), M("MaskedMerge").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2)).own("mask", src(cfGray, 8, 6, 4, 5, 3))()),
    C("PreMultiply", FR(0, 1), M("PreMultiply").own("clip", src()).own("alpha", src(cfGray, 8, 6, 4, 5, 3))()),
    C("MakeDiff", FR(0, 1), M("MakeDiff").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2))()),
    C("MergeDiff", FR(0, 1), M("MergeDiff").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2))()),
    C("MakeFullDiff", FR(0, 1), M("MakeFullDiff").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2))()),
    C("MergeFullDiff", FR(0, 1), M("MergeFullDiff").own("clipa", src()).own("clipb", M("MakeFullDiff").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2))())()),
    C("Lut2", FR(0, 1), M("Lut2").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2)).f("function", fun(lutFn))()),
    C("AverageFrames", FR(0, 1), M("AverageFrames").own("clips", src()).d("weights", 1).d("weights", 2).d("weights", 1)()),
    C("AverageFrames scenechange", FR(1, 2), M("AverageFrames").own("clips", src(cfGray, 8, 6, 4, 5, 1, 1)).d("weights", 1).d("weights", 2).d("weights", 1).i("scenechange", 1)()),
    C("AverageFrames clips", FR(0, 1), M("AverageFrames").own("clips", src()).own("clips", src(cfGray, 8, 6, 4, 5, 2)).d("weights", 1).d("weights", 2)()),
    C("PlaneStats", FR(0, 1), M("PlaneStats").own("clipa", src()).own("clipb", src(cfGray, 8, 6, 4, 5, 2))()),
    C("Expr", FR(0, 1), M("Expr").own("clips", src()).own("clips", src(cfGray, 8, 6, 4, 5, 2)).s("expr", "x y + 2 / 3 max")()),
    C("Expr planes", FR(0, 1), M("Expr").own("clips", src(cfRGB)).s("expr", "x 2 *").s("expr", "").s("expr", "7")()),
};
FILTERS(fSeveral, "filters_several_inputs", several, 2, 3, 12, 200);

static const std::vector<Case> audio = {
    C("AudioTrim", FR(0, 1), M("AudioTrim").own("clip", asrc(16, 2, 9000)).i("first", 100)()),
    C("AudioSplice", FR(0, 1), M("AudioSplice").own("clips", asrc(16, 1, 3100)).own("clips", asrc(16, 1, 4000, 2))()),
    C("AudioLoop", FR(0, 1), M("AudioLoop").own("clip", asrc(24, 1, 3100)).i("times", 3)()),
    C("AudioReverse", FR(0, 1), M("AudioReverse").own("clip", asrc(16, 1, 7000))()),
    C("AudioGain", FR(0, 1), M("AudioGain").own("clip", asrc(16, 2, 7000)).d("gain", 0.5)()),
    C("AudioGain clipping", FR(0, 1), M("AudioGain").own("clip", asrc(16, 1, 7000)).d("gain", 4)()),
    C("AudioMix", FR(0, 1), M("AudioMix").own("clips", asrc(16, 2, 7000)).d("matrix", 0.5).d("matrix", 0.25).d("matrix", 0.125).d("matrix", 1).i("channels_out", 0).i("channels_out", 1)()),
    C("AudioMix float", FR(0, 1), M("AudioMix").own("clips", asrc(0, 1, 7000)).own("clips", asrc(0, 1, 7000, 2)).d("matrix", 0.5).d("matrix", 0.25).i("channels_out", 2)()),
    C("ShuffleChannels", FR(0, 1), M("ShuffleChannels").own("clips", asrc(16, 2, 7000)).own("clips", asrc(16, 2, 4000, 2)).i("channels_in", 1).i("channels_in", 0).i("channels_out", 0).i("channels_out", 1)()),
    C("SplitChannels", FR(0, 1), M("SplitChannels").own("clip", asrc(16, 2, 7000))(1)),
    C("AssumeSampleRate", FR(0, 1), M("AssumeSampleRate").own("clip", asrc(16, 1, 7000)).i("samplerate", 8000)()),
    C("BlankAudio", FR(0, 1), M("BlankAudio").i("length", 7000)()),
    C("BlankAudio keep", FR(0, 1), M("BlankAudio").i("length", 6144).i("keep", 1)()),
    C("BlankAudio sine", FR(0, 1), M("BlankAudio").i("length", 7000).s("waveform", "sine")()),
    C("AudioResample bits", FR(0, 1), M("AudioResample").own("clip", asrc(24, 1, 7000)).i("bits", 16)()),
    C("AudioResample rate", FR(0, 1), M("AudioResample").own("clip", asrc(16, 1, 7000)).i("samplerate", 22050)()),
    C("AudioResample dither", FR(0, 1), M("AudioResample").own("clip", asrc(0, 1, 7000)).i("sampletype", 0).i("bits", 16)()),
};
FILTERS(fAudio, "filters_audio", audio, 2, 3, 12, 200);
