// clips whose every sample is known, for the Python checks
#include "VapourSynth4.h"
#include <cstdint>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <atomic>
#include <condition_variable>
#include <mutex>
struct V {
    VSVideoInfo vi = {};
    VSAudioInfo ai = {};
    std::set<int64_t> fail, gate;
    std::string msg;
    int seed = 0;
};
static std::atomic<int> live{0};
static std::mutex gateLock;
static std::condition_variable gateCond;
static std::set<int> opened;
static int waiting = 0;
extern "C" __attribute__((visibility("default"))) void tsrc_open(int n) {
    std::lock_guard<std::mutex> l(gateLock);
    opened.insert(n);
    gateCond.notify_all();
}
extern "C" __attribute__((visibility("default"))) void tsrc_reset() {
    std::lock_guard<std::mutex> l(gateLock);
    opened.clear();
}
extern "C" __attribute__((visibility("default"))) int tsrc_waiting() {
    std::lock_guard<std::mutex> l(gateLock);
    return waiting;
}
extern "C" __attribute__((visibility("default"))) int tsrc_live() { return live; }
// frames behind the gate are made once tsrc_open() was called for them
static void gate(V *d, int n) {
    if (!d->gate.count(n))
        return;
    std::unique_lock<std::mutex> l(gateLock);
    waiting++;
    gateCond.wait(l, [&] { return opened.count(n) != 0; });
    waiting--;
}
static const VSFrame *VS_CC getV(int n, int reason, void *p, void **, VSFrameContext *fc, VSCore *core, const VSAPI *a) {
    V *d = (V *)p;
    if (reason != arInitial)
        return nullptr;
    gate(d, n);
    if (d->fail.count(n)) {
        a->setFilterError(d->msg.c_str(), fc);
        return nullptr;
    }
    VSFrame *f = a->newVideoFrame(&d->vi.format, d->vi.width, d->vi.height, nullptr, core);
    for (int q = 0; q < d->vi.format.numPlanes; q++) {
        uint8_t *w = a->getWritePtr(f, q);
        ptrdiff_t st = a->getStride(f, q);
        for (int y = 0; y < a->getFrameHeight(f, q); y++)
            for (int x = 0; x < a->getFrameWidth(f, q); x++) {
                uint32_t v = n * 41 + q * 83 + y * 29 + x * 7 + 1 + d->seed;
                if (d->vi.format.bytesPerSample == 1)
                    w[y * st + x] = (uint8_t)v;
                else if (d->vi.format.bytesPerSample == 2)
                    ((uint16_t *)(w + y * st))[x] = (uint16_t)(v * 31);
                else if (d->vi.format.sampleType == stFloat)
                    ((float *)(w + y * st))[x] = (float)v;
                else
                    ((uint32_t *)(w + y * st))[x] = v * 7001;
            }
    }
    a->mapSetInt(a->getFramePropertiesRW(f), "k", n, maReplace);
    return f;
}
static const VSFrame *VS_CC getA(int n, int reason, void *p, void **, VSFrameContext *fc, VSCore *core, const VSAPI *a) {
    V *d = (V *)p;
    if (reason != arInitial)
        return nullptr;
    gate(d, n);
    if (d->fail.count(n)) {
        a->setFilterError(d->msg.c_str(), fc);
        return nullptr;
    }
    int64_t at = (int64_t)n * VS_AUDIO_FRAME_SAMPLES;
    int len = (int)(d->ai.numSamples - at < VS_AUDIO_FRAME_SAMPLES ? d->ai.numSamples - at : VS_AUDIO_FRAME_SAMPLES);
    VSFrame *f = a->newAudioFrame(&d->ai.format, len, nullptr, core);
    for (int c = 0; c < d->ai.format.numChannels; c++) {
        uint8_t *w = a->getWritePtr(f, c);
        for (int i = 0; i < len; i++) {
            uint32_t v = (uint32_t)((at + i) * 3 + c * 20011 + 1 + d->seed);
            if (d->ai.format.bytesPerSample == 2)
                ((uint16_t *)w)[i] = (uint16_t)v;
            else if (d->ai.format.sampleType == stFloat)
                ((float *)w)[i] = (float)v;
            else
                ((uint32_t *)w)[i] = v << 8;
        }
    }
    return f;
}
static void VS_CC freeV(void *p, VSCore *, const VSAPI *) { delete (V *)p; live--; }
static void VS_CC create(const VSMap *in, VSMap *out, void *audio, VSCore *core, const VSAPI *a) {
    V *d = new V;
    int err;
    d->seed = a->mapGetIntSaturated(in, "seed", 0, &err);
    for (int i = 0; i < a->mapNumElements(in, "fail"); i++)
        d->fail.insert(a->mapGetInt(in, "fail", i, nullptr));
    for (int i = 0; i < a->mapNumElements(in, "gate"); i++)
        d->gate.insert(a->mapGetInt(in, "gate", i, nullptr));
    const char *m = a->mapGetData(in, "msg", 0, &err);
    d->msg = err ? "frame failed" : m;
    live++;
    if (audio) {
        uint64_t lay = 0;
        for (int i = 0; i < a->mapNumElements(in, "channels"); i++)
            lay |= 1ull << a->mapGetInt(in, "channels", i, nullptr);
        a->queryAudioFormat(&d->ai.format, a->mapGetIntSaturated(in, "sampletype", 0, nullptr), a->mapGetIntSaturated(in, "bits", 0, nullptr), lay, core);
        d->ai.sampleRate = 44100;
        d->ai.numSamples = a->mapGetInt(in, "length", 0, nullptr);
        a->createAudioFilter(out, "Audio", &d->ai, getA, freeV, fmParallel, nullptr, 0, d, core);
    } else {
        a->getVideoFormatByID(&d->vi.format, (uint32_t)a->mapGetInt(in, "format", 0, nullptr), core);
        d->vi.width = a->mapGetIntSaturated(in, "width", 0, nullptr);
        d->vi.height = a->mapGetIntSaturated(in, "height", 0, nullptr);
        d->vi.numFrames = a->mapGetIntSaturated(in, "length", 0, nullptr);
        d->vi.fpsNum = 24;
        d->vi.fpsDen = 1;
        a->createVideoFilter(out, "Video", &d->vi, getV, freeV, fmParallel, nullptr, 0, d, core);
    }
}
static void VS_CC liveNodes(const VSMap *, VSMap *out, void *, VSCore *, const VSAPI *a) { a->mapSetInt(out, "n", live, maReplace); }
static void VS_CC failWith(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) { a->mapSetError(out, a->mapGetData(in, "msg", 0, nullptr)); }
static void VS_CC echo(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *a) { a->mapConsumeFunction(out, "f", a->mapGetFunction(in, "f", 0, nullptr), maReplace); }
static void VS_CC logIt(const VSMap *in, VSMap *, void *, VSCore *core, const VSAPI *a) { a->logMessage(a->mapGetIntSaturated(in, "level", 0, nullptr), a->mapGetData(in, "msg", 0, nullptr), core); }
VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *v) {
    v->configPlugin("test.src", "tsrc", "test source", VS_MAKE_VERSION(1, 0), VAPOURSYNTH_API_VERSION, 0, plugin);
    v->registerFunction("Video", "format:int;width:int;height:int;length:int;fail:int[]:opt;msg:data:opt;seed:int:opt;gate:int[]:opt;", "clip:vnode;", create, nullptr, plugin);
    v->registerFunction("Audio", "bits:int;sampletype:int;channels:int[];length:int;fail:int[]:opt;msg:data:opt;seed:int:opt;gate:int[]:opt;", "clip:anode;", create, (void *)1, plugin);
    v->registerFunction("Live", "", "n:int;", liveNodes, nullptr, plugin);
    v->registerFunction("Fail", "msg:data;", "", failWith, nullptr, plugin);
    v->registerFunction("Echo", "f:func;", "f:func;", echo, nullptr, plugin);
    v->registerFunction("Log", "level:int;msg:data;", "", logIt, nullptr, plugin);
}
