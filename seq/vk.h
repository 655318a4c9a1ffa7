// VapourSynth access for the enumeration checkers.
#pragma once
#include "seq.h"
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include <cmath>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>

namespace vk {
extern const VSAPI *api;
extern VSCore *core;
extern int logged;                 // messages of warning level or worse since start
extern std::string lastLog;

VSCore *newCore(int threads = 1, int flags = 0);   // also sets core
void dropCore();
VSVideoFormat fmt(int family, int sampleType, int bits, int ssw = 0, int ssh = 0);
inline VSVideoFormat gray(int bits) { return fmt(cfGray, bits == 32 ? stFloat : stInteger, bits); }
std::string fname(const VSVideoFormat &f);

struct N {                          // owned node
    VSNode *p = nullptr;
    N() {}
    explicit N(VSNode *p) : p(p) {}
    N(const N &o) : p(o.p ? api->addNodeRef(o.p) : nullptr) {}
    N(N &&o) noexcept : p(o.p) { o.p = nullptr; }
    N &operator=(N o) { std::swap(p, o.p); return *this; }
    ~N() { if (p) api->freeNode(p); }
    explicit operator bool() const { return p; }
    const VSVideoInfo &vi() const { return *api->getVideoInfo(p); }
    const VSAudioInfo &ai() const { return *api->getAudioInfo(p); }
};
struct F {                          // owned frame
    const VSFrame *p = nullptr;
    F() {}
    explicit F(const VSFrame *p) : p(p) {}
    F(F &&o) noexcept : p(o.p) { o.p = nullptr; }
    F(const F &o) : p(o.p ? api->addFrameRef(o.p) : nullptr) {}
    F &operator=(F o) { std::swap(p, o.p); return *this; }
    ~F() { if (p) api->freeFrame(p); }
    explicit operator bool() const { return p; }
    int w(int pl = 0) const { return api->getFrameWidth(p, pl); }
    int h(int pl = 0) const { return api->getFrameHeight(p, pl); }
    const VSVideoFormat &f() const { return *api->getVideoFrameFormat(p); }
    double at(int pl, int x, int y) const;
    const VSMap *props() const { return api->getFramePropertiesRO(p); }
    int64_t propInt(const char *k, int64_t def = INT64_MIN) const;
};
double sampleAt(const uint8_t *row, int x, const VSVideoFormat &f);
void putSample(uint8_t *row, int x, const VSVideoFormat &f, double v);

struct A {                          // argument map
    VSMap *m;
    A() : m(api->createMap()) {}
    ~A() { api->freeMap(m); }
    A(const A &) = delete;
    A &i(const char *k, int64_t v) { api->mapSetInt(m, k, v, maAppend); return *this; }
    A &i(const char *k, const std::vector<int> &v) { if (v.empty()) api->mapSetEmpty(m, k, ptInt); for (int x : v) i(k, x); return *this; }
    A &d(const char *k, double v) { api->mapSetFloat(m, k, v, maAppend); return *this; }
    A &d(const char *k, const std::vector<double> &v) { for (double x : v) d(k, x); return *this; }
    A &s(const char *k, const std::string &v) { api->mapSetData(m, k, v.data(), (int)v.size(), dtUtf8, maAppend); return *this; }
    A &n(const char *k, const N &v) { api->mapSetNode(m, k, v.p, maAppend); return *this; }
    A &f(const char *k, const F &v) { api->mapSetFrame(m, k, v.p, maAppend); return *this; }
    A &fn(const char *k, VSFunction *f) { api->mapSetFunction(m, k, f, maAppend); return *this; }
};
struct R { N node; std::string err; bool ok() const { return err.empty(); } };
R call(const char *func, const A &a, const char *outkey = "clip", const char *plugin = "com.vapoursynth.std");
F get(const N &n, int frame, std::string *err = nullptr);

// a source clip whose frames are filled by fill(n, frame)
N source(const VSVideoInfo &vi, std::function<void(int n, VSFrame *f)> fill, int mode = fmParallel);
// a video clip whose frames come from make(n, context); null with a filter error set is an error
N maker(const VSVideoInfo &vi, std::function<const VSFrame *(int n, VSFrameContext *ctx)> make, int mode = fmParallel);
N audioSource(const VSAudioInfo &ai, std::function<void(int n, VSFrame *f, int samples)> fill);
VSVideoInfo mkvi(const VSVideoFormat &f, int w, int h, int frames, int64_t num = 25, int64_t den = 1);
VSFunction *func(std::function<void(const VSMap *in, VSMap *out)> f);
bool sameFormat(const VSVideoFormat &a, const VSVideoFormat &b);
// every property of the map as text (ints, floats, data; nodes etc. by kind and count)
std::string propText(const VSMap *m);
inline void setInt(VSFrame *f, const char *k, int64_t v) { api->mapSetInt(api->getFramePropertiesRW(f), k, v, maReplace); }
// deterministic pseudo content
inline uint32_t rnd(uint32_t a, uint32_t b, uint32_t c, uint32_t d = 0) {
    uint32_t h = a * 0x9E3779B1u ^ b * 0x85EBCA77u ^ c * 0xC2B2AE3Du ^ d * 0x27D4EB2Fu;
    h ^= h >> 15; h *= 0x2C1B3C6Du; h ^= h >> 12; h *= 0x297A2D39u; h ^= h >> 15;
    return h;
}
}
