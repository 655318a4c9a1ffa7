// vspipe: the real program (its main function included) under the schedule explorer. The script
// layer and the files are stand-ins: a script is a set of output nodes, a file is a byte string
// whose writes can be told to fail.
#include "kit.h"
#include "VSScript4.h"
#include "VSConstants4.h"
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>

extern int vspipe_main(int argc, char **argv);

// ------------------------------------------------------------------ stand-in files
namespace {
struct VFile {
    std::string name, data;
    int writes = 0;
    int failWrite = -1;     // index of the write call that fails
    int64_t capacity = -1;  // bytes accepted before "device full"
    bool partial = false;   // a failing write accepts some bytes first
    bool failed = false;
    bool open = false;
    int opens = 0;
};
VFile g_files[4];           // out, timecodes, json, graph
VFile g_err;
bool g_unbuffered;
const char *g_names[4] = { "out", "times", "json", "graph" };

ssize_t vwrite(void *c, const char *buf, size_t n) {
    VFile *f = static_cast<VFile *>(c);
    if (!f->open)
        mc::violation("write of %zu bytes to %s after it was closed", n, f->name.c_str());
    mc::yieldPoint("write"); // writing takes time
    if (!f->open)
        mc::violation("%s was closed while it was being written", f->name.c_str());
    int k = f->writes++;
    if (f->failed) { // an output that failed once keeps failing
        errno = ENOSPC;
        return 0;
    }
    size_t take = n;
    if (k == f->failWrite)
        take = f->partial ? n / 2 : 0;
    if (f->capacity >= 0 && (int64_t)(f->data.size() + take) > f->capacity)
        take = f->capacity - f->data.size();
    f->data.append(buf, take);
    if (take < n) {
        f->failed = true;
        errno = ENOSPC;
        return take; // short: stdio reports the error
    }
    return n;
}
int vclose(void *c) {
    static_cast<VFile *>(c)->open = false;
    return 0;
}
FILE *vopen(VFile *f) {
    cookie_io_functions_t io {};
    io.write = vwrite;
    io.close = vclose;
    f->open = true;
    f->opens++;
    FILE *r = fopencookie(f, "w", io);
    if (g_unbuffered && f != &g_err)
        setvbuf(r, nullptr, _IONBF, 0);
    return r;
}
}

extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
    for (int i = 0; i < 4; i++)
        if (!strcmp(p, g_names[i]))
            return vopen(&g_files[i]);
    return __real_fopen(p, m);
}
extern "C" FILE *__real_fopen64(const char *, const char *);
extern "C" FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }

// ------------------------------------------------------------------ clips
namespace {
struct Clip {
    bool video = true;
    VSVideoInfo vi {};
    VSAudioInfo ai {};
    uint64_t salt = 1;
    std::set<int> failing;
    bool props = true;          // sets frame durations
    std::set<int> noDuration, zeroDen;
    bool richProps = false;
    int uses = 0, freed = 0;
    VSNode *node = nullptr;
    std::vector<int> asked;
};
std::map<int, std::pair<Clip *, Clip *>> g_outputs; // index -> main, alpha
std::vector<Clip *> g_clips;
std::map<std::string, std::string> g_vars;
bool g_evalFails, g_scriptFreed;
bool g_wantMade;
VSNode *g_made; // output built from registered functions
VSCore *g_core;
int g_coreMsgs;

uint8_t sampleByte(const Clip *c, int n, int plane, size_t i) { return (uint8_t)(kit::mixv(kit::mixv(c->salt, n * 4 + plane), i) >> 13); }

const VSFrame *VS_CC clipGet(int n, int ar, void *inst, void **, VSFrameContext *fc, VSCore *core, const VSAPI *a) {
    Clip *c = static_cast<Clip *>(inst);
    if (ar != arInitial)
        return nullptr;
    c->asked.push_back(n);
    if (c->failing.count(n)) {
        a->setFilterError(("clip failed at " + std::to_string(n)).c_str(), fc);
        return nullptr;
    }
    VSFrame *f;
    if (c->video) {
        f = a->newVideoFrame(&c->vi.format, c->vi.width, c->vi.height, nullptr, core);
        for (int p = 0; p < c->vi.format.numPlanes; p++) {
            size_t row = (size_t)a->getFrameWidth(f, p) * c->vi.format.bytesPerSample;
            int h = a->getFrameHeight(f, p);
            uint8_t *w = a->getWritePtr(f, p);
            __tsan_write_range(w, (size_t)a->getStride(f, p) * h);
            for (int y = 0; y < h; y++)
                for (size_t x = 0; x < row; x++)
                    w[y * a->getStride(f, p) + x] = sampleByte(c, n, p, y * row + x);
        }
    } else {
        int64_t len = std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, c->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES);
        f = a->newAudioFrame(&c->ai.format, (int)len, nullptr, core);
        for (int ch = 0; ch < c->ai.format.numChannels; ch++) {
            uint8_t *w = a->getWritePtr(f, ch);
            __tsan_write_range(w, len * c->ai.format.bytesPerSample);
            for (int64_t i = 0; i < len * c->ai.format.bytesPerSample; i++)
                w[i] = sampleByte(c, n, ch, i);
        }
    }
    VSMap *m = a->getFramePropertiesRW(f);
    if (c->props && !c->noDuration.count(n)) {
        a->mapSetInt(m, "_DurationNum", n == 1 ? 2 : 1, maAppend);
        a->mapSetInt(m, "_DurationDen", c->zeroDen.count(n) ? 0 : 4, maAppend);
    }
    if (c->richProps) {
        a->mapSetInt(m, "ints", INT64_MIN, maAppend);
        a->mapSetInt(m, "ints", n, maAppend);
        static const double fl[] = { 0.1, -2.5, 1e300, 5e-324, 123456789012345678.0 };
        a->mapSetFloat(m, "flt", fl[n % 5], maAppend);
        a->mapSetData(m, "text", "q\"b\\n\nt\tc\x01 \xc3\xa4", -1, dtUtf8, maAppend);
        a->mapSetData(m, "bin", "a\0b\xff", 4, dtBinary, maAppend);
        a->mapSetData(m, "unk", "plain", 5, dtUnknown, maAppend);
        a->mapSetData(m, "unk2", "\x80\x81", 2, dtUnknown, maAppend);
        a->mapSetEmpty(m, "none", ptInt);
    }
    return f;
}
void VS_CC clipFree(void *inst, VSCore *, const VSAPI *) {
    Clip *c = static_cast<Clip *>(inst);
    if (c->freed++)
        mc::violation("filter instance freed twice");
}

// ------------------------------------------------------------------ stand-in script layer
const VSAPI *VS_CC sGetVSAPI(int v) noexcept { return getVapourSynthAPI(v); }
int VS_CC sVersion() noexcept { return VSSCRIPT_API_VERSION; }
void VS_CC coreLog(int type, const char *msg, void *) {
    if (type >= mtWarning)
        g_err.data += std::string("core: ") + msg + "\n";
}
VSScript *VS_CC sCreate(VSCore *core) noexcept {
    g_core = core;
    return reinterpret_cast<VSScript *>(&g_core);
}
VSCore *VS_CC sCore(VSScript *) noexcept { return g_core; }
int VS_CC sEvalBuffer(VSScript *, const char *, const char *) noexcept { return 1; }
int VS_CC sEvalFile(VSScript *, const char *) noexcept {
    if (g_evalFails)
        return 1;
    if (g_wantMade) {
        const VSAPI *a = kit::api;
        VSPlugin *p = a->getPluginByID("com.vapoursynth.std", g_core);
        VSMap *m = a->createMap();
        a->mapSetInt(m, "length", 3, maAppend);
        for (const char *fn : { "BlankClip", "Reverse", "Interleave" }) {
            VSMap *r = a->invoke(p, fn, m);
            if (a->mapGetError(r))
                mc::violation("harness: %s", a->mapGetError(r));
            a->clearMap(m);
            VSNode *n = a->mapGetNode(r, "clip", 0, nullptr);
            a->freeMap(r);
            a->mapSetNode(m, !strcmp(fn, "BlankClip") ? "clip" : "clips", n, maAppend);
            a->mapSetNode(m, "clips", n, maAppend);
            if (!strcmp(fn, "BlankClip"))
                a->mapDeleteKey(m, "clips");
            if (g_made)
                a->freeNode(g_made);
            g_made = n;
        }
        a->freeMap(m);
    }
    for (auto c : g_clips) {
        if (c->video)
            c->node = kit::api->createVideoFilter2("Clip", &c->vi, clipGet, clipFree, fmParallel, nullptr, 0, c, g_core);
        else
            c->node = kit::api->createAudioFilter2("Clip", &c->ai, clipGet, clipFree, fmParallel, nullptr, 0, c, g_core);
        if (!c->node)
            mc::violation("harness: clip not created");
    }
    return 0;
}
const char *VS_CC sError(VSScript *) noexcept { return g_evalFails ? "script error" : nullptr; }
int VS_CC sExit(VSScript *) noexcept { return 0; }
int VS_CC sGetVar(VSScript *, const char *, VSMap *) noexcept { return 1; }
int VS_CC sSetVars(VSScript *, const VSMap *m) noexcept {
    for (int i = 0; i < kit::api->mapNumKeys(m); i++) {
        const char *k = kit::api->mapGetKey(m, i);
        g_vars[k] = kit::api->mapGetData(m, k, 0, nullptr);
    }
    return 0;
}
VSNode *VS_CC sNode(VSScript *, int i) noexcept {
    if (i == 0 && g_wantMade)
        return kit::api->addNodeRef(g_made);
    return g_outputs.count(i) ? kit::api->addNodeRef(g_outputs[i].first->node) : nullptr;
}
VSNode *VS_CC sAlpha(VSScript *, int i) noexcept { return g_outputs.count(i) && g_outputs[i].second ? kit::api->addNodeRef(g_outputs[i].second->node) : nullptr; }
int VS_CC sAlt(VSScript *, int) noexcept { return 0; }
void VS_CC sFree(VSScript *) noexcept {
    g_scriptFreed = true;
    if (g_made)
        kit::api->freeNode(g_made);
    g_made = nullptr;
    for (auto c : g_clips)
        if (c->node) {
            kit::api->freeNode(c->node);
            c->node = nullptr;
            // nothing but the output held the clip: when the program is done with it, it goes
            if (!c->freed)
                mc::violation("a clip is still referenced when the script is freed (a node reference was not released)");
        }
    kit::api->freeCore(g_core);
}
void VS_CC sCwd(VSScript *, int) noexcept {}
int VS_CC sOutputs(VSScript *, int size, int *dst) noexcept {
    int k = 0;
    for (auto &o : g_outputs) {
        if (k < size)
            dst[k] = o.first;
        k++;
    }
    return (int)g_outputs.size();
}
const VSSCRIPTAPI g_sapi = { sVersion, sGetVSAPI, sCreate, sCore, sEvalBuffer, sEvalFile, sError, sExit, sGetVar, sSetVars,
    sNode, sAlpha, sAlt, sFree, sCwd, sOutputs };
}
extern "C" const VSSCRIPTAPI *getVSScriptAPI(int) noexcept { return &g_sapi; }
extern "C" const char *getVSScriptAPILastError() noexcept { return ""; }

// ------------------------------------------------------------------ oracle
namespace {
std::string le(uint64_t v, int n) {
    std::string s;
    for (int i = 0; i < n; i++)
        s += (char)(v >> (8 * i));
    return s;
}
// the bytes of one output frame: planes in order, RGB as G, B, R; audio samples interleaved, 24 bit packed
std::string frameBytes(const Clip *c, int n) {
    std::string s;
    if (c->video) {
        const VSVideoFormat &f = c->vi.format;
        static const int gbr[3] = { 1, 2, 0 };
        for (int k = 0; k < f.numPlanes; k++) {
            int p = f.colorFamily == cfRGB ? gbr[k] : k;
            size_t w = c->vi.width >> (p ? f.subSamplingW : 0), h = c->vi.height >> (p ? f.subSamplingH : 0);
            for (size_t i = 0; i < w * h * f.bytesPerSample; i++)
                s += (char)sampleByte(c, n, p, i);
        }
    } else {
        int64_t len = std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, c->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES);
        int b = c->ai.format.bytesPerSample, out = (c->ai.format.bitsPerSample + 7) / 8;
        for (int64_t i = 0; i < len; i++)
            for (int ch = 0; ch < c->ai.format.numChannels; ch++)
                for (int k = b - out; k < b; k++)
                    s += (char)sampleByte(c, n, ch, i * b + k);
    }
    return s;
}
struct Job {
    std::vector<std::string> args;
    Clip *clip = nullptr, *alpha = nullptr;
    std::string header;
    bool y4m = false;
    int start = 0, end = -1;     // frames, inclusive
    bool expectFail = false;     // fails before any frame is written
    std::string failText;
};

int numFrames(const Clip *c) { return c->video ? c->vi.numFrames : c->ai.numFrames; }

// minimal JSON reader: enough to see whether a line is one object, and to compare it
struct Json {
    const char *p, *e;
    bool ok = true;
    std::map<std::string, std::string> vals; // key -> normalised text of the value
    static void ws(const char *&p, const char *e) { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
    std::string str() {
        std::string s;
        if (p >= e || *p != '"') { ok = false; return s; }
        for (p++; p < e && *p != '"'; p++) {
            unsigned char ch = *p;
            if (ch < 0x20) { ok = false; return s; }
            if (ch != '\\') { s += *p; continue; }
            if (++p >= e) { ok = false; return s; }
            switch (*p) {
            case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
            case 'r': s += '\r'; break; case '"': case '\\': case '/': s += *p; break;
            case 'u': {
                if (e - p < 5) { ok = false; return s; }
                s += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16);
                p += 4;
                break;
            }
            default: ok = false; return s;
            }
        }
        if (p >= e) ok = false; else p++;
        return s;
    }
    std::string value() {
        ws(p, e);
        if (p >= e) { ok = false; return ""; }
        if (*p == '"')
            return "s:" + str();
        if (*p == '[') {
            std::string r = "[";
            p++;
            while (ok) {
                r += value() + ",";
                ws(p, e);
                if (p < e && *p == ',') { p++; continue; }
                if (p < e && *p == ']') { p++; break; }
                ok = false;
            }
            return r + "]";
        }
        if (e - p >= 4 && !memcmp(p, "null", 4)) { p += 4; return "null"; }
        const char *q = p;
        if (p < e && *p == '-') p++;
        int digits = 0;
        while (p < e && *p >= '0' && *p <= '9') { p++; digits++; }
        bool frac = false;
        if (p < e && *p == '.') { frac = true; p++; while (p < e && *p >= '0' && *p <= '9') { p++; digits++; } }
        if (!digits) ok = false;
        std::string t(q, p);
        if (frac || t.size() > 20) { // compare as the double it denotes
            char b[40];
            snprintf(b, sizeof b, "d:%a", strtod(t.c_str(), nullptr));
            return b;
        }
        return "n:" + t;
    }
    explicit Json(const std::string &s) : p(s.data()), e(s.data() + s.size()) {
        ws(p, e);
        if (p >= e || *p++ != '{') { ok = false; return; }
        ws(p, e);
        if (p < e && *p == '}') { p++; return; }
        while (ok) {
            ws(p, e);
            std::string k = str();
            ws(p, e);
            if (p >= e || *p++ != ':') { ok = false; return; }
            vals[k] = value();
            ws(p, e);
            if (p < e && *p == ',') { p++; continue; }
            if (p < e && *p == '}') { p++; break; }
            ok = false;
        }
        ws(p, e);
        if (p != e) ok = false;
    }
};
std::string dbl(double v) {
    char b[40];
    snprintf(b, sizeof b, "d:%a", v);
    return b;
}
std::string numText(double v) { // a double that prints without a fraction reads back as an integer text
    if (v == std::floor(v) && std::fabs(v) < 1e15)
        return "n:" + std::to_string((int64_t)v);
    return dbl(v);
}
std::map<std::string, std::string> propsOf(const Clip *c, int n) {
    std::map<std::string, std::string> m;
    if (c->props && !c->noDuration.count(n)) {
        m["_DurationNum"] = n == 1 ? "n:2" : "n:1";
        m["_DurationDen"] = c->zeroDen.count(n) ? "n:0" : "n:4";
    }
    if (c->richProps) {
        m["ints"] = "[n:-9223372036854775808,n:" + std::to_string(n) + ",]";
        static const double fl[] = { 0.1, -2.5, 1e300, 5e-324, 123456789012345678.0 };
        m["flt"] = n % 5 == 4 ? "n:123456789012345680" : numText(fl[n % 5]);
        m["text"] = "s:q\"b\\n\nt\tc\x01 \xc3\xa4";
        m["bin"] = "s:[binary data size: 4]";
        m["unk"] = "s:plain";
        m["unk2"] = "s:[binary data size: 2]";
        m["none"] = "null";
    }
    return m;
}

std::vector<std::string> lines(const std::string &s) {
    std::vector<std::string> r;
    size_t p = 0;
    while (p < s.size()) {
        size_t q = s.find('\n', p);
        if (q == std::string::npos)
            q = s.size();
        r.push_back(s.substr(p, q - p));
        p = q + 1;
    }
    return r;
}
bool isPrefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }

int runPipe(const Job &j) {
    for (int i = 0; i < 4; i++)
        g_files[i].name = g_names[i];
    g_err.name = "stderr";
    std::vector<char *> av;
    std::vector<std::string> st = j.args;
    st.insert(st.begin(), "vspipe");
    st.insert(st.begin() + 1, "script.vpy");
    for (auto &s : st)
        av.push_back(s.data());
    av.push_back(nullptr);
    FILE *so = stdout, *se = stderr;
    bool toStdout = false;
    for (auto &a : j.args)
        if (a == "-")
            toStdout = true;
    stderr = vopen(&g_err);
    setvbuf(stderr, nullptr, _IONBF, 0);
    if (toStdout)
        stdout = vopen(&g_files[0]);
    int rc = vspipe_main((int)st.size(), av.data());
    if (toStdout) { // what the C library does at exit; nothing looks at its result
        fflush(stdout);
        fclose(stdout);
    }
    fclose(stderr);
    stdout = so;
    stderr = se;
    return rc;
}

// everything the property says about one run
void judge(const Job &j, int rc, bool hasTimes, bool hasJson, bool toNowhere = false) {
    const std::string &out = g_files[0].data;
    int first = j.start, last = j.end < 0 ? numFrames(j.clip) - 1 : j.end;
    if (j.expectFail) {
        if (rc == 0)
            mc::violation("exit code 0, a failure was expected (%s)", j.failText.c_str());
        if (!out.empty() && !isPrefix(out, j.header))
            mc::violation("%zu bytes written although the job could not start", out.size());
        if (g_err.data.find(j.failText) == std::string::npos)
            mc::violation("no message about the failure: '%s'", g_err.data.c_str());
    } else {
        std::string full = j.header;
        std::vector<size_t> upto { full.size() };
        int failAt = last + 1; // first frame that cannot be produced
        for (int n = first; n <= last; n++) {
            if (failAt > last && (j.clip->failing.count(n) || (j.alpha && j.alpha->failing.count(n))))
                failAt = n;
            if (j.y4m)
                full += "FRAME\n";
            full += frameBytes(j.clip, n);
            if (j.alpha)
                full += frameBytes(j.alpha, n);
            upto.push_back(full.size());
        }
        int durFail = last + 1;
        if (hasTimes)
            for (int n = last; n >= first; n--)
                if (j.clip->noDuration.count(n) || j.clip->zeroDen.count(n) || !j.clip->props)
                    durFail = n;
        bool ioFailed = false;
        for (int i = 0; i < 3; i++)
            ioFailed |= g_files[i].failed;
        bool mustFail = failAt <= last || durFail <= last;
        if (toNowhere) {
            if (!out.empty() || g_files[0].opens)
                mc::violation("output written although none was wanted");
        } else {
            if (!isPrefix(out, full))
                mc::violation("the output is not the requested frames in order (%zu bytes, expected %zu; first difference at %zu)", out.size(), full.size(),
                    (size_t)(std::mismatch(out.begin(), out.begin() + std::min(out.size(), full.size()), full.begin()).first - out.begin()));
            if (out.size() > upto[failAt - first])
                mc::violation("bytes of frames after the failing frame %d were written", failAt);
            if (durFail <= last && out.size() > upto[durFail + 1 - first])
                mc::violation("frames were written after the one whose duration is missing");
        }
        if (rc == 0) {
            if (mustFail)
                mc::violation("exit code 0 although frame %d failed", std::min(failAt, durFail));
            if (ioFailed)
                mc::violation("exit code 0 although an output did not accept every byte (%s wrote %zu bytes)",
                    g_files[0].failed ? "out" : g_files[1].failed ? "timecodes" : "json", out.size());
            if (!toNowhere && out != full)
                mc::violation("exit code 0 but only %zu of %zu bytes were written", out.size(), full.size());
            std::string tail = j.clip->video ? "Output " + std::to_string(last - first + 1) + " frames" : "Output ";
            if (g_err.data.find(tail) == std::string::npos)
                mc::violation("the summary does not name the number of frames: '%s'", g_err.data.c_str());
        } else {
            if (!mustFail && !ioFailed)
                mc::violation("exit code %d although nothing failed: '%s'", rc, g_err.data.c_str());
            if (g_err.data.find("Error: ") == std::string::npos)
                mc::violation("failure without a message: '%s'", g_err.data.c_str());
            if (failAt <= last && durFail > last && !ioFailed) {
                bool named = false;
                for (int n = first; n <= last; n++)
                    if (j.clip->failing.count(n) || (j.alpha && j.alpha->failing.count(n)))
                        named |= g_err.data.find("frame " + std::to_string(n - first) + " with error: ") != std::string::npos && g_err.data.find("clip failed at " + std::to_string(n)) != std::string::npos;
                if (!named)
                    mc::violation("the failure message does not name a failing frame: '%s'", g_err.data.c_str());
            }
            // a file that saw no failure holds whole frames only
            if (!toNowhere && !g_files[0].failed) {
                bool whole = out.size() < j.header.size() ? ioFailed : false;
                for (size_t u : upto)
                    whole |= u == out.size();
                if (!whole)
                    mc::violation("a frame was cut although the output accepted every byte");
            }
        }
        if (hasTimes) {
            auto l = lines(g_files[1].data);
            if (rc == 0 || !g_files[1].failed) {
                if (l.empty() || l[0] != "# timecode format v2") {
                    if (rc == 0 || !ioFailed)
                        mc::violation("timecodes header missing");
                } else {
                    double t = 0;
                    size_t k = 1;
                    for (int n = first; n <= last && k < l.size(); n++, k++) {
                        if (std::fabs(strtod(l[k].c_str(), nullptr) - t) > 1e-6)
                            mc::violation("timecode of frame %d is %s, expected %f", n, l[k].c_str(), t);
                        t += 1000.0 * (n == 1 ? 2 : 1) / 4;
                    }
                    if (rc == 0 && (k != l.size() || l.size() != (size_t)(last - first + 2)))
                        mc::violation("%zu timecode lines for %d frames", l.size() - 1, last - first + 1);
                    if (k != l.size())
                        mc::violation("more timecodes than frames");
                }
            }
        }
        if (hasJson && rc == 0) {
            auto l = lines(g_files[2].data);
            if (l.size() != (size_t)(last - first + 3) || l.front() != "[" || l.back() != "]")
                mc::violation("the JSON file is not a list of %d objects: %s", last - first + 1, g_files[2].data.c_str());
            for (int n = first; n <= last; n++) {
                std::string s = l[n - first + 1];
                bool comma = !s.empty() && s.back() == ',';
                if (comma != (n != last))
                    mc::violation("JSON list separator wrong at frame %d", n);
                if (comma)
                    s.pop_back();
                Json js(s);
                if (!js.ok)
                    mc::violation("invalid JSON for frame %d: %s", n, s.c_str());
                if (js.vals != propsOf(j.clip, n)) {
                    std::string d;
                    auto want = propsOf(j.clip, n);
                    for (auto &v : js.vals)
                        if (!want.count(v.first) || want[v.first] != v.second)
                            d += " got " + v.first + "=" + v.second;
                    for (auto &v : want)
                        if (!js.vals.count(v.first) || js.vals[v.first] != v.second)
                            d += " want " + v.first + "=" + v.second;
                    mc::violation("JSON of frame %d differs:%s", n, d.c_str());
                }
            }
        }
        // each frame is requested exactly once on success
        if (rc == 0)
            for (const Clip *c : { (const Clip *)j.clip, (const Clip *)j.alpha })
                if (c) {
                    std::vector<int> a = c->asked;
                    std::sort(a.begin(), a.end());
                    bool ok = (int)a.size() == last - first + 1;
                    for (int i = 0; ok && i < (int)a.size(); i++)
                        ok = a[i] == first + i;
                    if (!ok)
                        mc::violation("the frames produced (%zu) are not the requested ones, each once", a.size());
                }
    }
    for (auto c : g_clips)
        if (c->node == nullptr && g_scriptFreed && !c->freed)
            mc::violation("filter instance never freed");
    mc::outcome("rc" + std::to_string(rc) + " bytes" + std::to_string(out.size()));
    g_outputs.clear();
    for (auto c : g_clips)
        delete c;
    g_clips.clear();
}

Clip *videoClip(int cf, int st, int bits, int sw, int sh, int w, int h, int frames, uint64_t salt) {
    Clip *c = new Clip;
    if (!kit::api->queryVideoFormat(&c->vi.format, cf, st, bits, sw, sh, nullptr))
        mc::violation("harness: format");
    c->vi.width = w;
    c->vi.height = h;
    c->vi.numFrames = frames;
    c->vi.fpsNum = 24;
    c->vi.fpsDen = 1;
    c->salt = salt;
    g_clips.push_back(c);
    return c;
}
Clip *audioClip(int st, int bits, uint64_t layout, int64_t samples, uint64_t salt) {
    Clip *c = new Clip;
    c->video = false;
    if (!kit::api->queryAudioFormat(&c->ai.format, st, bits, layout, nullptr))
        mc::violation("harness: audio format");
    c->ai.sampleRate = 44100;
    c->ai.numSamples = samples;
    c->ai.numFrames = (int)((samples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES);
    c->salt = salt;
    g_clips.push_back(c);
    return c;
}
// more alternatives than one choice point offers
unsigned pick(unsigned n, const char *tag) {
    unsigned hi = mc::choose((n + 7) / 8, 0, tag);
    unsigned lo = mc::choose(std::min(8u, n - hi * 8), 0, tag);
    return hi * 8 + lo;
}
void pipeSetup() { kit::api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION); }
void out(Clip *c, Clip *a = nullptr) { g_outputs[0] = { c, a }; }
}

#define PIPE(fn, name, cpus, qb, tb, qs, ts, flags) \
    static void fn(); \
    static mc::Registrar fn##Reg({ name, "C21", pipeSetup, fn, flags | mc::fNoLeak, qb, tb, cpus, qs, ts }); \
    static void fn()

// completion order against the reorder buffer
PIPE(pipeOrder, "pipe_order", 2, 2, 3, 12, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 1);
    out(j.clip);
    j.args = { "out", "-r", "2" };
    judge(j, runPipe(j), false, false);
}
PIPE(pipeOrderSpurious, "pipe_order_spurious", 2, 1, 2, 8, 100, mc::fSpurious) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 1);
    out(j.clip);
    j.args = { "out", "-r", "2" };
    judge(j, runPipe(j), false, false);
}
// the default number of requests follows the number of threads; three frames in flight
PIPE(pipeThree, "pipe_three_workers", 3, 1, 2, 8, 120, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 4, 1);
    out(j.clip);
    j.args = { "out", "-c", "y4m" };
    j.y4m = true;
    j.header = "YUV4MPEG2 Cmono W5 H2 F24:1 Ip A0:0 XLENGTH=4\n";
    judge(j, runPipe(j), false, false);
}
PIPE(pipeAlpha, "pipe_alpha", 2, 2, 2, 12, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 1);
    j.alpha = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 77);
    out(j.clip, j.alpha);
    j.args = { "out", "-r", "2" };
    judge(j, runPipe(j), false, false);
}
// the same clip as picture and alpha
PIPE(pipeAlphaSame, "pipe_alpha_same_clip", 2, 1, 2, 5, 60, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 1);
    j.alpha = j.clip;
    out(j.clip, j.alpha);
    j.args = { "out", "-r", "2" };
    int rc = runPipe(j);
    std::sort(j.clip->asked.begin(), j.clip->asked.end());
    j.clip->asked.erase(std::unique(j.clip->asked.begin(), j.clip->asked.end()), j.clip->asked.end()); // picture and alpha ask separately
    judge(j, rc, false, false);
}
// a frame that cannot be produced, at every position
PIPE(pipeError, "pipe_frame_error", 2, 1, 3, 10, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 1);
    unsigned k = mc::choose(4, 0, "failing");
    if (k < 3)
        j.clip->failing = { (int)k };
    else
        j.clip->failing = { 0, 2 };
    out(j.clip);
    j.args = { "out", "-r", mc::choose(2, 0, "requests") ? "2" : "1" };
    judge(j, runPipe(j), false, false);
}
PIPE(pipeAlphaError, "pipe_alpha_error", 2, 1, 2, 12, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 1);
    j.alpha = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 77);
    unsigned k = mc::choose(6, 0, "failing");
    (k < 3 ? j.clip : j.alpha)->failing = { (int)(k % 3) };
    out(j.clip, j.alpha);
    j.args = { "out", "-r", "2" };
    judge(j, runPipe(j), false, false);
}
// each write fails in turn (every stdio write reaches the file by itself)
PIPE(pipeWriteError, "pipe_write_error", 2, 1, 2, 15, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 1);
    out(j.clip);
    j.args = { "out", "-c", "y4m", "-r", "2" };
    j.y4m = true;
    j.header = "YUV4MPEG2 Cmono W5 H2 F24:1 Ip A0:0 XLENGTH=3\n";
    g_unbuffered = true;
    g_files[0].failWrite = mc::choose(8, 0, "failing write");
    g_files[0].partial = mc::choose(2, 0, "partial");
    judge(j, runPipe(j), false, false);
}
// buffered output: the failure only shows when the buffer is written
PIPE(pipeFull, "pipe_output_full", 2, 1, 2, 10, 100, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 1);
    out(j.clip);
    int kind = mc::choose(4, 0, "file");
    j.args = { kind == 3 ? "-" : "out", "-r", "2" };
    bool t = false, js = false;
    if (kind == 1) { j.args.push_back("-t"); j.args.push_back("times"); t = true; }
    if (kind == 2) { j.args.push_back("-j"); j.args.push_back("json"); js = true; }
    g_files[kind % 3].capacity = mc::choose(2, 0, "capacity") ? 7 : 0;
    judge(j, runPipe(j), t, js);
}
PIPE(pipeAux, "pipe_timecodes_json_error", 2, 1, 2, 15, 150, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 3, 1);
    unsigned k = pick(14, "what");
    if (k >= 1 && k <= 3)
        j.clip->noDuration = { (int)k - 1 };
    else if (k >= 4 && k <= 6)
        j.clip->zeroDen = { (int)k - 4 };
    else if (k >= 7) {
        g_unbuffered = true;
        g_files[k < 11 ? 1 : 2].failWrite = (k - 7) % 4;
    }
    out(j.clip);
    j.args = { "out", "-r", "2", "-t", "times", "-j", "json" };
    judge(j, runPipe(j), true, true);
}
// progress output reads and writes the shared statistics
PIPE(pipeProgress, "pipe_progress", 2, 1, 2, 8, 80, mc::fClock) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 2, 1);
    out(j.clip);
    j.args = { "out", "-r", "2", "-p" };
    judge(j, runPipe(j), false, false);
}

// ------------------------------------------------------------------ one schedule, every mode
PIPE(pipeFormats, "pipe_formats", 1, 0, 1, 10, 60, 0) {
    struct F { int cf, st, bits, sw, sh; const char *y4m; };
    static const F fs[] = {
        { cfGray, stInteger, 8, 0, 0, "mono" }, { cfGray, stInteger, 10, 0, 0, "mono10" }, { cfGray, stInteger, 16, 0, 0, "mono16" },
        { cfYUV, stInteger, 8, 1, 1, "420" }, { cfYUV, stInteger, 8, 1, 0, "422" }, { cfYUV, stInteger, 8, 0, 0, "444" },
        { cfYUV, stInteger, 8, 2, 2, "410" }, { cfYUV, stInteger, 8, 2, 0, "411" }, { cfYUV, stInteger, 8, 0, 1, "440" },
        { cfYUV, stInteger, 10, 1, 1, "420p10" }, { cfYUV, stInteger, 16, 0, 0, "444p16" }, { cfYUV, stInteger, 12, 1, 0, "422p12" },
        { cfYUV, stFloat, 32, 0, 0, "444ps" }, { cfYUV, stFloat, 16, 1, 1, "420ph" }, { cfYUV, stInteger, 8, 3, 0, nullptr },
        { cfRGB, stInteger, 8, 0, 0, nullptr }, { cfRGB, stInteger, 16, 0, 0, nullptr }, { cfRGB, stFloat, 32, 0, 0, nullptr }, { cfRGB, stInteger, 10, 0, 0, nullptr },
    };
    const F &f = fs[pick(19, "format")];
    Job j;
    int w = mc::choose(2, 0, "width") ? 64 : 8;
    j.clip = videoClip(f.cf, f.st, f.bits, f.sw, f.sh, w, 4, 2, 1);
    int mode = mc::choose(4, 0, "mode"); // raw, y4m, alpha, y4m with alpha
    if (mode >= 2)
        j.alpha = videoClip(cfGray, f.st, f.bits, 0, 0, w, 4, 2, 77);
    out(j.clip, j.alpha);
    j.args = { mc::choose(2, 0, "stdout") ? "-" : "out" };
    if (mode & 1) {
        j.args.insert(j.args.end(), { "-c", "y4m" });
        j.y4m = true;
        if (f.y4m && mode == 1)
            j.header = std::string("YUV4MPEG2 C") + f.y4m + " W" + std::to_string(w) + " H4 F24:1 Ip A0:0 XLENGTH=2\n";
        else {
            j.expectFail = true;
            j.failText = "Error: ";
        }
    }
    judge(j, runPipe(j), false, false);
}
PIPE(pipeRange, "pipe_range", 1, 0, 1, 10, 60, 0) {
    // every start/end pair of a short clip, with and without alpha, and ranges that do not exist
    const int N = 4;
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, N, 1);
    if (mc::choose(2, 0, "alpha"))
        j.alpha = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, N, 77);
    out(j.clip, j.alpha);
    int s = (int)mc::choose(N + 3, 0, "start") - 1, e = (int)mc::choose(N + 3, 0, "end") - 1; // -1: not given
    j.args = { "out", "-r", "2" };
    if (s >= 0)
        j.args.insert(j.args.end(), { "--start", std::to_string(s) });
    if (e >= 0)
        j.args.insert(j.args.end(), { "--end", std::to_string(e) });
    bool rs = mc::choose(2, 0, "times");
    if (rs)
        j.args.insert(j.args.end(), { "-t", "times", "-j", "json" });
    j.start = s < 0 ? 0 : s;
    j.end = e;
    if (s >= N || e >= N || (e >= 0 && j.start > e)) {
        j.expectFail = true;
        j.failText = "Trim: ";
    }
    if (rs) { // timecodes count from the first frame written: durations differ at frame 1
        if (!j.expectFail && j.start > 1) { /* oracle uses absolute frame numbers */ }
    }
    judge(j, runPipe(j), rs && !j.expectFail, rs && !j.expectFail);
}
PIPE(pipeAudio, "pipe_audio", 2, 0, 1, 12, 80, 0) {
    struct A { int st, bits; };
    static const A as[] = { { stInteger, 16 }, { stInteger, 24 }, { stInteger, 32 }, { stFloat, 32 } };
    const A &a = as[mc::choose(4, 0, "format")];
    static const uint64_t layouts[] = { 1ull << acFrontCenter, (1ull << acFrontLeft) | (1ull << acFrontRight), (1ull << acFrontLeft) | (1ull << acFrontRight) | (1ull << acLowFrequency) };
    uint64_t lay = layouts[mc::choose(3, 0, "layout")];
    int64_t samples = mc::choose(2, 0, "length") ? VS_AUDIO_FRAME_SAMPLES * 2 + 5 : 7;
    Job j;
    j.clip = audioClip(a.st, a.bits, lay, samples, 3);
    out(j.clip);
    int mode = mc::choose(4, 0, "container");
    j.args = { "out" };
    int nc = j.clip->ai.format.numChannels, ob = (a.bits + 7) / 8;
    std::string pcm = le(0xFFFE, 2) + le(nc, 2) + le(44100, 4) + le(44100 * nc * ob, 4) + le(nc * ob, 2) + le(ob * 8, 2) + le(22, 2) + le(a.bits, 2) + le(lay, 4) +
        le(a.st == stFloat ? 3 : 1, 4) + le(0, 2) + le(0x10, 2) + std::string("\x80\x00\x00\xAA\x00\x38\x9B\x71", 8);
    uint64_t bytes = (uint64_t)samples * nc * ob;
    if (mode == 1) {
        j.args.insert(j.args.end(), { "-c", "wav" });
        j.header = "RIFF" + le(bytes + 60, 4) + "WAVEfmt " + le(40, 4) + pcm + "data" + le(bytes, 4);
    } else if (mode == 2) {
        j.args.insert(j.args.end(), { "-c", "w64" });
        static const std::string g("\xF3\xAC\xD3\x11\x8C\xD1\x00\xC0\x4F\x8E\xDB\x8A", 12);
        j.header = std::string("riff\x2E\x91\xCF\x11\xA5\xD6\x28\xDB\x04\xC1\x00\x00", 16) + le(bytes + 128, 8) + "wave" + g + "fmt " + g + le(64, 8) + pcm + "data" + g + le(bytes + 24, 8);
    } else if (mode == 3) {
        j.args.insert(j.args.end(), { "-c", "y4m" });
        j.expectFail = true;
        j.failText = "Error: ";
    }
    judge(j, runPipe(j), false, false);
}
// properties of every kind in the JSON file
PIPE(pipeJson, "pipe_json", 1, 0, 1, 5, 40, 0) {
    Job j;
    j.clip = videoClip(cfGray, stInteger, 8, 0, 0, 5, 2, 6, 1);
    j.clip->richProps = true;
    j.clip->props = !mc::choose(2, 0, "durations");
    out(j.clip);
    bool none = mc::choose(2, 0, "no output");
    j.args = { none ? "--" : "out", "-j", "json" };
    judge(j, runPipe(j), false, true, none);
}
// runs that cannot start, and the modes that write no frames
PIPE(pipeModes, "pipe_modes", 1, 0, 1, 5, 40, 0) {
    Job j;
    int k = mc::choose(7, 0, "mode");
    j.clip = videoClip(cfYUV, stInteger, 10, 1, 1, 8, 4, 3, 1);
    j.clip->ai.numFrames = 0;
    out(j.clip);
    j.expectFail = true;
    switch (k) {
    case 0: g_evalFails = true; j.args = { "out" }; j.failText = "Script evaluation failed"; g_clips.clear(); delete j.clip; break;
    case 1: j.args = { "out", "-o", "5" }; j.failText = "Failed to retrieve output node"; break;
    case 2: j.clip->vi.width = j.clip->vi.height = 0; j.args = { "out" }; j.failText = "varying dimensions"; break;
    case 3: j.clip->vi.format = {}; j.args = { "out", "-c", "y4m" }; j.failText = ""; break;
    case 4: j.args = { "out", "-c", "wav" }; j.failText = "Error: "; break;
    case 5: {
        j.args = { "-i", "-", "-a", "key=va=lue" };
        int rc = runPipe(j);
        const std::string &o = g_files[0].data;
        for (const char *s : { "Output Index: 0\n", "Type: Video\n", "Width: 8\n", "Height: 4\n", "Frames: 3\n", "FPS: 24/1 (24.000 fps)\n", "Format Name: YUV420P10\n", "Alpha: No\n", "Bits: 10\n", "SubSampling W: 1\n" })
            if (o.find(s) == std::string::npos)
                mc::violation("info output lacks '%s': %s", s, o.c_str());
        if (rc != 0)
            mc::violation("info: exit code %d", rc);
        if (g_vars != std::map<std::string, std::string> { { "key", "va=lue" } })
            mc::violation("script argument not passed on unchanged");
        if (!j.clip->asked.empty() || !j.clip->freed)
            mc::violation("info: frames produced or instance not freed");
        return;
    }
    case 6: {
        // a graph of three functions, the last with two edges to the second
        bool full = mc::choose(2, 0, "graph kind");
        j.args = { "-g", full ? "full" : "simple", "-" };
        g_wantMade = true;
        g_clips.clear();
        delete j.clip;
        int rc = runPipe(j);
        const std::string &o = g_files[0].data;
        if (rc != 0 || o.find("digraph {") != 0 || o.find("BlankClip") == std::string::npos || o.find("Reverse") == std::string::npos || o.find("Interleave") == std::string::npos)
            mc::violation("graph mode: exit %d, %s", rc, o.c_str());
        return;
    }
    }
    int rc = runPipe(j);
    if (k == 0) {
        if (rc == 0 || g_err.data.find(j.failText) == std::string::npos || !g_files[0].data.empty() || !g_scriptFreed)
            mc::violation("script failure: exit %d '%s'", rc, g_err.data.c_str());
        return;
    }
    if (!g_scriptFreed)
        mc::violation("script not freed");
    judge(j, rc, false, false);
}
