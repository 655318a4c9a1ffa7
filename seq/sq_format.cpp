// C11: formats, ids, names, clip descriptions, against an independent description of what is valid
#include "vk.h"
#include <climits>
#include <set>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;

namespace {
struct Session { Session() { newCore(1); } ~Session() { dropCore(); } };
struct V { int cf, st, bits, ssw, ssh; };
bool valid(const V &v) {
    if (v.cf != cfGray && v.cf != cfRGB && v.cf != cfYUV) return false;
    if (v.ssw < 0 || v.ssw > 4 || v.ssh < 0 || v.ssh > 4) return false;
    if (v.cf != cfYUV && (v.ssw || v.ssh)) return false;
    if (v.st == stInteger) return v.bits >= 8 && v.bits <= 32;
    if (v.st == stFloat) return v.bits == 16 || v.bits == 32;
    return false;
}
int bytesFor(int bits) { return bits == 8 ? 1 : bits <= 16 ? 2 : 4; }
std::string refName(const V &v) {
    if (v.cf == cfUndefined) return "Undefined";
    std::string suf = v.st == stFloat ? (v.bits == 32 ? "S" : "H") : std::to_string(v.cf == cfRGB ? 3 * v.bits : v.bits);
    if (v.cf == cfGray) return "Gray" + suf;
    if (v.cf == cfRGB) return "RGB" + suf;
    static const std::map<std::pair<int, int>, std::string> k = {{{1, 1}, "420"}, {{1, 0}, "422"}, {{0, 0}, "444"}, {{2, 2}, "410"}, {{2, 0}, "411"}, {{0, 1}, "440"}};
    auto it = k.find({v.ssw, v.ssh});
    if (it != k.end()) return "YUV" + it->second + "P" + suf;
    return "YUVssw" + std::to_string(v.ssw) + "ssh" + std::to_string(v.ssh) + "P" + suf;
}
bool is(const VSVideoFormat &f, const V &v) {
    return f.colorFamily == v.cf && f.sampleType == v.st && f.bitsPerSample == v.bits && f.subSamplingW == v.ssw && f.subSamplingH == v.ssh &&
        f.bytesPerSample == bytesFor(v.bits) && f.numPlanes == (v.cf == cfGray ? 1 : 3);
}
const VSFrame *VS_CC noFrame(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }
// tries to create a filter with this description, returns whether it was accepted
bool make(const VSVideoInfo &vi) {
    VSNode *a = api->createVideoFilter2("x", &vi, noFrame, nullptr, fmParallel, nullptr, 0, nullptr, core);
    VSMap *m = api->createMap();
    api->createVideoFilter(m, "x", &vi, noFrame, nullptr, fmParallel, nullptr, 0, nullptr, core);
    int err;
    VSNode *b = api->mapGetError(m) ? nullptr : api->mapGetNode(m, "clip", 0, &err);
    CHECK(!!a == !!b && !!b == !api->mapGetError(m), "createVideoFilter and createVideoFilter2 disagree");
    for (VSNode *n : {a, b}) if (n) {
        const VSVideoInfo &g = *api->getVideoInfo(n);
        CHECK(sameFormat(g.format, vi.format) && g.width == vi.width && g.height == vi.height && g.numFrames == vi.numFrames && g.fpsNum == vi.fpsNum && g.fpsDen == vi.fpsDen, "the node has another description");
        CHECK(api->getNodeType(n) == mtVideo, "node type");
        api->freeNode(n);
    }
    api->freeMap(m);
    step();
    return a;
}
bool makeA(const VSAudioInfo &ai) {
    VSNode *a = api->createAudioFilter2("x", &ai, noFrame, nullptr, fmParallel, nullptr, 0, nullptr, core);
    VSMap *m = api->createMap();
    api->createAudioFilter(m, "x", &ai, noFrame, nullptr, fmParallel, nullptr, 0, nullptr, core);
    int err;
    VSNode *b = api->mapGetError(m) ? nullptr : api->mapGetNode(m, "clip", 0, &err);
    CHECK(!!a == !!b && !!b == !api->mapGetError(m), "createAudioFilter and createAudioFilter2 disagree");
    for (VSNode *n : {a, b}) if (n) {
        const VSAudioInfo &g = *api->getAudioInfo(n);
        CHECK(!memcmp(&g.format, &ai.format, sizeof(ai.format)) && g.sampleRate == ai.sampleRate && g.numSamples == ai.numSamples, "the node has another description");
        CHECK(g.numFrames == (ai.numSamples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES, "number of audio frames %d", g.numFrames);
        CHECK(api->getNodeType(n) == mtAudio, "node type");
        api->freeNode(n);
    }
    api->freeMap(m);
    step();
    return a;
}
}

SEQ_CASE(videoGrid, "format_video_grid", "C11", true, "colour family -1..16, sample type -1..16, bits -1..66 and extremes, both subsamplings -2..6 and extremes: query, id, name, round trips, and a clip of every valid format") {
    Session s;
    std::vector<int> cfs, bits, sst;
    for (int i = -1; i <= 16; i++) cfs.push_back(i);
    for (int b : {INT_MIN, INT_MAX, 256, 264, 288, -248}) bits.push_back(b);
    for (int b = -1; b <= 66; b++) bits.push_back(b);
    for (int x : {INT_MIN, INT_MAX, 256, 257, -255}) sst.push_back(x);
    for (int x = -2; x <= 6; x++) sst.push_back(x);
    std::map<uint32_t, std::string> ids;
    for (int cf : cfs) for (int st = -1; st <= 16; st++) for (int b : bits) {
        if (!item()) continue;
        for (int w : sst) for (int h : sst) {
            V v{cf, st, b, w, h};
            cur("family %d sample type %d bits %d subsampling %d,%d", cf, st, b, w, h);
            VSVideoFormat f;
            memset(&f, 0x5a, sizeof f);
            bool got = api->queryVideoFormat(&f, cf, st, b, w, h, core);
            uint32_t id = api->queryVideoFormatID(cf, st, b, w, h, core);
            exec(); step();
            if (cf == cfUndefined) {
                CHECK(id == 0, "undefined format has id %x", id);
                continue;
            }
            CHECK(got == valid(v), "query %s", got ? "accepted an invalid combination" : "refused a valid combination");
            CHECK((id != 0) == got, "id %x for a %s format", id, got ? "valid" : "invalid");
            if (!got) {
                VSVideoFormat g = {};
                g.colorFamily = cf; g.sampleType = st; g.bitsPerSample = b; g.bytesPerSample = 1; g.subSamplingW = w; g.subSamplingH = h; g.numPlanes = 3;
                char nb[64];
                memset(nb, 7, sizeof nb);
                CHECK(!api->getVideoFormatName(&g, nb), "an invalid format has a name");
                continue;
            }
            CHECK(is(f, v), "inconsistent structure: planes %d bytes %d bits %d", f.numPlanes, f.bytesPerSample, f.bitsPerSample);
            VSVideoFormat g = {};
            CHECK(api->getVideoFormatByID(&g, id, core) && is(g, v), "id %x converts to another format", id);
            char name[33];
            memset(name, 'x', sizeof name);
            name[32] = 0;
            CHECK(api->getVideoFormatName(&f, name), "no name");
            CHECK(strlen(name) < 32 && name == refName(v), "name is '%s' instead of '%s'", name, refName(v).c_str());
            CHECK(!ids.count(id) || ids[id] == name, "id %x used twice", id);
            ids[id] = name;
            state(id);
            // a clip of this format, and every inconsistent variant of the structure
            CHECK(make(mkvi(f, 64, 64, 1)), "clip refused");
            for (int k = 0; k < 6; k++) {
                VSVideoInfo vi = mkvi(f, 64, 64, 1);
                if (k == 0) vi.format.numPlanes = f.numPlanes == 3 ? 1 : 3;
                if (k == 1) vi.format.numPlanes = 4;
                if (k == 2) vi.format.bytesPerSample = f.bytesPerSample == 4 ? 2 : f.bytesPerSample * 2;
                if (k == 3) vi.format.bytesPerSample = f.bytesPerSample == 1 ? 4 : f.bytesPerSample / 2;
                if (k == 4) vi.format.numPlanes = 0;
                if (k == 5) vi.format.bytesPerSample = 3;
                cur("clip with family %d sample type %d bits %d and planes %d bytes %d", cf, st, b, vi.format.numPlanes, vi.format.bytesPerSample);
                CHECK(!make(vi), "inconsistent format accepted");
            }
        }
    }
}
SEQ_CASE(videoIds, "format_ids", "C11", true, "every 32 bit id composed of family 0..15, sample type 0..15, bits in {0..40,64,128,255}, subsampling bytes in {0..6,255}; every format constant of the public header") {
    Session s;
    std::vector<int> bits;
    for (int b = 0; b <= 40; b++) bits.push_back(b);
    for (int b : {64, 128, 255}) bits.push_back(b);
    for (int cf = 1; cf < 16; cf++) for (int st = 0; st < 16; st++) {
        if (!item()) continue;
        for (int b : bits) for (int w : {0, 1, 2, 3, 4, 5, 6, 255}) for (int h : {0, 1, 2, 3, 4, 5, 6, 255}) {
            uint32_t id = (uint32_t)cf << 28 | st << 24 | b << 16 | w << 8 | h;
            V v{cf, st, b, w, h};
            cur("id %08x", id);
            VSVideoFormat f = {};
            bool got = api->getVideoFormatByID(&f, id, core);
            exec(); step();
            CHECK(got == valid(v), "id %s", got ? "of an invalid format accepted" : "of a valid format refused");
            if (got) {
                CHECK(is(f, v), "wrong format");
                CHECK(api->queryVideoFormatID(f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, core) == id, "id does not round trip");
            }
        }
    }
    struct { uint32_t id; const char *name; } k[] = {
        {pfGray8, "Gray8"}, {pfGray9, "Gray9"}, {pfGray10, "Gray10"}, {pfGray12, "Gray12"}, {pfGray14, "Gray14"}, {pfGray16, "Gray16"}, {pfGray32, "Gray32"}, {pfGrayH, "GrayH"}, {pfGrayS, "GrayS"},
        {pfYUV410P8, "YUV410P8"}, {pfYUV411P8, "YUV411P8"}, {pfYUV440P8, "YUV440P8"}, {pfYUV420P8, "YUV420P8"}, {pfYUV422P8, "YUV422P8"}, {pfYUV444P8, "YUV444P8"},
        {pfYUV420P9, "YUV420P9"}, {pfYUV422P9, "YUV422P9"}, {pfYUV444P9, "YUV444P9"}, {pfYUV420P10, "YUV420P10"}, {pfYUV422P10, "YUV422P10"}, {pfYUV444P10, "YUV444P10"},
        {pfYUV420P12, "YUV420P12"}, {pfYUV422P12, "YUV422P12"}, {pfYUV444P12, "YUV444P12"}, {pfYUV420P14, "YUV420P14"}, {pfYUV422P14, "YUV422P14"}, {pfYUV444P14, "YUV444P14"},
        {pfYUV420P16, "YUV420P16"}, {pfYUV422P16, "YUV422P16"}, {pfYUV444P16, "YUV444P16"}, {pfYUV444PH, "YUV444PH"}, {pfYUV444PS, "YUV444PS"},
        {pfRGB24, "RGB24"}, {pfRGB27, "RGB27"}, {pfRGB30, "RGB30"}, {pfRGB36, "RGB36"}, {pfRGB42, "RGB42"}, {pfRGB48, "RGB48"}, {pfRGBH, "RGBH"}, {pfRGBS, "RGBS"}};
    for (auto &e : k) {
        if (!item()) continue;
        cur("constant %s", e.name);
        VSVideoFormat f = {};
        char name[32] = {};
        CHECK(api->getVideoFormatByID(&f, e.id, core), "refused");
        CHECK(api->getVideoFormatName(&f, name) && !strcmp(name, e.name), "is named %s", name);
        exec(); step(); state(e.id);
    }
    if (item()) {
        cur("getVideoFormatByID(0)");
        VSVideoFormat f;
        memset(&f, 1, sizeof f);
        if (api->getVideoFormatByID(&f, 0, core)) CHECK(f.colorFamily == cfUndefined && !f.numPlanes && !f.bitsPerSample, "id 0 is a defined format");
    }
}
SEQ_CASE(videoInfoGrid, "format_video_info", "C11", true, "clip descriptions: width and height in {-1,0,1,2,2^31-1}, frames in {-1,0,1,2,2^31-1}, 13x13 frame rate values, four formats including undefined and half undefined ones") {
    Session s;
    std::vector<VSVideoFormat> fs;
    fs.push_back(fmt(cfGray, stInteger, 8));
    fs.push_back(fmt(cfYUV, stFloat, 32, 1, 1));
    VSVideoFormat u = {};
    fs.push_back(u);
    for (int k = 0; k < 8; k++) {
        VSVideoFormat x = u;
        if (k == 0) x.bitsPerSample = 7;
        if (k == 1) x.numPlanes = 1;
        if (k == 2) x.bytesPerSample = 1;
        if (k == 3) x.subSamplingW = 1;
        if (k == 4) x.sampleType = stFloat;
        if (k == 5) x.subSamplingH = 1;
        if (k == 6) x.colorFamily = 5;
        if (k == 7) x.colorFamily = -1;
        fs.push_back(x);
    }
    std::vector<int64_t> r = {INT64_MIN, -2, -1, 0, 1, 2, 3, 4, 25, 1001, 24000, INT64_MAX - 1, INT64_MAX};
    for (size_t fi = 0; fi < fs.size(); fi++) for (int w : {-1, 0, 1, 2, INT_MAX}) for (int h : {-1, 0, 1, 2, INT_MAX}) for (int n : {INT_MIN, -1, 0, 1, 2, INT_MAX}) {
        if (!item()) continue;
        for (int64_t num : r) for (int64_t den : r) {
            if (num == INT64_MIN || den == INT64_MIN) continue; // reducing these is not defined
            VSVideoInfo vi = {};
            vi.format = fs[fi]; vi.width = w; vi.height = h; vi.numFrames = n; vi.fpsNum = num; vi.fpsDen = den;
            cur("clip with format #%zu %dx%d, %d frames, fps %ld/%ld", fi, w, h, n, (long)num, (long)den);
            auto gcd = [](int64_t a, int64_t b) { while (b) { int64_t t = a % b; a = b; b = t; } return a; };
            bool fps = num >= 0 && den >= 0 && ((num == 0 && den == 0) || (num > 0 && den > 0 && gcd(num, den) == 1));
            // one of both zero: only the reduced forms could be meant, left undecided here
            if (num >= 0 && den >= 0 && (num == 0) != (den == 0)) continue;
            bool want = fi <= 2 && n >= 1 && w >= 0 && h >= 0 && (w == 0) == (h == 0) && fps;
            bool got = make(vi);
            exec();
            CHECK(got == want, "%s", got ? "invalid description accepted" : "valid description refused");
            if (got) state(seq::mix(fi, seq::mix(w * 7 + h, seq::mix(num, den))));
        }
    }
}
SEQ_CASE(audioGrid, "format_audio_grid", "C11", true, "sample type -1..4, bits -1..66 and extremes, 200 channel layouts: query, name, and audio clips with sample rates and lengths around every limit, inconsistent structures") {
    Session s;
    std::vector<uint64_t> lay = {0, 1, 2, 3, 4, 7, 8, 0x3f, 0xff, 0x63f, ~0ull, 1ull << 63, (1ull << 63) | 1, 0x5555555555555555ull, 0x1000000000ull};
    for (int i = 0; i < 64; i++) lay.push_back(1ull << i), lay.push_back((1ull << i) - 1), lay.push_back(3ull << i);
    std::vector<int> bits = {INT_MIN, INT_MAX, 272, 256 + 32};
    for (int b = -1; b <= 66; b++) bits.push_back(b);
    const int64_t maxS = (int64_t)INT_MAX * VS_AUDIO_FRAME_SAMPLES;
    for (int st = -1; st <= 4; st++) for (int b : bits) {
        if (!item()) continue;
        for (uint64_t l : lay) {
            cur("audio sample type %d bits %d layout %lx", st, b, (unsigned long)l);
            bool want = l && ((st == stInteger && b >= 16 && b <= 32) || (st == stFloat && b == 32));
            VSAudioFormat f;
            memset(&f, 0x5a, sizeof f);
            bool got = api->queryAudioFormat(&f, st, b, l, core);
            exec(); step();
            CHECK(got == want, "query %s", got ? "accepted an invalid combination" : "refused a valid combination");
            if (!got) continue;
            int ch = __builtin_popcountll(l);
            CHECK(f.sampleType == st && f.bitsPerSample == b && f.bytesPerSample == (b == 16 ? 2 : 4) && f.numChannels == ch && f.channelLayout == l, "inconsistent structure");
            char name[40];
            memset(name, 'x', sizeof name);
            CHECK(api->getAudioFormatName(&f, name), "no name");
            std::string want2 = "Audio" + std::to_string(b) + (st == stFloat ? "F" : "") + " (" + std::to_string(ch) + " CH)";
            CHECK(want2 == name, "name '%s' instead of '%s'", name, want2.c_str());
            state(seq::mix(b, l));
            VSAudioInfo ai = {};
            ai.format = f; ai.sampleRate = 44100; ai.numSamples = 1;
            for (int k = 0; k < 5; k++) {
                VSAudioInfo x = ai;
                if (k == 0) x.format.numChannels++;
                if (k == 1) x.format.numChannels--;
                if (k == 2) x.format.bytesPerSample = b == 16 ? 4 : 2;
                if (k == 3) x.format.bytesPerSample = 3;
                if (k == 4) x.format.channelLayout = l ^ (1ull << 40);
                cur("audio clip with inconsistent format %d bits %d layout %lx variant %d", st, b, (unsigned long)l, k);
                CHECK(!makeA(x), "inconsistent format accepted");
            }
            for (int rate : {INT_MIN, -1, 0, 1, 44100, INT_MAX}) for (int64_t n : {INT64_MIN, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)3071, (int64_t)3072, (int64_t)3073, maxS - 1, maxS, maxS + 1, INT64_MAX}) {
                VSAudioInfo x = ai;
                x.sampleRate = rate; x.numSamples = n;
                cur("audio clip %d bits %d layout %lx rate %d samples %ld", st, b, (unsigned long)l, rate, (long)n);
                CHECK(makeA(x) == (rate >= 1 && n >= 1 && n <= maxS), "acceptance of the description");
            }
        }
    }
}
// helpers of the public header that filters rely on
SEQ_CASE(helpers, "format_helpers", "C11", true, "reduceRational, muldivRational, addRational on all pairs from 24 values up to 2^31") {
    Session s;
    std::vector<int64_t> k = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 25, 30, 60, 1000, 1001, 24000, 30000, 60000, 65536, 1000000, 2147483647};
    for (int64_t a : k) for (int64_t b : k) {
        if (!item()) continue;
        cur("rationals %ld/%ld", (long)a, (long)b);
        int64_t n = a, d = b;
        vsh::reduceRational(&n, &d);
        CHECK((__int128)n * b == (__int128)d * a && std::__gcd(n, d) == 1 && n > 0 && d > 0, "reduceRational gives %ld/%ld", (long)n, (long)d);
        exec();
        for (int64_t c : k) for (int64_t e : k) {
            cur("muldivRational(%ld/%ld, %ld, %ld)", (long)a, (long)b, (long)c, (long)e);
            int64_t n2 = a, d2 = b;
            __int128 pn = (__int128)a * c, pd = (__int128)b * e;
            __int128 x = pn, y = pd;
            while (y) { __int128 t = x % y; x = y; y = t; }
            pn /= x; pd /= x;
            if (pn > INT64_MAX || pd > INT64_MAX) continue;
            // intermediate products that overflow are outside the contract
            if ((__int128)a * c > INT64_MAX || (__int128)b * e > INT64_MAX) continue;
            vsh::muldivRational(&n2, &d2, c, e);
            int64_t n3 = a, d3 = b;
            vsh::addRational(&n3, &d3, c, e);
            CHECK(d3 > 0 && (__int128)n3 * b * e == (__int128)d3 * (a * (__int128)e + c * (__int128)b) , "addRational(%ld/%ld) gives %ld/%ld", (long)c, (long)e, (long)n3, (long)d3);
            step();
            CHECK(n2 == (int64_t)pn && d2 == (int64_t)pd, "gives %ld/%ld", (long)n2, (long)d2);
        }
    }
}
