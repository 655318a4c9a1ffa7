// C08: frames as values: every history of creating, sharing, writing and releasing against plain copies.
#include "vk.h"
#include <algorithm>
#include <set>
#include <unistd.h>
using namespace vk;
using seq::cur;

namespace {
int64_t usedMem() { VSCoreInfo ci; api->getCoreInfo(core, &ci); return ci.usedFramebufferSize; }
struct Session {
    Session(int flags = 0) { newCore(1, flags); }
    ~Session() {
        for (int i = 0; i < 20000 && usedMem(); i++) usleep(500);   // a worker may still be letting go of the last request
        CHECK(usedMem() == 0, "%lld bytes of frame memory still counted as used at the end", (long long)usedMem()); dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str()); }
};
struct MF {                         // model of one frame
    bool live = false;
    int np = 0; uint8_t tag[4] = {}; bool known[4] = {};
    std::map<std::string, int64_t> props;
    std::shared_ptr<MF> inner;      // frame stored as a property
};
const int W = 6, H = 4;

struct World {
    bool audio;
    VSVideoFormat vf; VSAudioFormat af;
    const VSFrame *f[4] = {};
    MF m[4];
    N node;
    uint8_t tag = 0;
    int64_t val = 0;
    int planes() { return audio ? af.numChannels : 3; }
    void fill(VSFrame *fr, int p, uint8_t t) {
        uint8_t *w = api->getWritePtr(fr, p);
        CHECK(w, "no write pointer for plane %d", p);
        if (audio) memset(w, t, api->getFrameLength(fr) * af.bytesPerSample);
        else for (int y = 0; y < api->getFrameHeight(fr, p); y++) memset(w + y * api->getStride(fr, p), t, api->getFrameWidth(fr, p) * vf.bytesPerSample);
    }
    void drop(int i) { api->freeFrame(f[i]); f[i] = nullptr; m[i] = {}; }
    void checkFrame(const VSFrame *fr, const MF &mo, const char *who) {
        CHECK(api->getFrameType(fr) == (audio ? mtAudio : mtVideo), "%s has the wrong type", who);
        std::set<const uint8_t *> ptrs;
        for (int p = 0; p < mo.np; p++) {
            const uint8_t *r = api->getReadPtr(fr, p);
            CHECK(r && (ptrs.insert(r).second || !audio), "%s: channels share memory", who);
            if (!mo.known[p]) continue;
            if (audio) {
                int n = api->getFrameLength(fr) * af.bytesPerSample;
                for (int x = 0; x < n; x++) CHECK(r[x] == mo.tag[p], "%s channel %d byte %d is %d, expected %d", who, p, x, r[x], mo.tag[p]);
            } else {
                int w = api->getFrameWidth(fr, p) * vf.bytesPerSample;
                for (int y = 0; y < api->getFrameHeight(fr, p); y++)
                    for (int x = 0; x < w; x++) { uint8_t g = r[y * api->getStride(fr, p) + x]; CHECK(g == mo.tag[p], "%s plane %d (%d,%d) is %d, expected %d", who, p, x, y, g, mo.tag[p]); }
            }
        }
        const VSMap *pr = api->getFramePropertiesRO(fr);
        CHECK(api->mapNumKeys(pr) == (int)mo.props.size() + (mo.inner ? 1 : 0), "%s has %d properties, expected %d", who, api->mapNumKeys(pr), (int)mo.props.size() + (mo.inner ? 1 : 0));
        for (auto &p : mo.props) {
            int e = 0; int64_t g = api->mapGetInt(pr, p.first.c_str(), 0, &e);
            CHECK(e == 0 && g == p.second, "%s property %s is %lld (code %d), expected %lld", who, p.first.c_str(), (long long)g, e, (long long)p.second);
        }
        if (mo.inner) {
            int e = 0; const VSFrame *g = api->mapGetFrame(pr, "f", 0, &e);
            CHECK(g, "%s lost its frame property", who);
            checkFrame(g, *mo.inner, "frame stored as a property");
            api->freeFrame(g);
        }
        seq::step(mo.np + 1);
    }
};
struct Op { std::string name; std::function<bool(World &)> can; std::function<void(World &)> run; std::vector<int> needs; int makes = -1, kills = -1, notLive = -1; };
std::string slot(int i) { return std::string("f") + char('0' + i); }

void addOps(std::vector<Op> &o, int slots, bool audio) {
    auto live = [](int i) { return [i](World &w) { return w.m[i].live; }; };
    for (int i = 0; i < slots; i++) {
        o.push_back({slot(i) + "=new", [i](World &w) { return !w.m[i].live; }, [i](World &w) {
            VSFrame *n = w.audio ? api->newAudioFrame(&w.af, 5, nullptr, core) : api->newVideoFrame(&w.vf, W, H, nullptr, core);
            w.f[i] = n; w.m[i] = {}; w.m[i].live = true; w.m[i].np = w.planes();
            for (int p = 0; p < w.planes(); p++) { w.fill(n, p, ++w.tag); w.m[i].tag[p] = w.tag; w.m[i].known[p] = true; }
        }});
        o.push_back({"free " + slot(i), live(i), [i](World &w) { w.drop(i); }});
        for (int p = 0; p < 2; p++)
            o.push_back({"write " + slot(i) + "." + char('0' + p), live(i), [i, p](World &w) {
                w.fill(const_cast<VSFrame *>(w.f[i]), p, ++w.tag); w.m[i].tag[p] = w.tag; w.m[i].known[p] = true;
            }});
        o.push_back({"set property of " + slot(i), live(i), [i](World &w) {
            api->mapSetInt(api->getFramePropertiesRW(const_cast<VSFrame *>(w.f[i])), "p", ++w.val, maReplace); w.m[i].props["p"] = w.val;
        }});
        o.push_back({"delete property of " + slot(i), live(i), [i](World &w) {
            int had = (int)w.m[i].props.erase("p");
            CHECK(api->mapDeleteKey(api->getFramePropertiesRW(const_cast<VSFrame *>(w.f[i])), "p") == had, "deleting a property did not report %d", had);
        }});
        o.push_back({"clear properties of " + slot(i), live(i), [i](World &w) { api->clearMap(api->getFramePropertiesRW(const_cast<VSFrame *>(w.f[i]))); w.m[i].props.clear(); w.m[i].inner = nullptr; }});
        for (int j = 0; j < slots; j++) if (i != j) {
            o.push_back({slot(j) + "=copy of " + slot(i), live(i), [i, j](World &w) {
                const VSFrame *n = api->copyFrame(w.f[i], core);
                MF mo = w.m[i];
                w.drop(j); w.f[j] = n; w.m[j] = mo;
            }});
            if (j == i + 1 || (i == slots - 1 && j == 0)) {
                o.push_back({slot(i) + ".f=" + slot(j), [i, j](World &w) { return w.m[i].live && w.m[j].live && !w.m[j].inner; }, [i, j](World &w) {
                    api->mapSetFrame(api->getFramePropertiesRW(const_cast<VSFrame *>(w.f[i])), "f", w.f[j], maReplace);
                    // the stored reference is the same frame: later writes go to a private copy instead
                    w.m[i].inner = std::make_shared<MF>(w.m[j]);
                    const VSFrame *n = api->copyFrame(w.f[j], core);
                    api->freeFrame(w.f[j]); w.f[j] = n;
                }});
                o.push_back({slot(j) + "=copy of " + slot(i) + ".f", [i](World &w) { return w.m[i].live && w.m[i].inner; }, [i, j](World &w) {
                    int e; const VSFrame *g = api->mapGetFrame(api->getFramePropertiesRO(w.f[i]), "f", 0, &e);
                    CHECK(g, "frame property missing");
                    const VSFrame *n = api->copyFrame(g, core);
                    MF mo = *w.m[i].inner;
                    api->freeFrame(g);
                    w.drop(j); w.f[j] = n; w.m[j] = mo;
                }});
            }
        }
    }
    // planes taken from two frames, properties from either or none
    static const int PL[][3] = {{1, 0, 2}, {2, 2, 0}, {0, -1, 1}};
    for (int v = 0; v < 3; v++) for (int ps = -1; ps < 2; ps++) {
        if (v && ps == 1) continue;
        std::string nm = slot(slots - 1) + "=new from {f0." + std::to_string(PL[v][0]) + ", " + (PL[v][1] < 0 ? "none" : "f1." + std::to_string(PL[v][1])) + ", f0." + std::to_string(PL[v][2]) + "} props of " + (ps < 0 ? "none" : slot(ps));
        o.push_back({nm, [](World &w) { return w.m[0].live && w.m[1].live; }, [v, ps, slots](World &w) {
            const VSFrame *src[3] = {w.f[0], PL[v][1] < 0 ? nullptr : w.f[1], w.f[0]};
            int pl[3] = {PL[v][0], PL[v][1], PL[v][2]};
            VSFrame *n = w.audio ? api->newAudioFrame2(&w.af, 5, src, pl, ps < 0 ? nullptr : w.f[ps], core)
                                 : api->newVideoFrame2(&w.vf, W, H, src, pl, ps < 0 ? nullptr : w.f[ps], core);
            MF mo; mo.live = true; mo.np = w.planes();
            for (int p = 0; p < 3; p++) if (src[p]) { const MF &s = w.m[src[p] == w.f[0] ? 0 : 1]; mo.tag[p] = s.tag[pl[p]]; mo.known[p] = s.known[pl[p]]; }
            if (ps >= 0) { mo.props = w.m[ps].props; mo.inner = w.m[ps].inner; }
            w.drop(slots - 1); w.f[slots - 1] = n; w.m[slots - 1] = mo;
        }});
    }
    o.push_back({"f1=new with properties of f0", [](World &w) { return w.m[0].live; }, [](World &w) {
        VSFrame *n = w.audio ? api->newAudioFrame(&w.af, 5, w.f[0], core) : api->newVideoFrame(&w.vf, W, H, w.f[0], core);
        MF mo; mo.live = true; mo.np = w.planes(); mo.props = w.m[0].props; mo.inner = w.m[0].inner;
        w.drop(1); w.f[1] = n; w.m[1] = mo;
    }});
    for (auto &op : o) {
        const std::string &n = op.name;
        for (size_t i = 3; i + 1 < n.size(); i++) if (n[i] == 'f' && n[i + 1] >= '0' && n[i + 1] < '4' && !isalpha(n[i - 1])) op.needs.push_back(n[i + 1] - '0');
        if (n[0] == 'f' && isdigit(n[1]) && n[2] == '=') { op.makes = n[1] - '0'; if (n == slot(op.makes) + "=new") op.notLive = op.makes; }
        if (n[0] == 'f' && isdigit(n[1]) && n[2] == '.') op.needs.push_back(n[1] - '0');
        if (!n.compare(0, 5, "free ")) op.kills = n[6] - '0';
    }
    if (!audio) {
        o.push_back({"f0=copy of a node's frame", [](World &) { return true; }, [](World &w) {
            std::string e; F g = get(w.node, 0, &e); CHECK(!!g, "getFrame failed: %s", e.c_str());
            const VSFrame *n = api->copyFrame(g.p, core);
            MF mo; mo.live = true; mo.np = 3; for (int p = 0; p < 3; p++) { mo.tag[p] = 200 + p; mo.known[p] = true; } mo.props["n"] = 7;
            w.drop(0); w.f[0] = n; w.m[0] = mo;
        }, {}, 0});
        o.push_back({"f1=new from a node's planes", [](World &) { return true; }, [](World &w) {
            std::string e; F g = get(w.node, 0, &e); CHECK(!!g, "getFrame failed: %s", e.c_str());
            const VSFrame *src[3] = {g.p, g.p, g.p}; int pl[3] = {2, 1, 0};
            const VSFrame *n = api->newVideoFrame2(&w.vf, W, H, src, pl, g.p, core);
            MF mo; mo.live = true; mo.np = 3; for (int p = 0; p < 3; p++) { mo.tag[p] = 202 - p; mo.known[p] = true; } mo.props["n"] = 7;
            w.drop(1); w.f[1] = n; w.m[1] = mo;
        }, {}, 1});
    }
}
uint64_t hashM(World &w, int slots) {
    uint64_t h = 1; std::map<int, int> ren;
    for (int i = 0; i < slots; i++) for (int p = 0; p < 3; p++) {
        int t = !w.m[i].live ? -1 : w.m[i].tag[p];
        h = seq::mix(h, ren.emplace(t, (int)ren.size()).first->second);
        h = seq::mix(h, w.m[i].live + 2 * w.m[i].props.size() + 8 * !!w.m[i].inner);
    }
    return h;
}
// every applicable sequence: re-executed from scratch for each leaf of the tree
void runAll(bool audio, int slots, int depth, int flags) {
    Session s(flags);
    N node;
    if (!audio) {
        node = source(mkvi(fmt(cfYUV, stInteger, 8, 0, 0), W, H, 1), [](int, VSFrame *f) {
            for (int p = 0; p < 3; p++) for (int y = 0; y < H; y++) memset(api->getWritePtr(f, p) + y * api->getStride(f, p), 200 + p, W);
            setInt(f, "n", 7);
        });
        api->setCacheMode(node.p, cmForceEnable);
    }
    std::vector<Op> ops; addOps(ops, slots, audio);
    std::vector<int> path;
    int64_t base = -1;
    std::function<void()> exec = [&]() {
        std::string d;
        for (int i : path) d += ops[i].name + "; ";
        cur("%s", d.c_str());
        World w; w.audio = audio; w.node = node;
        if (audio) api->queryAudioFormat(&w.af, stInteger, 16, 0x7, core); else w.vf = fmt(cfYUV, stInteger, 8, 0, 0);
        bool applies = true;
        for (int i : path) { if (!ops[i].can(w)) { applies = false; break; } ops[i].run(w); }
        if (!applies) { for (int i = 0; i < slots; i++) w.drop(i); return; }
        seq::exec();
        for (int i = 0; i < slots; i++) if (w.m[i].live) w.checkFrame(w.f[i], w.m[i], slot(i).c_str());
        if (node) {
            std::string e; F g = get(node, 0, &e);
            CHECK(!!g, "getFrame failed: %s", e.c_str());
            MF mo; mo.np = 3; for (int p = 0; p < 3; p++) { mo.tag[p] = 200 + p; mo.known[p] = true; } mo.props["n"] = 7;
            w.checkFrame(g.p, mo, "the node's frame");
        }
        seq::state(hashM(w, slots));
        // release in an order that depends on the sequence
        for (int k = 0; k < slots; k++) { int i = (k + (int)path.size() + path[0]) % slots; w.drop(i); for (int j = 0; j < slots; j++) if (w.m[j].live) w.checkFrame(w.f[j], w.m[j], "frame after another was freed"); }
        int64_t u = usedMem();
        if (base < 0) base = u;
        CHECK(u == base, "%lld bytes of frame memory in use after everything was freed, expected %lld", (long long)u, (long long)base);
    };
    if (node) { get(node, 0); base = usedMem(); }
    // applicability is tracked on the model alone
    std::function<void(int)> rec = [&](int d) {
        if (!path.empty() && seq::item()) exec();
        if (d == 0) return;
        for (size_t i = 0; i < ops.size(); i++) {
            path.push_back((int)i);
            // only what decides liveness; the execution itself stops at an operation that does not apply
            bool ok = true; bool lv[4] = {};
            for (size_t k = 0; k < path.size() && ok; k++) {
                const Op &op = ops[path[k]];
                for (int q : op.needs) ok = ok && lv[q];
                ok = ok && (op.notLive < 0 || !lv[op.notLive]);
                if (op.makes >= 0) lv[op.makes] = true;
                if (op.kills >= 0) lv[op.kills] = false;
            }
            if (ok) rec(d - 1);
            path.pop_back();
        }
    };
    rec(depth);
}
}

SEQ_CASE(frameHistories, "frame_histories", "C08,C07,C13", true, "every applicable sequence of up to 5 (thorough: 6) operations out of ~47 on two video frame slots plus one built from planes: new, copy, copy from planes, write, properties, frame as property, node's cached frame, free") {
    runAll(false, 2, seq::thorough ? 6 : 5, 0);
}
SEQ_CASE(frameHistories3, "frame_histories3", "C08,C07,C13", true, "the same with three slots to depth 5 (thorough: 6)") {
    runAll(false, 3, seq::thorough ? 6 : 5, 0);
}
SEQ_CASE(frameHistoriesDebug, "frame_histories_refdebug", "C08,C07", true, "the same with frame reference debugging enabled, depth 3 (thorough: 4)") {
    runAll(false, 3, seq::thorough ? 4 : 3, ccfEnableFrameRefDebug);
}
SEQ_CASE(audioHistories, "audio_frame_histories", "C08,C07,C13", true, "audio frames: new, copy, channels from two frames, write one channel, properties, free; depth 4 (thorough: 5)") {
    runAll(true, 2, seq::thorough ? 5 : 4, 0);
}
SEQ_CASE(frameShapes, "frame_shapes", "C08,C13", true, "every format x widths 1..70 and around 128, 256 (units) x heights 1..4 units: dimensions, strides, alignment, disjoint planes, every byte writable and kept; audio: every channel count 1..8 x lengths around 1, 64, 3072") {
    Session s;
    std::vector<VSVideoFormat> fs;
    for (int b : {8, 9, 16, 17, 32}) { fs.push_back(fmt(cfGray, stInteger, b)); fs.push_back(fmt(cfRGB, stInteger, b)); }
    for (int b : {16, 32}) { fs.push_back(fmt(cfGray, stFloat, b)); fs.push_back(fmt(cfYUV, stFloat, b, 1, 1)); }
    for (int sw = 0; sw <= 4; sw++) for (int shh = 0; shh <= 4; shh++) { fs.push_back(fmt(cfYUV, stInteger, 8, sw, shh)); fs.push_back(fmt(cfYUV, stInteger, 16, sw, shh)); }
    for (auto &f : fs) for (int wu = 1; wu <= 260; wu += (wu < 70 ? 1 : wu < 126 ? 56 : wu < 130 ? 1 : wu < 254 ? 124 : 1)) for (int hu = 1; hu <= 4; hu++) {
        if (!seq::item()) continue;
        int w = wu << f.subSamplingW, h = hu << f.subSamplingH;
        cur("%s %dx%d", fname(f).c_str(), w, h);
        seq::exec();
        seq::state(seq::mix(f.bitsPerSample * 100 + f.colorFamily * 7 + f.sampleType, f.subSamplingW * 5 + f.subSamplingH) + w * 64 + h);
        const VSFrame *fr[2];
        for (int k = 0; k < 2; k++) fr[k] = api->newVideoFrame(&f, w, h, nullptr, core);
        for (int k = 0; k < 2; k++) {
            VSFrame *x = const_cast<VSFrame *>(fr[k]);
            CHECK(sameFormat(*api->getVideoFrameFormat(x), f) && api->getFrameType(x) == mtVideo, "wrong format");
            for (int p = 0; p < f.numPlanes; p++) {
                int pw = p ? w >> f.subSamplingW : w, ph = p ? h >> f.subSamplingH : h;
                CHECK(api->getFrameWidth(x, p) == pw && api->getFrameHeight(x, p) == ph, "plane %d is %dx%d, expected %dx%d", p, api->getFrameWidth(x, p), api->getFrameHeight(x, p), pw, ph);
                ptrdiff_t st = api->getStride(x, p);
                CHECK(st >= pw * f.bytesPerSample && st % 32 == 0, "plane %d has stride %ld for a row of %d bytes", p, (long)st, pw * f.bytesPerSample);
                const uint8_t *r = api->getReadPtr(x, p); uint8_t *wp = api->getWritePtr(x, p);
                CHECK(r == wp && (uintptr_t)r % 32 == 0, "plane %d: pointers %p %p", p, r, wp);
                for (int y = 0; y < ph; y++) memset(wp + y * st, k * 3 + p + 1, st);
            }
            CHECK(!api->getReadPtr(x, f.numPlanes) && !api->getWritePtr(x, f.numPlanes) && api->getStride(x, f.numPlanes) == 0, "pointers for a plane that does not exist");
            CHECK(!api->getReadPtr(x, -1) && !api->getWritePtr(x, -1) && api->getStride(x, -1) == 0, "pointers for plane -1");
        }
        for (int k = 0; k < 2; k++) {
            for (int p = 0; p < f.numPlanes; p++)
                for (int y = 0; y < api->getFrameHeight(fr[k], p); y++) { const uint8_t *r = api->getReadPtr(fr[k], p) + y * api->getStride(fr[k], p); for (int b = 0; b < api->getStride(fr[k], p); b++) CHECK(r[b] == k * 3 + p + 1, "plane %d overlaps other memory at row %d byte %d", p, y, b); }
            seq::step(f.numPlanes);
        }
        for (int k = 0; k < 2; k++) api->freeFrame(fr[k]);
    }
    for (int ch = 1; ch <= 8; ch++) for (int bits : {16, 24, 32, -32}) for (int len : {1, 2, 3, 63, 64, 65, 3071, 3072}) {
        if (!seq::item()) continue;
        VSAudioFormat f;
        CHECK(api->queryAudioFormat(&f, bits < 0 ? stFloat : stInteger, abs(bits), (1ull << ch) - 1, core), "audio format rejected");
        cur("audio %d channels %d bits length %d", ch, bits, len); seq::exec();
        VSFrame *fr[2];
        for (int k = 0; k < 2; k++) {
            fr[k] = api->newAudioFrame(&f, len, nullptr, core);
            CHECK(api->getFrameType(fr[k]) == mtAudio && api->getFrameLength(fr[k]) == len && api->getAudioFrameFormat(fr[k])->numChannels == ch, "wrong shape");
            for (int c = 0; c < ch; c++) { memset(api->getWritePtr(fr[k], c), k * 8 + c + 1, len * f.bytesPerSample); }
            CHECK(!api->getReadPtr(fr[k], ch) && !api->getWritePtr(fr[k], ch) && !api->getReadPtr(fr[k], -1), "pointers for a channel that does not exist");
        }
        for (int k = 0; k < 2; k++) for (int c = 0; c < ch; c++) {
            const uint8_t *r = api->getReadPtr(fr[k], c);
            CHECK((uintptr_t)r % 32 == 0, "channel %d is not aligned", c);
            for (int b = 0; b < len * f.bytesPerSample; b++) CHECK(r[b] == k * 8 + c + 1, "channel %d overlaps other memory", c);
            seq::step();
        }
        for (int k = 0; k < 2; k++) api->freeFrame(fr[k]);
    }
}
