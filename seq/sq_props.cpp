// C20: property and scripting filters against a reference on property maps.
#include "vk.h"
#include <algorithm>
#include <climits>
using namespace vk;
using seq::cur;

namespace {
struct Session {
    Session() { newCore(1); }
    ~Session() { dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str()); }
};
// a property: type and values; objects by identity
struct PV {
    int type; std::vector<std::string> v;
    bool operator==(const PV &o) const { return type == o.type && v == o.v; }
};
typedef std::map<std::string, PV> PM;
std::string ptr(const void *p) { char b[32]; snprintf(b, 32, "%p", p); return b; }
PM load(const VSMap *m) {
    PM r;
    int n = api->mapNumKeys(m);
    for (int i = 0; i < n; i++) {
        const char *k = api->mapGetKey(m, i);
        PV p; p.type = api->mapGetType(m, k);
        for (int j = 0; j < api->mapNumElements(m, k); j++)
            switch (p.type) {
            case ptInt: p.v.push_back(std::to_string(api->mapGetInt(m, k, j, nullptr))); break;
            case ptFloat: { char b[64]; snprintf(b, 64, "%a", api->mapGetFloat(m, k, j, nullptr)); p.v.push_back(b); break; }
            case ptData: p.v.push_back(std::string(api->mapGetData(m, k, j, nullptr), api->mapGetDataSize(m, k, j, nullptr)) + "/" + std::to_string(api->mapGetDataTypeHint(m, k, j, nullptr))); break;
            case ptVideoNode: case ptAudioNode: { N x(api->mapGetNode(m, k, j, nullptr)); p.v.push_back(ptr(x.p)); break; }
            case ptVideoFrame: case ptAudioFrame: { F x(api->mapGetFrame(m, k, j, nullptr));      // references to frames are distinct objects: identify by plane memory
                p.v.push_back(ptr(api->getReadPtr(x.p, 0))); break; }
            case ptFunction: { VSFunction *x = api->mapGetFunction(m, k, j, nullptr); p.v.push_back(ptr(x)); api->freeFunction(x); break; }
            default: seq::fail("property %s has type %d", k, p.type);
            }
        CHECK(!r.count(k), "key %s is listed twice", k);
        r[k] = p;
    }
    return r;
}
std::string text(const PM &m) {
    std::string r = "{";
    for (auto &x : m) {
        r += x.first + ":" + std::to_string(x.second.type) + "[";
        for (auto &v : x.second.v) r += v + ",";
        r += "] ";
    }
    return r + "}";
}
void same(const PM &got, const PM &want, const char *what) {
    CHECK(got == want, "%s: properties are %s, expected %s", what, text(got).c_str(), text(want).c_str());
}
// pixels (all planes) and dimensions
std::string pixels(const F &f) {
    std::string r = fname(f.f()) + " " + std::to_string(f.w()) + "x" + std::to_string(f.h()) + " ";
    for (int pl = 0; pl < f.f().numPlanes; pl++)
        for (int y = 0; y < f.h(pl); y++)
            r.append((const char *)api->getReadPtr(f.p, pl) + y * api->getStride(f.p, pl), (size_t)f.w(pl) * f.f().bytesPerSample);
    return r;
}
void paint(VSFrame *f, int n) {
    const VSVideoFormat &vf = *api->getVideoFrameFormat(f);
    for (int pl = 0; pl < vf.numPlanes; pl++)
        for (int y = 0; y < api->getFrameHeight(f, pl); y++)
            for (int x = 0; x < api->getFrameWidth(f, pl); x++)
                putSample(api->getWritePtr(f, pl) + y * api->getStride(f, pl), x, vf, vf.sampleType == stFloat ? rnd(n, pl, x, y) % 100 / 128.0 : rnd(n, pl, x, y) & ((1 << vf.bitsPerSample) - 1));
}
F newFrame(const VSVideoFormat &f, int w, int h, int id) {
    VSFrame *x = api->newVideoFrame(&f, w, h, nullptr, core);
    paint(x, id);
    return F(x);
}
F newAudio(int id) {
    VSAudioFormat af = {};
    api->queryAudioFormat(&af, stInteger, 16, 3, core);
    VSFrame *f = api->newAudioFrame(&af, 100, nullptr, core);
    memset(api->getWritePtr(f, 0), id, 200); memset(api->getWritePtr(f, 1), id, 200);
    return F(f);
}
VSAudioInfo audioInfo(int samples) {
    VSAudioInfo ai = {};
    api->queryAudioFormat(&ai.format, stInteger, 16, 3, core);
    ai.sampleRate = 48000; ai.numSamples = samples; ai.numFrames = (samples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES;
    return ai;
}

// the property values used: 0 = absent
struct Values {
    N vnode, anode; F vframe, vframe2, aframe; VSFunction *fn;
    Values() {
        vnode = source(mkvi(gray(8), 2, 2, 1), [](int n, VSFrame *f) { paint(f, n); });
        anode = audioSource(audioInfo(10), [](int, VSFrame *, int) {});
        vframe = newFrame(gray(8), 4, 2, 1); vframe2 = newFrame(gray(16), 2, 2, 2); aframe = newAudio(3);
        fn = func([](const VSMap *, VSMap *) {});
    }
    ~Values() { api->freeFunction(fn); }
    static constexpr int COUNT = 17;
    // not all can be given as an argument: empty arrays are rejected there
    static bool isEmpty(int i) { return i == 14 || i == 15 || i == 16; }
    void put(VSMap *m, const char *k, int i) {
        const char bin[] = {'x', 0, 'y', (char)0xff};
        switch (i) {
        case 0: break;
        case 1: api->mapSetInt(m, k, -7, maAppend); break;
        case 2: for (int64_t x : {1ll, 2ll, (long long)INT64_MIN}) api->mapSetInt(m, k, x, maAppend); break;
        case 3: api->mapSetFloat(m, k, 0.1, maAppend); break;
        case 4: for (double x : {-0.0, 1e300}) api->mapSetFloat(m, k, x, maAppend); break;
        case 5: api->mapSetData(m, k, "text", -1, dtUtf8, maAppend); break;
        case 6: api->mapSetData(m, k, bin, 4, dtBinary, maAppend); api->mapSetData(m, k, "", 0, dtUnknown, maAppend); api->mapSetData(m, k, "u", 1, dtUtf8, maAppend); break;
        case 7: api->mapSetNode(m, k, vnode.p, maAppend); break;
        case 8: api->mapSetNode(m, k, anode.p, maAppend); api->mapSetNode(m, k, anode.p, maAppend); break;
        case 9: api->mapSetFrame(m, k, vframe.p, maAppend); break;
        case 10: api->mapSetFrame(m, k, vframe2.p, maAppend); api->mapSetFrame(m, k, vframe.p, maAppend); break;
        case 11: api->mapSetFrame(m, k, aframe.p, maAppend); break;
        case 12: api->mapSetFunction(m, k, fn, maAppend); break;
        case 13: api->mapSetInt(m, k, 0, maAppend); break;
        case 14: api->mapSetEmpty(m, k, ptInt); break;
        case 15: api->mapSetEmpty(m, k, ptData); break;
        case 16: api->mapSetEmpty(m, k, ptVideoFrame); break;
        }
    }
    PM one(const char *k, int i) {
        VSMap *m = api->createMap();
        put(m, k, i);
        PM r = load(m);
        api->freeMap(m);
        return r;
    }
};
typedef std::function<void(int n, VSMap *m)> Props;
N clip(int len, Props props, int id = 0, VSVideoFormat f = VSVideoFormat{}, int w = 4, int h = 2) {
    if (!f.colorFamily) f = gray(8);
    return source(mkvi(f, w, h, len), [props, id](int n, VSFrame *fr) { paint(fr, id * 100 + n); if (props) props(n, api->getFramePropertiesRW(fr)); });
}
void unchangedInfo(const N &a, const N &b, int frames = -1) {
    const VSVideoInfo &x = a.vi(), &y = b.vi();
    CHECK(sameFormat(x.format, y.format) && x.width == y.width && x.height == y.height && x.fpsNum == y.fpsNum && x.fpsDen == y.fpsDen, "clip description changed");
    CHECK(x.numFrames == (frames < 0 ? y.numFrames : frames), "%d frames, expected %d", x.numFrames, frames < 0 ? y.numFrames : frames);
}
// every frame of the result against a reference; inputs must be unaffected
void check(const N &res, const N &src, int len, std::function<PM(int n, const PM &before)> expect) {
    for (int k = 0; k < len; k++) {
        F s = get(src, k < src.vi().numFrames ? k : src.vi().numFrames - 1);
        PM before = load(s.props());
        std::string pix = pixels(s), err;
        F g = get(res, k, &err);
        CHECK(g, "frame %d: %s", k, err.c_str());
        same(load(g.props()), expect(k, before), "result");
        CHECK(pixels(g) == pix, "frame %d: the picture changed", k);
        same(load(s.props()), before, "source frame afterwards");
        CHECK(pixels(s) == pix, "frame %d: the source picture changed", k);
        seq::exec(); seq::step();
    }
}
}

SEQ_CASE(setProp, "set_frame_prop", "C20", true,
         "SetFrameProp: every prior value (17 kinds: absent, every property type, arrays, empty arrays) of the property and of another one x every combination of intval, floatval and data (absent, one, several values, binary data with every type hint) x six property names; SetFrameProps: every pair of values under two keys on every pair of prior values") {
    Session s; Values V;
    for (const char *name : {"A", "_FieldBased", "_x", "clip", "", "Z9"})
        for (int prior = 0; prior < V.COUNT; prior++)
            for (int ni = 0; ni < 3; ni++)
                for (int nf = 0; nf < 3; nf++)
                    for (int nd = 0; nd < 4; nd++) {
                        if (!seq::item()) continue;
                        cur("SetFrameProp(prop='%s', %d ints, %d floats, %d data), prior value %d", name, ni, nf, nd, prior);
                        N c = clip(2, [&](int n, VSMap *m) { api->mapSetInt(m, "n", n, maReplace); V.put(m, "B", (prior * 5 + 3) % V.COUNT); if (*name) V.put(m, name, n ? prior : (prior + 1) % V.COUNT); });
                        A a; a.n("clip", c).s("prop", name);
                        VSMap *val = api->createMap();
                        if (ni) V.put(a.m, "intval", ni), V.put(val, *name ? name : "e", ni);
                        if (nf) V.put(a.m, "floatval", nf + 2), V.put(val, *name ? name : "e", nf + 2);
                        if (nd == 1 || nd == 2) V.put(a.m, "data", nd + 4), V.put(val, *name ? name : "e", nd + 4);
                        if (nd == 3) api->mapSetData(a.m, "data", "b\0c", 3, dtBinary, maAppend), api->mapSetData(val, *name ? name : "e", "b\0c", 3, dtBinary, maAppend);
                        PM want = load(val);
                        api->freeMap(val);
                        R r = call("SetFrameProp", a);
                        bool ok = *name && (!!ni + !!nf + !!nd) == 1;
                        CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
                        if (!ok) { seq::exec(); continue; }
                        unchangedInfo(r.node, c);
                        check(r.node, c, 2, [&](int, PM b) { b[name] = want[name]; return b; });
                        seq::state(seq::mix(prior, ni * 16 + nf * 4 + nd));
                    }
    for (int va = 0; va < V.COUNT; va++)
        for (int vb = 0; vb < V.COUNT; vb++) {
            if (V.isEmpty(va) || V.isEmpty(vb)) continue;
            if (!seq::item()) continue;
            for (int pa = 0; pa < V.COUNT; pa++)
                for (int pb : {0, 1, 6, 9, 14}) {
                    cur("SetFrameProps(A=%d, B=%d), prior values %d, %d", va, vb, pa, pb);
                    N c = clip(1, [&](int, VSMap *m) { V.put(m, "A", pa); V.put(m, "B", pb); V.put(m, "C", va); });
                    A a; a.n("clip", c); V.put(a.m, "A", va); V.put(a.m, "B", vb);
                    PM want = load(a.m);
                    want.erase("clip");
                    R r = call("SetFrameProps", a);
                    CHECK(r.ok(), "%s", r.err.c_str());
                    unchangedInfo(r.node, c);
                    check(r.node, c, 1, [&](int, PM b) { for (auto &x : want) b[x.first] = x.second; return b; });
                }
        }
}

namespace {
bool glob(const char *p, const char *s) {
    if (!*p) return !*s;
    if (*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1));
    return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1);
}
}
SEQ_CASE(removeProps, "remove_frame_props", "C20", true,
         "RemoveFrameProps: every pattern of length 0..4 over {A, B, _, *, ?} and of length 1..2 over those and the characters with a meaning in regular expressions, alone and with a second pattern, on maps of 13 properties of all types and every subset of 5; no patterns") {
    Session s; Values V;
    const std::vector<std::string> names = {"A", "AA", "AB", "ABA", "B", "BA", "_A", "A_B", "a", "_", "A1", "BBBB", "AAB"};
    auto run = [&](const std::vector<std::string> &pats, bool given, unsigned present) {
        std::string d;
        for (auto &p : pats) d += "'" + p + "' ";
        cur("RemoveFrameProps(%s%s) properties %x", given ? "props=" : "", d.c_str(), present);
        N c = clip(1, [&](int, VSMap *m) { for (size_t i = 0; i < names.size(); i++) if (present >> i & 1) V.put(m, names[i].c_str(), 1 + (int)i % 16); });
        A a; a.n("clip", c);
        if (given) for (auto &p : pats) a.s("props", p);
        R r = call("RemoveFrameProps", a);
        CHECK(r.ok(), "%s", r.err.c_str());
        unchangedInfo(r.node, c);
        check(r.node, c, 1, [&](int, PM b) {
            PM o;
            for (auto &x : b) {
                bool del = !given;
                for (auto &p : pats) del |= glob(p.c_str(), x.first.c_str());
                if (!del) o[x.first] = x.second;
            }
            return o;
        });
    };
    std::vector<std::string> pats = {""};
    const std::string al = "AB_*?", sp = "AB_*?.^$+()[]{}|\\-/ a1,:";
    for (size_t i = 0, end = pats.size(), len = 1; len <= 4; len++, end = pats.size())
        for (; i < end; i++)
            for (char ch : al) pats.push_back(pats[i] + ch);
    for (char x : sp) { pats.push_back(std::string(1, x)); for (char y : sp) pats.push_back(std::string(1, x) + y); }
    for (auto &x : {"A{2}", "[A-Z]+", "A|B", "(A)", "A**", "?*?", "\\w+", "[!A]", "A\\*"}) pats.push_back(x);
    for (size_t i = 0; i < pats.size(); i++) {
        if (!seq::item()) continue;
        run({pats[i]}, true, 0x1fff);
        run({pats[i], pats[(i * 7 + 11) % pats.size()]}, true, 0x1fff);
        if (i < 60) for (unsigned p = 0; p < 32; p++) run({pats[i]}, true, p * 0x111 & 0x1fff);
    }
    if (seq::item()) for (unsigned p = 0; p < 64; p++) run({}, false, p * 131 & 0x1fff);
    for (int v = -2; v <= 4; v++)
        for (int p1 = 0; p1 < V.COUNT; p1++)
            for (int p2 = 0; p2 < V.COUNT; p2++) {
                if (!seq::item()) continue;
                cur("SetFieldBased(%d), prior _FieldBased %d, _Field %d", v, p1, p2);
                N c = clip(1, [&](int, VSMap *m) { V.put(m, "_FieldBased", p1); V.put(m, "_Field", p2); V.put(m, "_Fiel", p2); V.put(m, "Z", p1); });
                R r = call("SetFieldBased", A().n("clip", c).i("value", v));
                CHECK(r.ok() == (v >= 0 && v <= 2), "%s", r.ok() ? "accepted" : r.err.c_str());
                seq::exec();
                if (r.ok()) check(r.node, c, 1, [&](int, PM b) { b.erase("_Field"); b["_FieldBased"] = PV{ptInt, {std::to_string(v)}}; return b; });
            }
}

SEQ_CASE(copyProps, "copy_frame_props", "C20", true,
         "CopyFrameProps: every pair of prior values (17 kinds) in the clip and in prop_src x ten lists of properties and none, for clip lengths 1..3 x 1..3 with values that differ per frame") {
    Session s; Values V;
    const std::vector<std::vector<std::string>> lists = {{}, {"A"}, {"B"}, {"A", "B"}, {"B", "A"}, {"A", "A"}, {"C"}, {"A", "C", "B"}, {"_x"}, {"D", "A"}};
    for (int va = 0; va < V.COUNT; va++)
        for (int vb = 0; vb < V.COUNT; vb++) {
            if (!seq::item()) continue;
            for (size_t li = 0; li < lists.size(); li++)
                for (int l1 = 1; l1 <= 3; l1++)
                    for (int l2 = 1; l2 <= 3; l2++) {
                        if ((va * 7 + vb + (int)li) % 3 && (l1 != 2 || l2 != 2)) continue;
                        cur("CopyFrameProps clip value %d, prop_src value %d, list %zu, lengths %d, %d", va, vb, li, l1, l2);
                        N c = clip(l1, [&](int n, VSMap *m) { V.put(m, "A", (va + n) % V.COUNT); V.put(m, "B", vb); V.put(m, "C", va); });
                        N p = clip(l2, [&](int n, VSMap *m) { V.put(m, "A", (vb + n) % V.COUNT); V.put(m, "B", (va * 3 + n) % V.COUNT); V.put(m, "D", (va + vb) % V.COUNT); V.put(m, "_x", n); }, 1);
                        A a; a.n("clip", c).n("prop_src", p);
                        for (auto &x : lists[li]) a.s("props", x);
                        R r = call("CopyFrameProps", a);
                        CHECK(r.ok(), "%s", r.err.c_str());
                        unchangedInfo(r.node, c);
                        check(r.node, c, l1, [&](int n, PM b) {
                            PM q = load(get(p, std::min(n, l2 - 1)).props());
                            if (lists[li].empty()) return q;
                            for (auto &k : lists[li]) { b.erase(k); if (q.count(k)) b[k] = q[k]; }
                            return b;
                        });
                    }
        }
}

SEQ_CASE(clipProp, "clip_to_prop", "C20", true,
         "ClipToProp: lengths 1..4 x 1..4, formats, prior values of the property, property names, clips without constant format; PropToClip undoes it; PropToClip on every sequence of 3 frames whose property is absent, a number, one or two frames of matching or other format or size, or an audio frame, x index -1..2") {
    Session s; Values V;
    for (int l1 = 1; l1 <= 4; l1++)
        for (int l2 = 1; l2 <= 4; l2++)
            for (int prior = 0; prior < V.COUNT; prior++)
                for (const char *name : {"", "_Alpha", "M"}) {
                    if (!seq::item()) continue;
                    const char *key = *name ? name : "_Alpha";
                    VSVideoFormat mf = prior & 1 ? gray(8) : fmt(cfYUV, stInteger, 16, 1, 0);
                    cur("ClipToProp lengths %d, %d, prior value %d of '%s'", l1, l2, prior, name);
                    N c = clip(l1, [&](int n, VSMap *m) { V.put(m, key, prior); V.put(m, "B", prior); api->mapSetInt(m, "n", n, maReplace); });
                    N mc = clip(l2, [&](int n, VSMap *m) { api->mapSetInt(m, "m", n, maReplace); }, 1, mf, 6, 2);
                    std::vector<F> mframes;
                    for (int k = 0; k < l2; k++) mframes.push_back(get(mc, k));
                    // frames of a source are new objects for every request: compare what is attached by content
                    A a; a.n("clip", c).n("mclip", mc);
                    if (*name) a.s("prop", name);
                    R r = call("ClipToProp", a);
                    CHECK(r.ok(), "%s", r.err.c_str());
                    unchangedInfo(r.node, c, l2);
                    check(r.node, c, l2, [&](int n, PM b) {
                        F g = get(r.node, n);
                        F m(api->mapGetFrame(g.props(), key, 0, nullptr));
                        CHECK(m && api->mapNumElements(g.props(), key) == 1, "no single frame in '%s'", key);
                        CHECK(pixels(m) == pixels(mframes[n]) && load(m.props()) == load(mframes[n].props()), "frame %d: the attached frame is not frame %d of mclip", n, n);
                        PM q = load(g.props());
                        b[key] = q[key];
                        return b;
                    });
                    A b; b.n("clip", r.node);
                    if (*name) b.s("prop", name);
                    R back = call("PropToClip", b);
                    CHECK(back.ok(), "PropToClip: %s", back.err.c_str());
                    const VSVideoInfo &vi = back.node.vi();
                    CHECK(sameFormat(vi.format, mf) && vi.width == 6 && vi.height == 2 && vi.numFrames == l2 && vi.fpsNum == 25, "PropToClip: wrong clip description");
                    for (int k = 0; k < l2; k++) {
                        std::string err; F g = get(back.node, k, &err);
                        CHECK(g, "%s", err.c_str());
                        CHECK(pixels(g) == pixels(mframes[k]) && load(g.props()) == load(mframes[k].props()), "PropToClip(ClipToProp) does not give frame %d back", k);
                        seq::exec();
                    }
                }
    // PropToClip
    const int K = 9;
    VSVideoFormat yuv = fmt(cfYUV, stInteger, 8, 1, 1);
    std::vector<F> fr;
    for (int k = 0; k < 3; k++) fr.push_back(newFrame(yuv, 4, 4, 500 + k));
    F otherFmt = newFrame(fmt(cfYUV, stInteger, 8), 4, 4, 600), otherW = newFrame(yuv, 6, 4, 601), otherH = newFrame(yuv, 4, 6, 602);
    auto kinds = [&](int kind, int n) {            // the frames stored
        std::vector<const VSFrame *> v;
        switch (kind) {
        case 2: v = {fr[n].p}; break;
        case 3: v = {otherW.p, fr[n].p}; break;
        case 4: v = {otherFmt.p}; break;
        case 5: v = {otherW.p}; break;
        case 6: v = {otherH.p}; break;
        case 7: v = {V.aframe.p}; break;
        case 8: v = {fr[n].p, fr[(n + 1) % 3].p, otherFmt.p}; break;
        }
        return v;
    };
    for (int combo = 0; combo < K * K * K; combo++)
        for (int index = -2; index <= 3; index++) {            // -2: not given
            if (!seq::item()) continue;
            int kd[3] = {combo % K, combo / K % K, combo / K / K};
            cur("PropToClip on properties of kinds %d %d %d, index %d", kd[0], kd[1], kd[2], index);
            N c = clip(3, [&](int n, VSMap *m) {
                if (kd[n] == 1) api->mapSetInt(m, "_Alpha", 1, maReplace);
                for (auto f : kinds(kd[n], n)) api->mapSetFrame(m, "_Alpha", f, maAppend);
            });
            A a; a.n("clip", c);
            if (index > -2) a.i("index", index);
            int ix = index == -2 ? 0 : index;
            auto at = [&](int n) -> const VSFrame * { auto v = kinds(kd[n], n); return ix >= 0 && ix < (int)v.size() ? v[ix] : nullptr; };
            R r = call("PropToClip", a);
            const VSFrame *first = at(0);
            bool ok = first && api->getFrameType(first) == mtVideo;
            CHECK(r.ok() == ok, "%s", r.ok() ? "accepted" : r.err.c_str());
            seq::exec();
            if (!ok) continue;
            const VSVideoInfo &vi = r.node.vi();
            CHECK(sameFormat(vi.format, *api->getVideoFrameFormat(first)) && vi.width == api->getFrameWidth(first, 0) && vi.height == api->getFrameHeight(first, 0) && vi.numFrames == 3, "wrong clip description");
            for (int n = 0; n < 3; n++) {
                const VSFrame *w = at(n);
                bool good = w && api->getFrameType(w) == mtVideo && sameFormat(vi.format, *api->getVideoFrameFormat(w)) && vi.width == api->getFrameWidth(w, 0) && vi.height == api->getFrameHeight(w, 0);
                std::string err; F g = get(r.node, n, &err);
                CHECK((bool)g == good, "frame %d: %s", n, g ? "delivered" : err.c_str());
                if (g) CHECK(api->getReadPtr(g.p, 0) == api->getReadPtr(w, 0), "frame %d is not the stored frame", n);
                seq::exec();
            }
        }
    if (seq::item()) {
        auto var = [&](bool format) {
            VSVideoInfo vi = mkvi(gray(8), format ? 4 : 0, format ? 2 : 0, 2);
            if (format) vi.format = {};
            VSVideoFormat f8 = gray(8); return maker(vi, [f8](int n, VSFrameContext *) -> const VSFrame * { VSFrame *f = api->newVideoFrame(&f8, 4, 2, nullptr, core); paint(f, n); return f; });
        };
        N c = clip(2, nullptr);
        for (int i = 0; i < 2; i++) {
            cur("ClipToProp/PropToClip with a clip without constant %s", i ? "format" : "size");
            CHECK(!call("ClipToProp", A().n("clip", var(i)).n("mclip", c)).ok(), "accepted as clip");
            CHECK(!call("ClipToProp", A().n("clip", c).n("mclip", var(i))).ok(), "accepted as mclip");
            CHECK(!call("PropToClip", A().n("clip", var(i))).ok(), "accepted as clip");
        }
        N bad = maker(mkvi(gray(8), 4, 2, 2), [](int, VSFrameContext *ctx) -> const VSFrame * { api->setFilterError("sorry", ctx); return nullptr; });
        R r = call("PropToClip", A().n("clip", bad));
        CHECK(!r.ok() && r.err.find("sorry") != std::string::npos, "PropToClip on a failing clip: %s", r.err.c_str());
        CHECK(!call("PropToClip", A().n("clip", c).s("prop", "")).ok(), "empty property name accepted");
    }
}

namespace {
// what a user function may return
enum { RNothing, RInt, RError, RGood, RGood2, ROtherFormat, ROtherW, ROtherH, RAudio, RTwo, RFailing, RVariable, RShort, REmptyError, RWrongKey, RKinds };
const char *const RNAMES[] = {"nothing", "an int", "an error", "a match", "a match of another clip", "another format", "another width", "another height", "audio", "two values", "a failing clip", "a variable format clip", "a shorter clip", "an empty error", "another key"};
}
SEQ_CASE(frameEval, "frame_eval", "C20", true,
         "FrameEval: every pair of results of the function (15 kinds: clips that match, differ in format or size, vary, are shorter, fail, audio, several, no clip, errors) over two frames x clip with constant or variable size or format x 0..2 prop_src of lengths 1..3 (also failing ones) x clip_src x request order; the arguments the function receives, calls per frame, and the frame returned") {
    Session s;
    VSVideoFormat F8 = gray(8);
    for (int k0 = 0; k0 < RKinds; k0++)
        for (int k1 = 0; k1 < RKinds; k1++)
            for (int vi = 0; vi < 4; vi++)
                for (int ps = 0; ps < 6; ps++) {
                    if (!seq::item()) continue;
                    int kd[2] = {k0, k1};
                    bool reverse = (k0 + k1 + vi + ps) & 1;
                    cur("FrameEval function returns %s, then %s; clip kind %d; prop_src kind %d; %s", RNAMES[k0], RNAMES[k1], vi, ps, reverse ? "last frame first" : "first frame first");
                    int alive = 0;
                    std::vector<int> calls;
                    {
                        auto fail = [](int n, VSFrameContext *ctx) -> const VSFrame * { api->setFilterError("inner failure", ctx); return nullptr; };
                        N good = clip(2, [](int n, VSMap *m) { api->mapSetInt(m, "g", n, maReplace); }, 1), good2 = clip(5, nullptr, 2), shortc = clip(1, nullptr, 3);
                        N ofmt = clip(2, nullptr, 4, gray(16)), ow = clip(2, nullptr, 5, F8, 5, 2), oh = clip(2, nullptr, 6, F8, 4, 3);
                        N aud = audioSource(audioInfo(VS_AUDIO_FRAME_SAMPLES * 2), [](int, VSFrame *f, int) { memset(api->getWritePtr(f, 0), 0, 2); });
                        N failing = maker(mkvi(F8, 4, 2, 2), fail);
                        VSVideoInfo vvi = mkvi(F8, 0, 0, 2); vvi.format = {};
                        N var = maker(vvi, [&](int n, VSFrameContext *) -> const VSFrame * { F f = n ? newFrame(gray(16), 4, 2, 77) : newFrame(gray(8), 4, 2, 78); return api->addFrameRef(f.p); });
                        VSVideoInfo info = mkvi(F8, 4, 2, 2);
                        if (vi & 1) info.width = info.height = 0;
                        if (vi & 2) info.format = {};
                        N c = maker(info, [](int, VSFrameContext *ctx) -> const VSFrame * { api->setFilterError("the clip argument must not be requested", ctx); return nullptr; });
                        std::vector<N> props;
                        if (ps >= 1) props.push_back(ps == 5 ? failing : clip(ps == 2 ? 1 : 3, nullptr, 10));
                        if (ps >= 3) props.push_back(clip(ps == 3 ? 2 : 1, nullptr, 11));
                        struct Guard { int *a; Guard(int *a) : a(a) { ++*a; } Guard(const Guard &o) : a(o.a) { ++*a; } ~Guard() { --*a; } } guard(&alive);
                        std::string argProblem;
                        VSFunction *fn = func([&, guard](const VSMap *in, VSMap *out) {
                            int e; int64_t n = api->mapGetInt(in, "n", 0, &e);
                            if (e || api->mapNumElements(in, "n") != 1) { argProblem = "no n"; return; }
                            calls.push_back((int)n);
                            int nf = api->mapNumElements(in, "f");
                            if (nf != (props.empty() ? -1 : (int)props.size())) argProblem = "number of frames in f: " + std::to_string(nf);
                            if (api->mapNumKeys(in) != (props.empty() ? 1 : 2)) argProblem = "unexpected arguments";
                            for (size_t i = 0; i < props.size(); i++) {
                                F f(api->mapGetFrame(in, "f", (int)i, &e));
                                if (!f) { argProblem = "no frame"; continue; }
                                F w = get(props[i], std::min((int)n, props[i].vi().numFrames - 1));
                                if (pixels(f) != pixels(w)) argProblem = "f does not hold the current frame of prop_src";
                            }
                            auto put = [&](const N &x) { api->mapSetNode(out, "val", x.p, maAppend); };
                            switch (kd[n]) {
                            case RInt: api->mapSetInt(out, "val", 3, maReplace); break;
                            case RError: api->mapSetError(out, "function says no"); break;
                            case REmptyError: api->mapSetError(out, ""); break;
                            case RGood: put(good); break;
                            case RGood2: put(good2); break;
                            case ROtherFormat: put(ofmt); break;
                            case ROtherW: put(ow); break;
                            case ROtherH: put(oh); break;
                            case RAudio: put(aud); break;
                            case RTwo: put(good); put(good2); break;
                            case RFailing: put(failing); break;
                            case RVariable: put(var); break;
                            case RShort: put(shortc); break;
                            case RWrongKey: api->mapSetNode(out, "clip", good.p, maAppend); break;
                            }
                        });
                        A a; a.n("clip", c).fn("eval", fn);
                        api->freeFunction(fn);
                        for (auto &p : props) a.n("prop_src", p);
                        if (vi == 1) a.n("clip_src", good).n("clip_src", good2);
                        R r = call("FrameEval", a);
                        CHECK(r.ok(), "%s", r.err.c_str());
                        unchangedInfo(r.node, c);
                        for (int i = 0; i < 2; i++) {
                            int n = reverse ? 1 - i : i;
                            calls.clear();
                            std::string err; F g = get(r.node, n, &err);
                            CHECK(argProblem.empty(), "frame %d: %s", n, argProblem.c_str());
                            bool called = ps != 5;
                            CHECK(calls.size() == (called ? 1 : 0) && (!called || calls[0] == n), "frame %d: the function was called %zu times", n, calls.size());
                            const N *w = nullptr;
                            bool wantFail = !called;
                            const char *msg = called ? "" : "inner failure";
                            if (called) switch (kd[n]) {
                            case RNothing: case RInt: case RAudio: case REmptyError: case RWrongKey: wantFail = true; break;
                            case RError: wantFail = true; msg = "function says no"; break;
                            case RGood: case RTwo: w = &good; break;
                            case RGood2: w = &good2; break;
                            case ROtherFormat: w = &ofmt; break;
                            case ROtherW: w = &ow; break;
                            case ROtherH: w = &oh; break;
                            case RFailing: wantFail = true; msg = "inner failure"; break;
                            case RVariable: w = &var; break;
                            case RShort: w = &shortc; break;
                            }
                            F wf;
                            if (w) {
                                wf = get(*w, std::min(n, w->vi().numFrames - 1));
                                if (!(vi & 1) && (wf.w() != 4 || wf.h() != 2)) wantFail = true;
                                if (!(vi & 2) && !sameFormat(wf.f(), F8)) wantFail = true;
                            }
                            CHECK(!g == wantFail, "frame %d: %s", n, g ? "delivered" : err.c_str());
                            if (!g) CHECK(err.find(msg) != std::string::npos, "frame %d: the error is '%s' instead of '%s'", n, err.c_str(), msg);
                            else CHECK(pixels(g) == pixels(wf) && load(g.props()) == load(wf.props()), "frame %d is not the frame of the returned clip", n);
                            seq::exec(); seq::step();
                        }
                    }
                    for (int i = 0; alive && i < 2000; i++) { struct timespec t = {0, 1000000}; nanosleep(&t, nullptr); }
                    CHECK(alive == 0, "the function was not released");
                    seq::state(seq::mix(k0 * 16 + k1, vi * 8 + ps));
                }
}

SEQ_CASE(modifyFrame, "modify_frame", "C20", true,
         "ModifyFrame: every pair of results of the function (kinds as for frame_eval) over two frames x clip with constant or variable size or format x 1..3 clips of lengths 1..3 (also failing ones); the frames the function receives and the frame returned, which may be the first input, the last, a modified copy or a new one") {
    Session s;
    VSVideoFormat F8 = gray(8);
    for (int k0 = 0; k0 < RKinds; k0++)
        for (int k1 = 0; k1 < RKinds; k1++)
            for (int vi = 0; vi < 4; vi++)
                for (int ps = 1; ps < 6; ps++) {
                    if (!seq::item()) continue;
                    int kd[2] = {k0, k1};
                    if (k0 == RFailing || k1 == RFailing) continue;
                    cur("ModifyFrame function returns %s, then %s; clip kind %d; clips kind %d", RNAMES[k0], RNAMES[k1], vi, ps);
                    N failing = maker(mkvi(F8, 4, 2, 2), [](int, VSFrameContext *ctx) -> const VSFrame * { api->setFilterError("inner failure", ctx); return nullptr; });
                    VSVideoInfo info = mkvi(F8, 4, 2, 2);
                    if (vi & 1) info.width = info.height = 0;
                    if (vi & 2) info.format = {};
                    N c = maker(info, [](int, VSFrameContext *ctx) -> const VSFrame * { api->setFilterError("the clip argument must not be requested", ctx); return nullptr; });
                    std::vector<N> props;
                    auto pp = [](int n, VSMap *m) { api->mapSetInt(m, "p", n, maReplace); };
                    props.push_back(ps == 5 ? failing : clip(ps == 2 ? 1 : 3, pp, 10));
                    if (ps >= 3) props.push_back(clip(ps == 3 ? 2 : 1, pp, 11));
                    if (ps >= 4) props.push_back(clip(2, pp, 12));
                    std::string problem;
                    int called = 0;
                    F made;
                    VSFunction *fn = func([&](const VSMap *in, VSMap *out) {
                        called++;
                        int e; int n = (int)api->mapGetInt(in, "n", 0, &e);
                        if (e || api->mapNumElements(in, "n") != 1 || api->mapNumElements(in, "f") != (int)props.size() || api->mapNumKeys(in) != 2) { problem = "wrong arguments"; return; }
                        F first, last;
                        for (size_t i = 0; i < props.size(); i++) {
                            F f(api->mapGetFrame(in, "f", (int)i, &e));
                            F w = get(props[i], std::min(n, props[i].vi().numFrames - 1));
                            if (!f || pixels(f) != pixels(w) || load(f.props()) != load(w.props())) problem = "f does not hold the current frames of clips";
                            if (!i) first = f;
                            last = f;
                        }
                        auto put = [&](const F &x) { api->mapSetFrame(out, "val", x.p, maAppend); if (!made) made = x; };
                        made = F();
                        switch (kd[n]) {
                        case RInt: api->mapSetInt(out, "val", 3, maReplace); break;
                        case RError: api->mapSetError(out, "function says no"); break;
                        case REmptyError: api->mapSetError(out, ""); break;
                        case RGood: put(first); break;
                        case RGood2: { VSFrame *x = api->copyFrame(first.p, core); api->mapSetInt(api->getFramePropertiesRW(x), "new", 1, maReplace); put(F(x)); break; }
                        case RShort: put(last); break;
                        case ROtherFormat: put(newFrame(gray(16), 4, 2, 1)); break;
                        case ROtherW: put(newFrame(F8, 5, 2, 1)); break;
                        case ROtherH: put(newFrame(F8, 4, 3, 1)); break;
                        case RAudio: put(newAudio(1)); break;
                        case RTwo: put(first); put(last); break;
                        case RVariable: put(newFrame(F8, 4, 2, 99)); break;
                        case RWrongKey: api->mapSetFrame(out, "clip", first.p, maAppend); break;
                        }
                    });
                    A a; a.n("clip", c).fn("selector", fn);
                    api->freeFunction(fn);
                    for (auto &p : props) a.n("clips", p);
                    R r = call("ModifyFrame", a);
                    CHECK(r.ok(), "%s", r.err.c_str());
                    unchangedInfo(r.node, c);
                    for (int n = 0; n < 2; n++) {
                        called = 0;
                        std::string err; F g = get(r.node, n, &err);
                        CHECK(problem.empty(), "frame %d: %s", n, problem.c_str());
                        CHECK(called == (ps == 5 ? 0 : 1), "frame %d: the function was called %d times", n, called);
                        bool wantFail = ps == 5; const char *msg = ps == 5 ? "inner failure" : "";
                        if (ps != 5) switch (kd[n]) {
                        case RNothing: case RInt: case RAudio: case REmptyError: case RWrongKey: wantFail = true; break;
                        case RError: wantFail = true; msg = "function says no"; break;
                        case ROtherFormat: wantFail = !(vi & 2); break;
                        case ROtherW: case ROtherH: wantFail = !(vi & 1); break;
                        }
                        CHECK(!g == wantFail, "frame %d: %s", n, g ? "delivered" : err.c_str());
                        if (!g) CHECK(err.find(msg) != std::string::npos, "frame %d: the error is '%s' instead of '%s'", n, err.c_str(), msg);
                        else CHECK(pixels(g) == pixels(made) && load(g.props()) == load(made.props()), "frame %d is not the returned frame", n);
                        if (g && kd[n] == RGood2) CHECK(g.propInt("new") == 1, "modified property lost");
                        seq::exec(); seq::step();
                    }
                    made = F();
                    seq::state(seq::mix(k0 * 16 + k1, vi * 8 + ps));
                }
}

SEQ_CASE(pem, "pem_verifier", "C20", true,
         "PEMVerifier: 8, 10, 16 bit, half and float, gray, YUV and RGB; default and every lower/upper bound from the ends of the range inwards, wrong counts and invalid bounds; one deviating sample at every position of every plane with values around both bounds, infinities and NaN") {
    Session s;
    for (auto f : {gray(8), fmt(cfYUV, stInteger, 8, 1, 1), fmt(cfRGB, stInteger, 10), gray(16), fmt(cfYUV, stInteger, 16, 0, 0), fmt(cfGray, stFloat, 16), fmt(cfYUV, stFloat, 32, 1, 0), fmt(cfRGB, stFloat, 32), fmt(cfYUV, stFloat, 16)}) {
        bool fl = f.sampleType == stFloat;
        double mx = fl ? 1 : (1 << f.bitsPerSample) - 1, st = fl ? 0.125 : 1;
        for (int lo = -1; lo <= 3; lo++)                // -1: not given
            for (int hi = -1; hi <= 3; hi++) {
                if (!seq::item()) continue;
                std::vector<double> L(3), H(3);
                for (int p = 0; p < 3; p++) {
                    bool uv = f.colorFamily == cfYUV && p;
                    L[p] = lo < 0 ? (fl && uv ? -0.5 : 0) : (lo + p) * st;
                    H[p] = hi < 0 ? (fl && uv ? 0.5 : mx) : mx - (hi + p) * st;
                }
                auto make = [&](const N &c) {
                    A a; a.n("clip", c);
                    if (lo >= 0) for (int p = 0; p < f.numPlanes; p++) a.d("lower", L[p]);
                    if (hi >= 0) for (int p = 0; p < f.numPlanes; p++) a.d("upper", H[p]);
                    return call("PEMVerifier", a);
                };
                bool valid = true;
                for (int p = 0; p < f.numPlanes; p++) if (H[p] < L[p]) valid = false;
                if (!valid && hi < 0) continue;      // a lower bound above the default upper one: nothing is documented
                int W = 4, HH = 4;
                for (int pl = 0; pl < f.numPlanes; pl++) {
                    int pw = W >> (pl ? f.subSamplingW : 0), ph = HH >> (pl ? f.subSamplingH : 0);
                    for (int pos = 0; pos < pw * ph; pos++)
                        for (int k = 0; k < 9; k++) {
                            double v;
                            switch (k) {
                            case 0: v = L[pl]; break;
                            case 1: v = L[pl] - st; break;
                            case 2: v = H[pl]; break;
                            case 3: v = H[pl] + st; break;
                            case 4: v = (fl ? (L[pl] + H[pl]) / 2 : std::floor((L[pl] + H[pl]) / 2)); break;
                            case 5: v = fl ? INFINITY : L[pl] + 1; break;
                            case 6: v = fl ? -INFINITY : H[pl] - 1; break;
                            case 7: v = fl ? NAN : 0; break;
                            default: v = fl ? 0 : mx; break;
                            }
                            if (!fl && (v < 0 || v > mx)) continue;
                            cur("PEMVerifier %s lower %d upper %d, plane %d sample %d is %g", fname(f).c_str(), lo, hi, pl, pos, v);
                            N c = source(mkvi(f, W, HH, 1), [&](int, VSFrame *fr) {
                                for (int p = 0; p < f.numPlanes; p++)
                                    for (int y = 0; y < api->getFrameHeight(fr, p); y++)
                                        for (int x = 0; x < api->getFrameWidth(fr, p); x++)
                                            putSample(api->getWritePtr(fr, p) + y * api->getStride(fr, p), x, f,
                                                      p == pl && y * pw + x == pos ? v : fl ? (L[p] + H[p]) / 2 : std::floor((L[p] + H[p]) / 2));
                                setInt(fr, "q", 5);
                            });
                            R r = make(c);
                            CHECK(r.ok() == valid, "%s", r.ok() ? "accepted" : r.err.c_str());
                            seq::exec();
                            if (!valid) break;
                            std::string err; F g = get(r.node, 0, &err);
                            bool good = v >= L[pl] && v <= H[pl] && std::isfinite(v);
                            CHECK((bool)g == good, "%s", g ? "delivered" : err.c_str());
                            if (g) { F w = get(c, 0); CHECK(pixels(g).size() == pixels(w).size() && g.propInt("q") == 5 && (fl || pixels(g) == pixels(w)), "the frame changed"); }
                            else {
                                char want[128];
                                snprintf(want, sizeof want, "plane: %d Y: %d, X: %d, Frame: 0", pl, pos / pw, pos % pw);
                                CHECK(err.find(want) != std::string::npos, "reported as '%s'", err.c_str());
                            }
                        }
                }
            }
        if (!seq::item()) continue;
        N c = clip(1, nullptr, 1, f, 4, 4);
        for (int nl = 0; nl <= 4; nl++)
            for (int nu = 0; nu <= 4; nu++) {
                cur("PEMVerifier %s with %d lower and %d upper bounds", fname(f).c_str(), nl, nu);
                A a; a.n("clip", c);
                for (int i = 0; i < nl; i++) a.d("lower", 0);
                for (int i = 0; i < nu; i++) a.d("upper", mx);
                R r = call("PEMVerifier", a);
                CHECK(r.ok() == ((nl == 0 || nl == f.numPlanes) && (nu == 0 || nu == f.numPlanes)), "%s", r.ok() ? "accepted" : r.err.c_str());
                seq::exec();
            }
        if (!fl)
            for (double b : {-1., mx + 1, 1e9, -1e9}) {
                cur("PEMVerifier %s with bound %g", fname(f).c_str(), b);
                A a, a2; a.n("clip", c); a2.n("clip", c);
                for (int i = 0; i < f.numPlanes; i++) { a.d("lower", b); a2.d("upper", b); }
                CHECK(!call("PEMVerifier", a).ok(), "lower bound accepted");
                CHECK(!call("PEMVerifier", a2).ok(), "upper bound accepted");
            }
    }
}
