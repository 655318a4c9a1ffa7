// C09: property maps against a typed multimap, every operation sequence over a small alphabet.
#include "vk.h"
#include <algorithm>
#include <set>
using namespace vk;
using seq::cur;

namespace {
struct Session {
    Session() { newCore(1); }
    ~Session() { dropCore(); CHECK(logged == 0, "the core logged: %s", lastLog.c_str()); }
};

// ---- shared objects values refer to
VSNode *vnode, *anode;
const VSFrame *vframe, *aframe;
VSFunction *fun[2];
struct Objects {
    Objects() {
        VSVideoInfo vi = mkvi(gray(8), 4, 2, 3);
        N v = source(vi, [](int, VSFrame *) {});
        VSAudioInfo ai = {};
        api->queryAudioFormat(&ai.format, stInteger, 16, 3, core);
        ai.sampleRate = 48000; ai.numSamples = 5000;
        N a = audioSource(ai, [](int, VSFrame *, int) {});
        vnode = v.p; v.p = nullptr;
        anode = a.p; a.p = nullptr;
        vframe = api->newVideoFrame(&vi.format, 4, 2, nullptr, core);
        aframe = api->newAudioFrame(&ai.format, 100, nullptr, core);
        for (int i = 0; i < 2; i++) fun[i] = func([](const VSMap *, VSMap *) {});
    }
    ~Objects() {
        api->freeNode(vnode); api->freeNode(anode); api->freeFrame(vframe); api->freeFrame(aframe);
        api->freeFunction(fun[0]); api->freeFunction(fun[1]);
    }
};

// ---- reference model
struct Val { int64_t i = 0; double d = 0; std::string s; int hint = 0; const void *o = nullptr;
    bool operator==(const Val &b) const { return i == b.i && !memcmp(&d, &b.d, 8) && s == b.s && hint == b.hint && o == b.o; } };
struct Arr { int type; std::vector<Val> v; };
struct Model { bool err = false; std::string msg; std::map<std::string, Arr> m; };

const int T[] = {ptInt, ptFloat, ptData, ptFunction, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame};
const char *tname(int t) { switch (t) { case ptInt: return "int"; case ptFloat: return "float"; case ptData: return "data"; case ptFunction: return "func"; case ptVideoNode: return "vnode"; case ptAudioNode: return "anode"; case ptVideoFrame: return "vframe"; case ptAudioFrame: return "aframe"; } return "unset"; }

bool validKey(const std::string &k) {
    if (k.empty() || !(isalpha((unsigned char)k[0]) || k[0] == '_')) return false;
    for (char c : k) if (!(isalnum((unsigned char)c) || c == '_')) return false;
    return true;
}
int64_t flip(int64_t v) { return v == 0 ? 1 : v == 1 ? 0 : v; }

// ---- full comparison of a map with the model through every read function
int errKind(int e) { return e; }
bool light = false;    // read each value through its own type's getter only
void readLight(const VSMap *m, const char *k, const Arr &a, const char *who) {
    int size = (int)a.v.size(), e = 77;
    for (int i = 0; i < size; i++) {
        const Val &v = a.v[i];
        bool ok = false;
        switch (a.type) {
            case ptInt: ok = api->mapGetInt(m, k, i, &e) == v.i; break;
            case ptFloat: { double d = api->mapGetFloat(m, k, i, &e); ok = !memcmp(&d, &v.d, 8); break; }
            case ptData: { const char *p = api->mapGetData(m, k, i, &e); ok = p && api->mapGetDataSize(m, k, i, &e) == (int)v.s.size() && !memcmp(p, v.s.data(), v.s.size() + 1) && api->mapGetDataTypeHint(m, k, i, &e) == v.hint; break; }
            case ptFunction: { VSFunction *f = api->mapGetFunction(m, k, i, &e); ok = f == v.o; if (f) api->freeFunction(f); break; }
        }
        CHECK(ok && e == 0, "%s[%s][%d] (%s) has the wrong value (code %d)", who, k, i, tname(a.type), e);
    }
    api->mapGetInt(m, k, size, &e);
    CHECK(e == peIndex || e == peType, "%s[%s][%d] gives code %d", who, k, size, e);
    seq::step(size + 1);
}
void readAll(const VSMap *m, const Model &mo, const std::vector<std::string> &keys, const char *who) {
    const char *em = api->mapGetError(m);
    CHECK(!!em == mo.err, "%s: error state is %d, expected %d", who, !!em, mo.err);
    if (mo.err) {
        CHECK(mo.msg == em, "%s: error message '%s', expected '%s'", who, em, mo.msg.c_str());
        for (auto &k : keys) {
            int e = 0;
            CHECK(api->mapGetInt(m, k.c_str(), 0, &e) == 0 && e == peError, "%s: reading from a map with an error gives code %d", who, e);
            e = 0;
            CHECK(api->mapGetData(m, k.c_str(), 0, &e) == nullptr && e == peError, "%s: reading data from a map with an error gives code %d", who, e);
        }
        return;
    }
    int nk = api->mapNumKeys(m);
    CHECK(nk == (int)mo.m.size(), "%s has %d keys, expected %d", who, nk, (int)mo.m.size());
    std::set<std::string> got;
    for (int i = 0; i < nk; i++) {
        const char *k = api->mapGetKey(m, i);
        CHECK(k && mo.m.count(k), "%s lists key '%s'", who, k ? k : "(null)");
        CHECK(got.insert(k).second, "%s lists key '%s' twice", who, k);
    }
    for (auto &k0 : keys) {
        const char *k = k0.c_str();
        auto it = mo.m.find(k0);
        int n = api->mapNumElements(m, k), t = api->mapGetType(m, k);
        if (it == mo.m.end()) {
            CHECK(n == -1, "%s[%s] has %d elements, expected none", who, k, n);
            CHECK(t == ptUnset, "%s[%s] has type %s, expected unset", who, k, tname(t));
        } else {
            CHECK(n == (int)it->second.v.size(), "%s[%s] has %d elements, expected %d", who, k, n, (int)it->second.v.size());
            CHECK(t == it->second.type, "%s[%s] has type %s, expected %s", who, k, tname(t), tname(it->second.type));
        }
        if (light && it != mo.m.end()) { readLight(m, k, it->second, who); continue; }
        int size = it == mo.m.end() ? 0 : (int)it->second.v.size(), type = it == mo.m.end() ? ptUnset : it->second.type;
        for (int i = 0; i <= size; i++) {
            auto want = [&](bool typeOk, int e, const char *fn) -> bool {
                bool ok = it != mo.m.end() && i < size && typeOk;
                int exp = it == mo.m.end() ? peUnset : i >= size ? peIndex : peType;
                CHECK(ok ? e == peSuccess : e != peSuccess, "%s: %s(%s, %d) gives code %d", who, fn, k, i, e);
                // when several things are wrong any of their codes will do
                bool both = it != mo.m.end() && i >= size && !typeOk;
                if (!ok && !both) CHECK(e == exp, "%s: %s(%s, %d) gives code %d, expected %d", who, fn, k, i, e, exp);
                if (both) CHECK(e == peIndex || e == peType, "%s: %s(%s, %d) gives code %d", who, fn, k, i, e);
                return ok;
            };
            const Val *v = i < size ? &it->second.v[i] : nullptr;
            int e = 77;
            int64_t iv = api->mapGetInt(m, k, i, &e);
            if (want(type == ptInt, e, "mapGetInt")) CHECK(iv == v->i, "%s[%s][%d] is %lld, expected %lld", who, k, i, (long long)iv, (long long)v->i);
            else CHECK(iv == 0, "%s: failed mapGetInt(%s, %d) returned %lld", who, k, i, (long long)iv);
            int is = api->mapGetIntSaturated(m, k, i, &e);
            if (want(type == ptInt, e, "mapGetIntSaturated")) {
                int64_t x = std::min<int64_t>(std::max<int64_t>(v->i, INT32_MIN), INT32_MAX);
                CHECK(is == x, "%s[%s][%d] saturated is %d, expected %lld", who, k, i, is, (long long)x);
            } else CHECK(is == 0, "%s: failed mapGetIntSaturated(%s, %d) returned %d", who, k, i, is);
            double dv = api->mapGetFloat(m, k, i, &e);
            if (want(type == ptFloat, e, "mapGetFloat")) CHECK(!memcmp(&dv, &v->d, 8) , "%s[%s][%d] is %g, expected %g", who, k, i, dv, v->d);
            else CHECK(dv == 0, "%s: failed mapGetFloat(%s, %d) returned %g", who, k, i, dv);
            float fv = api->mapGetFloatSaturated(m, k, i, &e);
            if (want(type == ptFloat, e, "mapGetFloatSaturated")) {
                if (std::isfinite(v->d) && fabs(v->d) <= 3.4e38) { float x = (float)v->d; CHECK(fv == x, "%s[%s][%d] as float is %g, expected %g", who, k, i, fv, x); }
                else if (std::isfinite(v->d)) CHECK(fabsf(fv) >= 3.4e38f && (fv > 0) == (v->d > 0), "%s[%s][%d] as float is %g for %g", who, k, i, fv, v->d);
            } else CHECK(fv == 0, "%s: failed mapGetFloatSaturated(%s, %d) returned %g", who, k, i, fv);
            const char *p = api->mapGetData(m, k, i, &e);
            if (want(type == ptData, e, "mapGetData")) {
                int e2 = 77, sz = api->mapGetDataSize(m, k, i, &e2);
                CHECK(e2 == 0 && sz == (int)v->s.size(), "%s[%s][%d] has size %d (code %d), expected %d", who, k, i, sz, e2, (int)v->s.size());
                CHECK(p && !memcmp(p, v->s.data(), v->s.size()) && p[v->s.size()] == 0, "%s[%s][%d] has wrong or unterminated data", who, k, i);
                int h = api->mapGetDataTypeHint(m, k, i, &e2);
                CHECK(e2 == 0 && h == v->hint, "%s[%s][%d] has type hint %d, expected %d", who, k, i, h, v->hint);
            } else {
                CHECK(p == nullptr, "%s: failed mapGetData(%s, %d) returned a pointer", who, k, i);
                api->mapGetDataSize(m, k, i, &e); want(false, e, "mapGetDataSize");
                CHECK(api->mapGetDataTypeHint(m, k, i, &e) == dtUnknown, "%s: failed mapGetDataTypeHint(%s, %d) returned a hint", who, k, i); want(false, e, "mapGetDataTypeHint");
            }
            VSNode *nd = api->mapGetNode(m, k, i, &e);
            bool nodeOk = want(type == ptVideoNode || type == ptAudioNode, e, "mapGetNode");
            CHECK(nd == (nodeOk ? v->o : nullptr), "%s: mapGetNode(%s, %d) gives the wrong node", who, k, i);
            if (nd) api->freeNode(nd);
            const VSFrame *fr = api->mapGetFrame(m, k, i, &e);
            bool frameOk = want(type == ptVideoFrame || type == ptAudioFrame, e, "mapGetFrame");
            CHECK(fr == (frameOk ? v->o : nullptr), "%s: mapGetFrame(%s, %d) gives the wrong frame", who, k, i);
            if (fr) api->freeFrame(fr);
            VSFunction *fu = api->mapGetFunction(m, k, i, &e);
            bool funOk = want(type == ptFunction, e, "mapGetFunction");
            CHECK(fu == (funOk ? v->o : nullptr), "%s: mapGetFunction(%s, %d) gives the wrong function", who, k, i);
            if (fu) api->freeFunction(fu);
        }
        int e = 77;
        const int64_t *ia = api->mapGetIntArray(m, k, &e);
        bool ok = type == ptInt && size > 0;
        CHECK((e == 0) == ok && !!ia == ok, "%s: mapGetIntArray(%s) gives code %d", who, k, e);
        if (ok) for (int i = 0; i < size; i++) CHECK(ia[i] == it->second.v[i].i, "%s: mapGetIntArray(%s)[%d] is %lld, expected %lld", who, k, i, (long long)ia[i], (long long)it->second.v[i].i);
        const double *da = api->mapGetFloatArray(m, k, &e);
        ok = type == ptFloat && size > 0;
        CHECK((e == 0) == ok && !!da == ok, "%s: mapGetFloatArray(%s) gives code %d", who, k, e);
        if (ok) for (int i = 0; i < size; i++) CHECK(!memcmp(da + i, &it->second.v[i].d, 8), "%s: mapGetFloatArray(%s)[%d] is %g, expected %g", who, k, i, da[i], it->second.v[i].d);
        seq::step(11 * (size + 1) + 2);
    }
}

// ---- operations
struct Op { std::string name; std::function<void(VSMap **m, Model *mo)> run; };

Val valI(int64_t i) { Val v; v.i = i; return v; }
Val valD(double d) { Val v; v.d = d; return v; }
Val valS(const std::string &s, int h) { Val v; v.s = s; v.hint = h; return v; }
Val valO(const void *o) { Val v; v.o = o; return v; }

int rawSet(VSMap *m, const char *k, int type, const Val &v, int mode) {
    switch (type) {
        case ptInt: return api->mapSetInt(m, k, v.i, mode);
        case ptFloat: return api->mapSetFloat(m, k, v.d, mode);
        case ptData: return api->mapSetData(m, k, v.s.data(), (int)v.s.size(), v.hint, mode);
        case ptFunction: return api->mapSetFunction(m, k, (VSFunction *)v.o, mode);
        case ptVideoNode: case ptAudioNode: return api->mapSetNode(m, k, (VSNode *)v.o, mode);
        default: return api->mapSetFrame(m, k, (const VSFrame *)v.o, mode);
    }
}
int rawConsume(VSMap *m, const char *k, int type, const Val &v, int mode) {
    switch (type) {
        case ptFunction: return api->mapConsumeFunction(m, k, api->addFunctionRef((VSFunction *)v.o), mode);
        case ptVideoNode: case ptAudioNode: return api->mapConsumeNode(m, k, api->addNodeRef((VSNode *)v.o), mode);
        default: return api->mapConsumeFrame(m, k, api->addFrameRef((const VSFrame *)v.o), mode);
    }
}
void doSet(VSMap **m, Model *mo, int a, const std::string &key, int type, const Val &v, int mode, bool consume = false) {
    if (mo[a].err) return;
    int r = consume ? rawConsume(m[a], key.c_str(), type, v, mode) : rawSet(m[a], key.c_str(), type, v, mode);
    bool ok = validKey(key);
    if (ok) {
        auto it = mo[a].m.find(key);
        if (mode == maReplace || it == mo[a].m.end()) mo[a].m[key] = Arr{type, {v}};
        else if (it->second.type != type) ok = false;
        else it->second.v.push_back(v);
    }
    CHECK((r == 0) == ok && (ok || r == 1), "setting %s (%s, %s) returned %d", key.c_str(), tname(type), mode == maAppend ? "append" : "replace", r);
}
Op set(int a, const std::string &key, int type, Val v, int mode, bool consume = false) {
    return {std::string("m") + char('0' + a) + "." + (consume ? "consume" : "set") + tname(type) + "(" + key + (mode == maAppend ? ",append)" : ",replace)"),
            [=](VSMap **m, Model *mo) { doSet(m, mo, a, key, type, v, mode, consume); }};
}
Op setEmpty(int a, const std::string &key, int type) {
    return {std::string("m") + char('0' + a) + ".setEmpty(" + key + "," + tname(type) + ")", [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        int r = api->mapSetEmpty(m[a], key.c_str(), type);
        bool ok = validKey(key) && !mo[a].m.count(key) && type != ptUnset;
        CHECK((r == 0) == ok, "mapSetEmpty(%s, %s) returned %d", key.c_str(), tname(type), r);
        if (ok) mo[a].m[key] = Arr{type, {}};
    }};
}
Op del(int a, const std::string &key) {
    return {std::string("m") + char('0' + a) + ".delete(" + key + ")", [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        int r = api->mapDeleteKey(m[a], key.c_str());
        CHECK(r == (int)mo[a].m.count(key), "mapDeleteKey(%s) returned %d", key.c_str(), r);
        mo[a].m.erase(key);
    }};
}
Op clear(int a) { return {std::string("m") + char('0' + a) + ".clear", [=](VSMap **m, Model *mo) { api->clearMap(m[a]); mo[a] = {}; }}; }
Op error(int a, const char *msg) {
    return {std::string("m") + char('0' + a) + ".setError(" + msg + ")", [=](VSMap **m, Model *mo) { api->mapSetError(m[a], msg); mo[a] = {}; mo[a].err = true; mo[a].msg = msg; }};
}
Op copy(int a, int b) {   // b.copy from a: adds all keys of a, replacing
    return {std::string("copy m") + char('0' + a) + "->m" + char('0' + b), [=](VSMap **m, Model *mo) {
        if (mo[a].err || mo[b].err) return;
        api->copyMap(m[a], m[b]);
        for (auto &p : mo[a].m) mo[b].m[p.first] = p.second;
    }};
}
Op recreate(int a, int b) {   // b becomes a fresh map filled from a
    return {std::string("m") + char('0' + b) + "=new copy of m" + char('0' + a), [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        VSMap *n = api->createMap();
        api->copyMap(m[a], n);
        api->freeMap(m[b]);
        m[b] = n; mo[b] = mo[a];
    }};
}
Op setIntArr(int a, const std::string &key, std::vector<int64_t> v) {
    return {std::string("m") + char('0' + a) + ".setIntArray(" + key + "," + std::to_string(v.size()) + ")", [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        int r = api->mapSetIntArray(m[a], key.c_str(), v.data(), (int)v.size());
        CHECK((r == 0) == validKey(key), "mapSetIntArray(%s) returned %d", key.c_str(), r);
        if (r == 0) { Arr x{ptInt, {}}; for (auto i : v) x.v.push_back(valI(i)); mo[a].m[key] = x; }
    }};
}
Op setFloatArr(int a, const std::string &key, std::vector<double> v) {
    return {std::string("m") + char('0' + a) + ".setFloatArray(" + key + "," + std::to_string(v.size()) + ")", [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        int r = api->mapSetFloatArray(m[a], key.c_str(), v.data(), (int)v.size());
        CHECK((r == 0) == validKey(key), "mapSetFloatArray(%s) returned %d", key.c_str(), r);
        if (r == 0) { Arr x{ptFloat, {}}; for (auto i : v) x.v.push_back(valD(i)); mo[a].m[key] = x; }
    }};
}
Op strSet(int a, const std::string &key) {   // length -1: up to the first zero
    return {std::string("m") + char('0' + a) + ".setData(" + key + ",strlen)", [=](VSMap **m, Model *mo) {
        if (mo[a].err) return;
        static const char d[] = "ab\0cd";
        int r = api->mapSetData(m[a], key.c_str(), d, -1, dtUtf8, maReplace);
        CHECK(r == 0, "mapSetData returned %d", r);
        mo[a].m[key] = Arr{ptData, {valS("ab", dtUtf8)}};
    }};
}
uint64_t modelHash(const Model &m) {
    uint64_t h = seq::hash(m.msg) + m.err;
    for (auto &p : m.m) {
        h = seq::mix(h, seq::hash(p.first)); h = seq::mix(h, p.second.type);
        for (auto &v : p.second.v) { h = seq::mix(h, (uint64_t)v.i); h = seq::mix(h, seq::hash(&v.d, 8)); h = seq::mix(h, seq::hash(v.s)); h = seq::mix(h, (uint64_t)(uintptr_t)v.o); }
    }
    return h;
}

void runSequences(const std::vector<Op> &ops, int depth, const std::vector<std::string> &keys, int nmaps, bool lt = false) {
    light = lt;
    Session s; Objects o;
    for (int len = 1; len <= depth; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (seq::item()) {
                std::string d;
                for (int i : ix) d += ops[i].name + "; ";
                cur("%s", d.c_str());
                seq::exec();
                VSMap *m[3] = {};
                Model mo[3];
                for (int a = 0; a < nmaps; a++) m[a] = api->createMap();
                for (int i : ix) ops[i].run(m, mo);
                static const char *nm[] = {"m0", "m1", "m2"};
                for (int a = 0; a < nmaps; a++) { readAll(m[a], mo[a], keys, nm[a]); seq::state(modelHash(mo[a])); }
                // destruction of one map must not affect the others
                for (int a = 0; a < nmaps; a++) {
                    api->freeMap(m[a]);
                    for (int b = a + 1; b < nmaps; b++)
                        if (!mo[b].err) CHECK(api->mapNumKeys(m[b]) == (int)mo[b].m.size(), "freeing m%d changed m%d", a, b);
                }
            }
            int p = len - 1;
            while (p >= 0 && ++ix[p] == (int)ops.size()) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
}

SEQ_CASE(mapSharing, "map_sharing", "C09,C08,C07", true, "every sequence of up to 4 (thorough: 5) operations out of 28 on two or three maps that copy each other: replace, append, delete, clear, error, arrays, recreate") {
    std::vector<Op> ops;
    for (int a = 0; a < 2; a++) {
        ops.push_back(set(a, "a", ptInt, valI(1 + a), maReplace));
        ops.push_back(set(a, "a", ptInt, valI(INT64_MAX - a), maAppend));
        ops.push_back(set(a, "a", ptData, valS(std::string("x\0y", 3), dtBinary), maAppend));
        ops.push_back(set(a, "b", ptFloat, valD(0.5 + a), maAppend));
        ops.push_back(set(a, "b", ptFunction, valO(nullptr), maReplace));   // value filled below
        ops.push_back(del(a, "a"));
        ops.push_back(clear(a));
        ops.push_back(setIntArr(a, "a", {7, -8, 9}));
        ops.push_back(copy(a, 1 - a));
        ops.push_back(recreate(a, 1 - a));
        ops.push_back(setEmpty(a, "b", ptFloat));
        ops.push_back(error(a, "bad"));
    }
    for (auto &op : ops)
        if (op.name.find("setfunc") != std::string::npos) {
            int a = op.name[1] - '0';
            op.run = [a](VSMap **m, Model *mo) { doSet(m, mo, a, "b", ptFunction, valO(fun[a]), maReplace); };
        }
    ops.push_back(copy(0, 0));
    runSequences(ops, seq::thorough ? 5 : 4, {"a", "b"}, 2, true);
}
SEQ_CASE(mapTypes, "map_types", "C09", true, "every sequence of up to 3 (thorough: 4) operations out of ~50 on one map: every property type by set/append/consume/empty on one of two keys") {
    std::vector<Op> ops;
    auto late = [&](const char *nm, const char *key, int t, int which, int mode, bool consume) {
        std::string k = key;
        ops.push_back({std::string(nm), [=](VSMap **m, Model *mo) {
            const void *o = t == ptFunction ? (const void *)fun[which] : t == ptVideoNode ? (const void *)vnode : t == ptAudioNode ? (const void *)anode : t == ptVideoFrame ? (const void *)vframe : (const void *)aframe;
            doSet(m, mo, 0, k, t, valO(o), mode, consume);
        }});
    };
    for (const char *key : {"k", "_z9"}) {
        bool first = key[0] == 'k';
        for (int mode : {maReplace, maAppend}) {
            ops.push_back(set(0, key, ptInt, valI(first ? INT64_MIN : 3000000000ll), mode));
            ops.push_back(set(0, key, ptFloat, valD(first ? 1e300 : -0.25), mode));
            ops.push_back(set(0, key, ptData, first ? valS("", dtUnknown) : valS(std::string("\0\xff utf", 6), dtUtf8), mode));
            for (int t : {ptFunction, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame})
                if (first || mode == maAppend) {
                    late((std::string(mode == maAppend ? "append " : "set ") + tname(t) + " " + key).c_str(), key, t, first ? 0 : 1, mode, false);
                    if (first) late((std::string(mode == maAppend ? "append consumed " : "set consumed ") + tname(t) + " " + key).c_str(), key, t, 1, mode, true);
                }
        }
        if (first) for (int t : T) ops.push_back(setEmpty(0, key, t));
        ops.push_back(del(0, key));
        ops.push_back(setFloatArr(0, key, first ? std::vector<double>{1.5, NAN, -INFINITY} : std::vector<double>{}));
        ops.push_back(setIntArr(0, key, first ? std::vector<int64_t>{} : std::vector<int64_t>{INT64_MIN}));
        ops.push_back(strSet(0, key));
    }
    runSequences(ops, seq::thorough ? 4 : 3, {"k", "_z9", "absent"}, 1);
}
SEQ_CASE(mapKeys, "map_keys", "C09", true, "every key string of length 0..2 over all 255 byte values (length 3 over 8 classes): accepted by every setter iff alphanumeric/underscore and not starting with a digit") {
    Session s; Objects o;
    auto test = [&](const std::string &k) {
        if (!seq::item()) return;
        cur("key of %d bytes: %s", (int)k.size(), k.c_str());
        seq::exec();
        bool ok = validKey(k);
        VSMap *m = api->createMap();
        auto expect = [&](int r, const char *fn) {
            CHECK((r == 0) == ok, "%s with key '%s' returned %d", fn, k.c_str(), r);
            CHECK(api->mapNumKeys(m) == (ok ? 1 : 0), "%s with key '%s' leaves %d keys", fn, k.c_str(), api->mapNumKeys(m));
            if (ok) CHECK(k == api->mapGetKey(m, 0), "%s with key '%s' stored it as '%s'", fn, k.c_str(), api->mapGetKey(m, 0));
            api->clearMap(m);
            seq::step();
        };
        const char *c = k.c_str();
        int64_t i = 5; double d = 5;
        for (int mode : {maReplace, maAppend}) {
            expect(api->mapSetInt(m, c, 1, mode), "mapSetInt");
            expect(api->mapSetFloat(m, c, 1, mode), "mapSetFloat");
            expect(api->mapSetData(m, c, "x", 1, dtUtf8, mode), "mapSetData");
            expect(api->mapSetNode(m, c, vnode, mode), "mapSetNode");
            expect(api->mapSetFrame(m, c, aframe, mode), "mapSetFrame");
            expect(api->mapSetFunction(m, c, fun[0], mode), "mapSetFunction");
        }
        expect(api->mapSetIntArray(m, c, &i, 1), "mapSetIntArray");
        expect(api->mapSetFloatArray(m, c, &d, 1), "mapSetFloatArray");
        expect(api->mapSetEmpty(m, c, ptData), "mapSetEmpty");
        api->freeMap(m);
    };
    test("");
    for (int a = 1; a < 256; a++) {
        test(std::string(1, (char)a));
        for (int b = 1; b < 256; b++) test(std::string(1, (char)a) + (char)b);
    }
    for (char a : std::string("aZ_09.-\x80")) for (char b : std::string("aZ_09.-\x80")) for (char c : std::string("aZ_09.-\x80")) test({a, b, c});
}
SEQ_CASE(mapSaturate, "map_saturate", "C09", true, "saturating getters for every integer within 3 of every power of two and float within 2 ulp of powers of two, arrays of 1..20 elements built by appending") {
    Session s; Objects o;
    VSMap *m = api->createMap();
    auto one = [&](int64_t v) {
        if (!seq::item()) return;
        cur("int %lld", (long long)v); seq::exec();
        api->mapSetInt(m, "x", v, maReplace);
        Model mo; mo.m["x"] = Arr{ptInt, {valI(v)}};
        readAll(m, mo, {"x"}, "m");
    };
    for (int b = 0; b < 64; b++) for (int d = -3; d <= 3; d++) { int64_t p = (int64_t)(1ull << b); one((int64_t)((uint64_t)p + d)); one((int64_t)(0 - (uint64_t)p + d)); }
    for (int b = -160; b <= 200; b++) for (int sg : {-1, 1}) for (int u = -2; u <= 2; u++) {
        if (!seq::item()) continue;
        double v = sg * ldexp(1.0, b);
        for (int i = 0; i < abs(u); i++) v = nextafter(v, u < 0 ? -INFINITY : INFINITY);
        cur("float %a", v); seq::exec();
        api->mapSetFloat(m, "x", v, maReplace);
        Model mo; mo.m["x"] = Arr{ptFloat, {valD(v)}};
        readAll(m, mo, {"x"}, "m");
    }
    for (int t : T) for (int n = 1; n <= 20; n++) for (int share = 0; share <= n; share++) {
        if (!seq::item()) continue;
        cur("%d appended values of type %s, copied after %d", n, tname(t), share); seq::exec();
        VSMap *q = api->createMap(), *c = api->createMap();
        Model mo, mc;
        for (int i = 0; i <= n; i++) {
            if (i == share) { api->copyMap(q, c); mc = mo; }
            if (i == n) break;
            Val v = t == ptInt ? valI(i * 1000003ll) : t == ptFloat ? valD(i * 0.37) : t == ptData ? valS(std::string(i * 3, 'a' + i), i % 3 - 1) :
                valO(t == ptFunction ? (const void *)fun[i & 1] : t == ptVideoNode ? (const void *)vnode : t == ptAudioNode ? (const void *)anode : t == ptVideoFrame ? (const void *)vframe : (const void *)aframe);
            VSMap *qm[1] = {q};
            doSet(qm, &mo, 0, "x", t, v, maAppend);
        }
        readAll(q, mo, {"x"}, "original");
        readAll(c, mc, {"x"}, "copy");
        api->freeMap(q);
        readAll(c, mc, {"x"}, "copy after the original is freed");
        api->freeMap(c);
    }
    api->freeMap(m);
}
SEQ_CASE(mapColorRange, "map_range_alias", "C09", true, "_ColorRange / _Range alias: every sequence of up to 4 operations (set, append, delete, array, empty through either name)") {
    Session s; Objects o;
    // the pair is one property; values 0 and 1 are exchanged when seen through the old name
    struct RO { std::string name; int kind; bool old; int64_t v; };
    std::vector<RO> ops;
    for (int old = 0; old < 2; old++) {
        for (int64_t v : {0, 1}) ops.push_back({"set", 0, !!old, v});
        ops.push_back({"append", 1, !!old, 0});
        ops.push_back({"delete", 2, !!old, 0});
        ops.push_back({"array", 3, !!old, 1});
        ops.push_back({"empty", 4, !!old, 0});
    }
    for (int len = 1; len <= 4; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (seq::item()) {
                VSMap *m = api->createMap();
                bool set = false; std::vector<int64_t> val;     // as seen through _Range
                std::string d;
                for (int i : ix) {
                    auto &op = ops[i];
                    d += op.name + (op.old ? "(_ColorRange) " : "(_Range) ");
                    cur("%s", d.c_str());
                    const char *k = op.old ? "_ColorRange" : "_Range";
                    int64_t v = op.old ? flip(op.v) : op.v;
                    if (op.kind == 0) { CHECK(!api->mapSetInt(m, k, op.v, maReplace), "set failed"); val = {v}; set = true; }
                    if (op.kind == 1) { CHECK(!api->mapSetInt(m, k, op.v, maAppend), "append failed"); val.push_back(v); set = true; }
                    if (op.kind == 2) { CHECK(api->mapDeleteKey(m, k) == (set ? 1 : 0), "delete returned the wrong value"); val.clear(); set = false; }
                    if (op.kind == 3) { CHECK(!api->mapSetIntArray(m, k, &op.v, 1), "array failed"); val = {v}; set = true; }
                    if (op.kind == 4) { CHECK((api->mapSetEmpty(m, k, ptInt) == 0) == !set, "empty returned the wrong value"); set = true; }
                }
                seq::exec();
                CHECK(api->mapNumKeys(m) == (set ? 1 : 0), "%d keys", api->mapNumKeys(m));
                for (int old = 0; old < 2; old++) {
                    const char *k = old ? "_ColorRange" : "_Range";
                    CHECK(api->mapNumElements(m, k) == (set ? (int)val.size() : -1), "%s has %d elements", k, api->mapNumElements(m, k));
                    CHECK(api->mapGetType(m, k) == (set ? ptInt : ptUnset), "%s has type %d", k, api->mapGetType(m, k));
                    for (size_t i = 0; i < val.size(); i++) {
                        int e = 77;
                        int64_t g = api->mapGetInt(m, k, (int)i, &e), w = old ? flip(val[i]) : val[i];
                        CHECK(e == 0 && g == w, "%s[%d] is %d (code %d), expected %d", k, (int)i, (int)g, e, (int)w);
                        if (val.size() == 1) {
                            const int64_t *a = api->mapGetIntArray(m, k, &e);
                            CHECK(a && *a == w, "%s as array is %d, expected %d", k, a ? (int)*a : -1, (int)w);
                        }
                        seq::step();
                    }
                }
                api->freeMap(m);
            }
            int p = len - 1;
            while (p >= 0 && ++ix[p] == (int)ops.size()) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
