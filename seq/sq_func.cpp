// C10: signatures, argument matching, registration and plugin loading
#include "vk.h"
#include <algorithm>
#include <set>
#include <unistd.h>
#include <climits>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;

static std::function<void(VSPlugin *, const VSPLUGINAPI *)> hook;
extern "C" __attribute__((visibility("default"))) void seq_plugin_init(VSPlugin *p, const VSPLUGINAPI *a) { if (hook) hook(p, a); }

namespace {
static std::string exeDir() {
    char b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
    CHECK(n > 0, "readlink");
    b[n] = 0;
    std::string s = b;
    return s.substr(0, s.rfind('/'));
}
VSPlugin *stdp() { return api->getPluginByID("com.vapoursynth.std", core); }
struct Session { explicit Session(int flags = 0) { newCore(1, flags); } ~Session() { dropCore(); } };
// a core with a modifiable plugin to register functions in
struct TSession : Session {
    TSession() {
        hook = [](VSPlugin *p, const VSPLUGINAPI *a) { a->configPlugin("t.target", "target", "Target", 1, VAPOURSYNTH_API_VERSION, pcModifiable, p); };
        A a;
        a.s("path", exeDir() + "/libhook");
        VSMap *o = api->invoke(stdp(), "LoadPlugin", a.m);
        CHECK(!api->mapGetError(o), "loading the test plugin failed: %s", api->mapGetError(o));
        api->freeMap(o);
        hook = nullptr;
    }
};
VSPlugin *target() { return api->getPluginByID("t.target", core); }

// ---------------------------------------------------------------- reference for the signature grammar
struct Arg { std::string name; int type; bool arr, opt, empty, any; };
std::vector<std::string> parts(const std::string &s, char c) {
    std::vector<std::string> r;
    std::string t;
    for (char x : s) {
        if (x == c) { if (!t.empty()) r.push_back(t); t.clear(); }
        else t += x;
    }
    if (!t.empty()) r.push_back(t);
    return r;
}
bool ident(const std::string &s) {
    if (s.empty() || !isalpha((unsigned char)s[0])) return false;
    for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false;
    return true;
}
bool parseRef(const std::string &s, std::vector<Arg> &out) {
    static const std::map<std::string, int> types = {{"int", ptInt}, {"float", ptFloat}, {"data", ptData}, {"func", ptFunction},
        {"vnode", ptVideoNode}, {"anode", ptAudioNode}, {"vframe", ptVideoFrame}, {"aframe", ptAudioFrame}};
    for (auto &p : parts(s, ';')) {
        auto q = parts(p, ':');
        if (q.size() == 1 && q[0] == "any") { out.push_back({"", 0, false, false, false, true}); continue; }
        if (q.size() < 2) return false;
        Arg a{q[0], 0, false, false, false, false};
        std::string t = q[1];
        if (t.size() > 2 && t.substr(t.size() - 2) == "[]") { a.arr = true; t = t.substr(0, t.size() - 2); }
        if (!types.count(t)) return false;
        a.type = types.at(t);
        for (size_t i = 2; i < q.size(); i++) {
            if (q[i] == "opt" && !a.opt) a.opt = true;
            else if (q[i] == "empty" && !a.empty) a.empty = true;
            else return false;
        }
        if (!ident(a.name) || (a.empty && !a.arr)) return false;
        out.push_back(a);
    }
    return true;
}

void VS_CC nop(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
long serial;
std::string fresh() { return "F" + std::to_string(serial++); }

void tryRegister(const std::string &sig, const char *ret) {
    std::string name = fresh();
    std::vector<Arg> a, b;
    bool want = parseRef(sig, a) && (!strcmp(ret, "any") || parseRef(ret, b));
    cur("registerFunction(args=\"%s\", return=\"%s\")", sig.c_str(), ret);
    int before = logged;
    int got = api->registerFunction(name.c_str(), sig.c_str(), ret, nop, nullptr, target());
    exec(); step();
    CHECK(!!got == want, "signature \"%s\" was %s", sig.c_str(), got ? "accepted but does not follow the grammar" : "refused although it follows the grammar");
    VSPluginFunction *f = api->getPluginFunctionByName(name.c_str(), target());
    CHECK(!!f == want, "lookup of a %s function", want ? "registered" : "refused");
    CHECK((logged > before) == !want, "refusal was %s", want ? "logged for a valid signature" : "not logged");
    if (f) {
        CHECK(sig == api->getPluginFunctionArguments(f), "argument string changed: \"%s\"", api->getPluginFunctionArguments(f));
        CHECK(!strcmp(ret, api->getPluginFunctionReturnType(f)), "return type string changed");
        CHECK(name == api->getPluginFunctionName(f), "name changed");
    }
    state(seq::hash(sig) ^ seq::hash(ret));
}
// the core is renewed regularly since registered functions stay
struct Batch {
    std::unique_ptr<TSession> s;
    int n = 0;
    void tick() { if (!s || ++n >= 3000) { s.reset(); s = std::make_unique<TSession>(); n = 0; } }
};
}

SEQ_CASE(grammarTokens, "func_grammar", "C10", true, "every string of up to 7 (thorough 8) tokens from {a, :, ;, int, [], opt, empty, any} as an argument string; strings of up to 4 as a return type") {
    const char *tok[] = {"a", ":", ";", "int", "[]", "opt", "empty", "any"};
    Batch b;
    int maxLen = seq::thorough ? 8 : 7;
    for (int len = 0; len <= maxLen; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (item()) {
                b.tick();
                std::string s;
                for (int i : ix) s += tok[i];
                tryRegister(s, "any");
                if (len <= 4) tryRegister("", s.c_str());
            }
            int p = len - 1;
            while (p >= 0 && ++ix[p] == 8) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
SEQ_CASE(grammarNames, "func_grammar_names", "C10", true, "every argument name and function name of up to 3 characters over {a Z _ 0 - space . \\xe9}; every type name of the alphabet with array and modifier combinations; misspelled types") {
    const char *ch[] = {"a", "Z", "_", "0", "-", " ", ".", "\xe9"};
    Batch b;
    for (int len = 0; len <= 3; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (item()) {
                b.tick();
                std::string s;
                for (int i : ix) s += ch[i];
                tryRegister(s + ":int;", "any");
                tryRegister("x:int;" + s + ":int[]:opt", "any");
                // function name
                std::string fn = s.empty() ? s : s + "Q" + std::to_string(serial++);
                cur("registerFunction(name=\"%s\")", fn.c_str());
                int got = api->registerFunction(fn.c_str(), "", "any", nop, nullptr, target());
                exec();
                CHECK(!!got == ident(fn), "function name \"%s\" was %s", fn.c_str(), got ? "accepted" : "refused");
            }
            int p = len - 1;
            while (p >= 0 && ++ix[p] == 8) ix[p--] = 0;
            if (p < 0) break;
        }
    }
    for (const char *t : {"int", "float", "data", "func", "vnode", "anode", "vframe", "aframe", "clip", "frame", "node", "Int", "any", "int ", "ints", "", "[]", "vnode[", "int[][]", "anode]"})
        for (const char *arr : {"", "[]"})
            for (const char *m : {"", ":opt", ":empty", ":opt:empty", ":empty:opt", ":opt:opt", ":empty:opt:empty", ":Opt", ":o"})
                for (const char *pre : {"", "any;", "b:int;", ";;", "b:vnode[]:opt:empty;any;"})
                    if (item()) {
                        b.tick();
                        std::string s = std::string(pre) + "a:" + t + arr + m;
                        tryRegister(s, "any");
                        tryRegister(s + ";", "any");
                        tryRegister("", s.c_str());
                    }
}

// ---------------------------------------------------------------- invocation
namespace {
struct Vals {
    N v, a;
    F vf, af;
    VSFunction *fn = nullptr;
    Vals() {
        v = source(mkvi(fmt(cfGray, stInteger, 8), 8, 8, 2), [](int, VSFrame *) {});
        VSAudioInfo ai = {};
        api->queryAudioFormat(&ai.format, stInteger, 16, 3, core);
        ai.sampleRate = 44100; ai.numSamples = 10;
        a = audioSource(ai, [](int, VSFrame *, int) {});
        VSVideoFormat g = fmt(cfGray, stInteger, 8);
        vf = F(api->newVideoFrame(&g, 8, 8, nullptr, core));
        af = F(api->newAudioFrame(&ai.format, 10, nullptr, core));
        fn = func([](const VSMap *, VSMap *) {});
    }
    ~Vals() { api->freeFunction(fn); }
};
const int TYPES[] = {ptInt, ptFloat, ptData, ptFunction, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame};
const char *TNAME[] = {"int", "float", "data", "func", "vnode", "anode", "vframe", "aframe"};
void put(VSMap *m, const char *k, int t, int n, const Vals &v) {
    if (n == 0) api->mapSetEmpty(m, k, t);
    for (int i = 0; i < n; i++) switch (t) {
        case ptInt: api->mapSetInt(m, k, 7 + i, maAppend); break;
        case ptFloat: api->mapSetFloat(m, k, 1.5 + i, maAppend); break;
        case ptData: api->mapSetData(m, k, i ? "yy" : "x", -1, dtUtf8, maAppend); break;
        case ptFunction: api->mapSetFunction(m, k, v.fn, maAppend); break;
        case ptVideoNode: api->mapSetNode(m, k, v.v.p, maAppend); break;
        case ptAudioNode: api->mapSetNode(m, k, v.a.p, maAppend); break;
        case ptVideoFrame: api->mapSetFrame(m, k, v.vf.p, maAppend); break;
        case ptAudioFrame: api->mapSetFrame(m, k, v.af.p, maAppend); break;
    }
}
struct Entry { std::string key; int type; int n; };
bool matches(const std::vector<Arg> &sig, const std::vector<Entry> &es) {
    bool any = false;
    std::set<std::string> known;
    for (auto &a : sig) {
        if (a.any) { any = true; continue; }
        known.insert(a.name);
        const Entry *e = nullptr;
        for (auto &x : es) if (x.key == a.name) e = &x;
        if (!e) { if (!a.opt) return false; continue; }
        if (e->type != a.type) return false;
        if (!a.arr && e->n > 1) return false;
        if (!a.empty && e->n == 0) return false;
    }
    if (!any) for (auto &x : es) if (!known.count(x.key)) return false;
    return true;
}
struct Call { long calls = 0; std::string seen; void *ud = nullptr; std::string fail; std::function<void(VSMap *)> ret; };
Call rec;
int tagA, tagB;
void VS_CC record(const VSMap *in, VSMap *out, void *ud, VSCore *c, const VSAPI *a) {
    rec.calls++;
    rec.seen = propText(in);
    rec.ud = ud;
    if (c != core) rec.fail = "wrong core";
    if (a != api) rec.fail = "wrong api";
    if (rec.ret) rec.ret(out);
}
std::string one(const std::string &n, int t, bool arr, bool opt, bool empty) {
    return n + ":" + TNAME[t] + (arr ? "[]" : "") + (opt ? ":opt" : "") + (empty ? ":empty" : "") + ";";
}
void runInvoke(const std::string &fname, const std::vector<Arg> &sig, const std::string &text, const std::vector<Entry> &es, const Vals &v, void *ud) {
    A a;
    std::string d;
    for (auto &e : es) { put(a.m, e.key.c_str(), e.type, e.n, v); d += e.key + "=" + std::to_string(e.type) + "x" + std::to_string(e.n) + " "; }
    cur("function with signature \"%s\" invoked with {%s}", text.c_str(), d.c_str());
    bool want = matches(sig, es);
    rec.calls = 0; rec.seen.clear(); rec.fail.clear(); rec.ud = nullptr; rec.ret = nullptr;
    std::string before = propText(a.m);
    VSMap *o = api->invoke(target(), fname.c_str(), a.m);
    exec(); step();
    CHECK(o, "invoke returned no map");
    const char *err = api->mapGetError(o);
    CHECK(rec.calls == (want ? 1 : 0), "function called %ld times, expected %d", rec.calls, want ? 1 : 0);
    CHECK(!!err == !want, "invoke %s although the arguments %s", err ? "failed" : "succeeded", want ? "match" : "do not match");
    CHECK(!err || *err, "empty error message");
    if (want) {
        CHECK(rec.seen == before, "the function saw different arguments: %s", rec.seen.c_str());
        CHECK(rec.ud == ud, "wrong function data");
        CHECK(rec.fail.empty(), "%s", rec.fail.c_str());
    }
    CHECK(propText(a.m) == before, "arguments were modified");
    api->freeMap(o);
}
}

SEQ_CASE(invokeOne, "func_arguments", "C10", true, "every declaration of one argument (8 types x array x opt x empty) alone, with a second argument of 5 kinds, with 'any' before or after; every map with the first argument absent or of each of 8 types with 0, 1 or 2 values, 5 values of the second, an unknown key or not") {
    TSession s;
    Vals v;
    const char *second[] = {"", "b:int;", "b:float:opt;", "b:data[]:empty;", "b:vnode[]:opt;"};
    for (int t = 0; t < 8; t++) for (int fl = 0; fl < 6; fl++) for (int b = 0; b < 5; b++) for (int any = 0; any < 3; any++) {
        if (!item()) continue;
        bool arr = fl >= 2, opt = fl & 1, empty = fl >= 4;
        std::string sig = (any == 1 ? "any;" : "") + one("a", t, arr, opt, empty) + second[b] + (any == 2 ? "any;" : "");
        std::vector<Arg> ref;
        CHECK(parseRef(sig, ref), "reference parser");
        std::string fn = fresh();
        cur("register %s", sig.c_str());
        void *ud = (fl & 1) ? &tagA : &tagB;
        CHECK(api->registerFunction(fn.c_str(), sig.c_str(), "any", record, ud, target()), "valid signature refused");
        state(seq::hash(sig));
        std::vector<Entry> bs = {{"b", 0, -1}, {"b", ptInt, 1}, {"b", ptFloat, 1}, {"b", ptData, 0}, {"b", ptVideoNode, 2}, {"b", ptInt, 2}};
        for (int at = -1; at < 8; at++) for (int an = 0; an < (at < 0 ? 1 : 3); an++) for (auto &be : bs) for (int unk = 0; unk < 3; unk++) {
            std::vector<Entry> es;
            if (at >= 0) es.push_back({"a", TYPES[at], an});
            if (be.n >= 0) es.push_back(be);
            if (unk == 1) es.push_back({"c", ptInt, 1});
            if (unk == 2) es.push_back({"A", ptData, 0});
            runInvoke(fn, ref, sig, es, v, ud);
        }
    }
}
SEQ_CASE(invokeResult, "func_results", "C10", true, "every declared return type (8 types x array x opt x empty, none, any) against every result (absent, each type with 0..2 values, extra key, error with and without other values)") {
    TSession s;
    Vals v;
    for (int t = -2; t < 8; t++) for (int fl = 0; fl < (t < 0 ? 1 : 6); fl++) {
        if (!item()) continue;
        bool arr = fl >= 2, opt = fl & 1, empty = fl >= 4;
        std::string sig = t == -2 ? "any" : t == -1 ? "" : one("r", t, arr, opt, empty);
        std::vector<Arg> ref;
        CHECK(parseRef(sig, ref), "reference parser");
        std::string fn = fresh();
        CHECK(api->registerFunction(fn.c_str(), "", sig.c_str(), record, nullptr, target()), "valid return type refused: %s", sig.c_str());
        state(seq::hash(sig));
        for (int at = -1; at < 8; at++) for (int an = 0; an < (at < 0 ? 1 : 3); an++) for (int extra = 0; extra < 2; extra++) for (int error = 0; error < 3; error++) {
            std::vector<Entry> es;
            if (at >= 0) es.push_back({"r", TYPES[at], an});
            if (extra) es.push_back({"e", ptInt, 1});
            cur("function returning \"%s\" produced r=%d x%d extra=%d error=%d", sig.c_str(), at, an, extra, error);
            rec.ret = [&](VSMap *o) {
                if (error == 1) api->mapSetError(o, "boom");
                for (auto &e : es) if (error != 1) put(o, e.key.c_str(), e.type, e.n, v);
                if (error == 2) api->mapSetError(o, "bang");
            };
            rec.calls = 0;
            int l = logged;
            A a;
            VSMap *o = api->invoke(target(), fn.c_str(), a.m);
            exec(); step();
            CHECK(rec.calls == 1, "called %ld times", rec.calls);
            const char *err = api->mapGetError(o);
            if (error) {
                CHECK(err && !strcmp(err, error == 1 ? "boom" : "bang"), "error of the function was lost: %s", err ? err : "(none)");
                CHECK(logged == l, "warning logged for a failed call: %s", lastLog.c_str());
            } else {
                CHECK(!err, "error without cause: %s", err);
                A want;
                for (auto &e : es) put(want.m, e.key.c_str(), e.type, e.n, v);
                CHECK(propText(o) == propText(want.m), "result changed: %s", propText(o).c_str());
                bool ok = t == -2 || matches(ref, es);
                CHECK((logged > l) == !ok, "result %s the declared return type but %s", ok ? "matches" : "violates", ok ? "a warning was logged" : "no warning was logged");
            }
            api->freeMap(o);
            rec.ret = nullptr;
        }
    }
}

// ---------------------------------------------------------------- registration and plugin histories
namespace {
struct PModel { std::string ns; bool modifiable; int version; std::map<std::string, std::pair<std::string, int>> funcs; };
// compares everything observable about plugins with the model
void compare(const std::map<std::string, PModel> &m) {
    std::map<std::string, VSPlugin *> seen;
    std::string last;
    for (VSPlugin *p = api->getNextPlugin(nullptr, core); p; p = api->getNextPlugin(p, core)) {
        std::string id = api->getPluginID(p);
        CHECK(!seen.count(id), "plugin %s enumerated twice", id.c_str());
        seen[id] = p;
    }
    for (auto &e : m) {
        CHECK(seen.count(e.first), "plugin %s is not enumerated", e.first.c_str());
        VSPlugin *p = api->getPluginByID(e.first.c_str(), core);
        CHECK(p == seen[e.first], "getPluginByID(%s)", e.first.c_str());
        CHECK(api->getPluginByNamespace(e.second.ns.c_str(), core) == p, "getPluginByNamespace(%s)", e.second.ns.c_str());
        CHECK(e.second.ns == api->getPluginNamespace(p), "namespace of %s is %s", e.first.c_str(), api->getPluginNamespace(p));
        CHECK(e.second.version == api->getPluginVersion(p), "version of %s", e.first.c_str());
        std::map<std::string, VSPluginFunction *> fs;
        for (VSPluginFunction *f = api->getNextPluginFunction(nullptr, p); f; f = api->getNextPluginFunction(f, p)) {
            CHECK(!fs.count(api->getPluginFunctionName(f)), "function enumerated twice");
            fs[api->getPluginFunctionName(f)] = f;
        }
        CHECK(fs.size() == e.second.funcs.size(), "%s enumerates %zu functions instead of %zu", e.first.c_str(), fs.size(), e.second.funcs.size());
        for (auto &f : e.second.funcs) {
            CHECK(fs.count(f.first), "function %s is not enumerated", f.first.c_str());
            CHECK(api->getPluginFunctionByName(f.first.c_str(), p) == fs[f.first], "getPluginFunctionByName(%s)", f.first.c_str());
            CHECK(f.second.first == api->getPluginFunctionArguments(fs[f.first]), "arguments of %s", f.first.c_str());
            rec.calls = 0; rec.ret = nullptr;
            A a;
            a.i("a", 1);
            bool want = f.second.first.find("a:int") == 0;
            VSMap *o = api->invoke(p, f.first.c_str(), a.m);
            step();
            CHECK(rec.calls == want, "%s.%s was called %ld times", e.first.c_str(), f.first.c_str(), rec.calls);
            CHECK(!want || rec.ud == (f.second.second ? &tagA : &tagB), "the wrong function was called");
            api->freeMap(o);
        }
        for (const char *n : {"", "nosuch", "One2"}) {
            if (e.second.funcs.count(n)) continue;
            CHECK(!api->getPluginFunctionByName(n, p), "lookup of an unregistered function succeeded");
            A a;
            rec.calls = 0;
            VSMap *o = api->invoke(p, n, a.m);
            CHECK(api->mapGetError(o) && !rec.calls, "invoking an unregistered function did not fail");
            api->freeMap(o);
        }
    }
    CHECK(seen.size() == m.size() + 3, "%zu plugins enumerated instead of %zu", seen.size(), m.size() + 3);
    CHECK(!api->getPluginByID("no.such", core) && !api->getPluginByNamespace("nosuch", core) && !api->getPluginByID("", core), "lookup of an unknown plugin succeeded");
}
}
SEQ_CASE(pluginHistories, "func_registry", "C10", true, "every sequence of 3 (thorough 4) operations from: load a plugin (2 ids x 2 namespaces x locked or modifiable x forced id or namespace x functions x wrong API version), load of a missing file or a library without entry point, register (2 names x 2 signatures, invalid, duplicate) in each plugin") {
    std::string so = exeDir() + "/libhook";
    struct Op { std::string text; std::function<void(std::map<std::string, PModel> &)> run; };
    std::vector<Op> ops;
    auto doLoad = [so](std::map<std::string, PModel> &m, std::string id, std::string ns, int flags, std::string fid, std::string fns, int api_, int nfuncs) {
        hook = [=](VSPlugin *p, const VSPLUGINAPI *a) {
            CHECK(a->getAPIVersion() == VAPOURSYNTH_API_VERSION, "api version");
            a->configPlugin(id.c_str(), ns.c_str(), "Test", 5, api_, flags, p);
            if (nfuncs > 0) CHECK(a->registerFunction("One", "a:int;", "any", record, &tagA, p), "registration while loading refused");
            if (nfuncs > 1) CHECK(!a->registerFunction("One", "", "any", record, &tagB, p), "duplicate registration accepted");
            if (nfuncs > 1) CHECK(a->registerFunction("Two", "a:int:opt", "any", record, &tagB, p), "registration while loading refused");
        };
        A a;
        a.s("path", so);
        if (!fid.empty()) a.s("forceid", fid);
        if (!fns.empty()) a.s("forcens", fns);
        VSMap *o = api->invoke(stdp(), "LoadPlugin", a.m);
        bool ok = !api->mapGetError(o);
        api->freeMap(o);
        std::string rid = fid.empty() ? id : fid, rns = fns.empty() ? ns : fns;
        int major = api_ >> 16, minor = api_ & 0xffff;
        bool want = major == VAPOURSYNTH_API_MAJOR && minor <= VAPOURSYNTH_API_MINOR;
        for (auto &e : m) want = want && e.first != rid && e.second.ns != rns;
        want = want && rns != "std" && rns != "resize" && rns != "text";
        CHECK(ok == want, "load of %s/%s was %s", rid.c_str(), rns.c_str(), ok ? "accepted" : "refused");
        if (ok) {
            PModel pm{rns, (flags & pcModifiable) != 0, 5, {}};
            if (nfuncs > 0) pm.funcs["One"] = {"a:int;", 1};
            if (nfuncs > 1) pm.funcs["Two"] = {"a:int:opt", 0};
            m[rid] = pm;
        }
        step();
    };
    for (int i = 0; i < 2; i++) for (int n = 0; n < 2; n++) for (int fl = 0; fl < 2; fl++) {
        std::string id = i ? "x.b" : "x.a", ns = n ? "nb" : "na";
        ops.push_back({"load " + id + "/" + ns + (fl ? " modifiable" : " locked"), [=](std::map<std::string, PModel> &m) { doLoad(m, id, ns, fl ? pcModifiable : 0, "", "", VAPOURSYNTH_API_VERSION, i + n); }});
    }
    ops.push_back({"load x.a/na forceid x.c", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.a", "na", 0, "x.c", "", VAPOURSYNTH_API_VERSION, 2); }});
    ops.push_back({"load x.a/na forcens nc", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.a", "na", pcModifiable, "", "nc", VAPOURSYNTH_API_VERSION, 0); }});
    ops.push_back({"load x.a/na forced x.b/nb", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.a", "na", pcModifiable, "x.b", "nb", VAPOURSYNTH_API_VERSION, 1); }});
    ops.push_back({"load x.c in std", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.c", "std", 0, "", "", VAPOURSYNTH_API_VERSION, 1); }});
    ops.push_back({"load with newer minor api", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.a", "na", 0, "", "", VAPOURSYNTH_API_VERSION + 1, 1); }});
    ops.push_back({"load with other major api", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.b", "nb", 0, "", "", (VAPOURSYNTH_API_MAJOR + 1) << 16, 1); }});
    ops.push_back({"load with older minor api", [=](std::map<std::string, PModel> &m) { doLoad(m, "x.b", "nb", 0, "", "", VAPOURSYNTH_API_MAJOR << 16, 1); }});
    for (const char *path : {"/nonexistent/x.so", "libm.so.6"})
        ops.push_back({std::string("load ") + path, [=](std::map<std::string, PModel> &) {
            A a;
            a.s("path", path);
            VSMap *o = api->invoke(stdp(), "LoadPlugin", a.m);
            CHECK(api->mapGetError(o), "loading %s succeeded", path);
            api->freeMap(o);
        }});
    for (const char *id : {"x.a", "x.b"}) for (const char *fn : {"One", "Three", "3"}) for (const char *sig : {"a:int", "b:int:opt:opt"}) {
        if (!strcmp(fn, "3") && sig[0] == 'b') continue;
        ops.push_back({std::string("register ") + fn + "(" + sig + ") in " + id, [=](std::map<std::string, PModel> &m) {
            VSPlugin *p = api->getPluginByID(id, core);
            CHECK(!!p == !!m.count(id), "plugin lookup of %s", id);
            if (!p) return;
            int got = api->registerFunction(fn, sig, "any", record, &tagB, p);
            PModel &pm = m[id];
            bool want = pm.modifiable && fn[0] != '3' && !pm.funcs.count(fn) && sig[0] == 'a';
            CHECK(!!got == want, "registration was %s", got ? "accepted" : "refused");
            if (got) pm.funcs[fn] = {sig, 0};
            step();
        }});
    }
    int n = (int)ops.size(), depth = seq::thorough ? 4 : 3;
    std::vector<int> ix(depth, 0);
    for (;;) {
        if (item()) {
            Session s;
            std::map<std::string, PModel> m;
            std::string text;
            for (int i : ix) {
                text += (text.empty() ? "" : "; ") + ops[i].text;
                cur("%s", text.c_str());
                ops[i].run(m);
                uint64_t h = 1;
                for (auto &e : m) h = seq::mix(h, seq::hash(e.first + e.second.ns + std::to_string(e.second.funcs.size()) + std::to_string(e.second.modifiable)));
                state(h);
            }
            compare(m);
            exec();
            hook = nullptr;
        }
        int p = depth - 1;
        while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
        if (p < 0) break;
    }
}
