// C27: which plugins end up loaded, against the loading rules: single files, directories, manifests, autoloading.
#include "vk.h"
#include <algorithm>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <unistd.h>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;
namespace fs = std::filesystem;

namespace {
struct Kind {
    const char *file;          // file name
    const char *id, *ns;       // as configured by its init function; null: never loads
    int api;                   // api version it asks for; 0: does not configure itself
    char what;                 // p plugin, n library without entry point, t text, e empty, l dangling link, s link to a.so, d directory
    bool seen;                 // has the extension that directory scans look at
};
const int V = VAPOURSYNTH_API_VERSION;
const Kind KINDS[] = {
    {"a.so", "id.a", "a", V, 'p', true},
    {"b.so", "id.b", "b", V, 'p', true},
    {"a2.so", "id.a", "x", V, 'p', true},              // same id as a.so
    {"a3.so", "id.y", "a", V, 'p', true},              // same namespace as a.so
    {"old.so", "id.old", "old", VS_MAKE_VERSION(4, 0), 'p', true},
    {"std.so", "id.s", "std", V, 'p', true},
    {"stdid.so", "com.vapoursynth.std", "st", V, 'p', true},
    {"minor.so", "id.mi", "mi", VS_MAKE_VERSION(4, 99), 'p', true},
    {"major.so", "id.ma", "ma", VS_MAKE_VERSION(5, 0), 'p', true},
    {"noconf.so", "", "", 0, 'p', true},
    {"noentry.so", nullptr, nullptr, 0, 'n', true},
    {"text.so", nullptr, nullptr, 0, 't', true},
    {"empty.so", nullptr, nullptr, 0, 'e', true},
    {"dangling.so", nullptr, nullptr, 0, 'l', true},
    {"link.so", "id.a", "a", V, 's', true},            // the same library as a.so by another name
    {"\xc3\xa4 \xe6\xb5\x8b.so", "id.u", "u", V, 'p', true},
    {"c.txt", "id.c", "c", V, 'p', false},
    {"c.so.1", "id.c1", "c1", V, 'p', false},
    {".so", "id.h", "h", V, 'p', false},
};
const int NK = sizeof(KINDS) / sizeof(*KINDS);
bool good(const Kind &k) { return k.id && k.api && k.api >> 16 == 4 && (k.api & 0xffff) <= (V & 0xffff); }

std::string lib, nolib;        // the two libraries the files are made from
std::string root;              // scratch directory of this process

struct Loaded { std::string id, ns, path; bool operator==(const Loaded &o) const = default; bool operator<(const Loaded &o) const { return std::tie(id, ns, path) < std::tie(o.id, o.ns, o.path); } };

void VS_CC who(const VSMap *, VSMap *out, void *data, VSCore *, const VSAPI *api) {
    api->mapSetData(out, "path", (const char *)data, -1, dtUtf8, maReplace);
}
const Kind *kindOf(const std::string &path) {
    std::string f = fs::path(path).filename().string();
    for (auto &k : KINDS) if (f == k.file) return &k;
    return nullptr;
}
std::set<std::string> names;
}
extern "C" __attribute__((visibility("default"))) void seq_tiny_init(const char *path, VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    const char *keep = names.insert(path).first->c_str();
    const Kind *k = kindOf(path);
    if (!k) {                                      // processor specific variants are all the same plugin
        vspapi->configPlugin("id.v", "v", path, 1, V, 0, plugin);
    } else if (k->api) {
        vspapi->configPlugin(k->id, k->ns, k->file, 7, k->api, 0, plugin);
    } else
        return;
    vspapi->registerFunction("Who", "", "path:data;", who, (void *)keep, plugin);
}
namespace {
void copyFile(const std::string &from, const std::string &to) {
    std::error_code ec;
    fs::copy_file(from, to, ec);
    if (ec) seq::fail("internal: cannot create %s: %s", to.c_str(), ec.message().c_str());
}
void put(const std::string &dir, const Kind &k) {
    std::string p = dir + "/" + k.file;
    switch (k.what) {
        case 'p': copyFile(lib, p); break;
        case 'n': copyFile(nolib, p); break;
        case 't': std::ofstream(p) << "this is not a library\n"; break;
        case 'e': { std::ofstream f(p); break; }
        case 'l': fs::create_symlink("nowhere.so", p); break;
        case 's': fs::create_symlink("a.so", p); break;
    }
}
std::set<Loaded> builtin;
std::set<Loaded> loaded();
struct Scratch {
    Scratch() {
        api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
        core = api->createCore(ccfDisableAutoLoading);
        builtin = loaded();
        dropCore();
        char t[] = "/dev/shm/vsplug-XXXXXX", t2[] = "/tmp/vsplug-XXXXXX";
        const char *d = mkdtemp(t);
        if (!d) d = mkdtemp(t2);
        if (!d) seq::fail("internal: no scratch directory");
        root = d;
        char exe[4096] = {};
        if (readlink("/proc/self/exe", exe, sizeof(exe) - 1) < 0) seq::fail("internal: readlink");
        std::string dir = fs::path(exe).parent_path().string();
        lib = dir + "/libtiny"; nolib = dir + "/libtinynoentry";
    }
    ~Scratch() { std::error_code ec; if (root.size() > 12) fs::remove_all(root, ec); }
    std::string fresh() {
        static int n;
        std::string d = root + "/" + std::to_string(++n);
        fs::create_directory(d);
        return d;
    }
    void drop(const std::string &d) { std::error_code ec; if (d.compare(0, root.size(), root) == 0 && d.size() > root.size() + 1) fs::remove_all(d, ec); }
};
std::set<Loaded> loaded() {
    std::set<Loaded> r;
    for (VSPlugin *p = api->getNextPlugin(nullptr, core); p; p = api->getNextPlugin(p, core)) {
        const char *path = api->getPluginPath(p);
        r.insert({api->getPluginID(p), api->getPluginNamespace(p), path ? path : ""});
    }
    return r;
}
int fatal;
void VS_CC msg(int t, const char *, void *) { if (t == mtFatal) fatal++; }
void open(int flags = ccfDisableAutoLoading) {
    api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    core = api->createCore(flags);
    CHECK(core, "no core");
    api->addLogHandler(msg, nullptr, nullptr, core);
}
// everything that is loaded works and is what it says; returns what has been added to the built-in plugins
std::set<Loaded> inspect() {
    std::set<Loaded> all = loaded(), add;
    for (auto &b : builtin) CHECK(all.count(b), "built-in plugin %s has disappeared", b.id.c_str());
    std::set<std::string> ids, nss;
    for (auto &l : all) {
        CHECK(ids.insert(l.id).second, "two plugins have the id %s", l.id.c_str());
        CHECK(nss.insert(l.ns).second, "two plugins have the namespace %s", l.ns.c_str());
        VSPlugin *p = api->getPluginByID(l.id.c_str(), core);
        CHECK(p && p == api->getPluginByNamespace(l.ns.c_str(), core), "plugin %s is not found by its id and namespace", l.id.c_str());
        if (builtin.count(l)) continue;
        add.insert(l);
        A a;
        VSMap *o = api->invoke(p, "Who", a.m);
        const char *e = api->mapGetError(o);
        CHECK(!e, "calling into %s: %s", l.path.c_str(), e);
        std::string at = api->mapGetData(o, "path", 0, nullptr);
        api->freeMap(o);
        std::error_code ec;
        CHECK(fs::equivalent(at, l.path, ec), "plugin %s says it was loaded from %s, it is from %s", l.id.c_str(), l.path.c_str(), at.c_str());
        const Kind *k = kindOf(l.path);
        if (k) {
            CHECK(api->getPluginVersion(p) == 7, "plugin version");
            std::string name = api->getPluginName(p);
            CHECK(name == k->file || (k->id == std::string("id.a") && k->ns == std::string("a") && (name == "a.so" || name == "link.so")), "plugin name %s", name.c_str());
        }
    }
    return add;
}
void close(const std::vector<std::string> &files) {
    dropCore();
    for (auto &f : files) {
        void *h = dlopen(f.c_str(), RTLD_LAZY | RTLD_NOLOAD);
        if (h) dlclose(h);
        CHECK(!h, "%s is still loaded after the core has been freed", f.c_str());
    }
    CHECK(!fatal, "a fatal message was logged");
}
std::vector<std::string> under(const std::string &d) {
    std::vector<std::string> r;
    for (auto &e : fs::recursive_directory_iterator(d))
        if (e.is_regular_file()) r.push_back(e.path().string());
    return r;
}
// the set that a scan in unknown order may leave: nothing invalid, nothing in conflict, nothing left out without a conflict
void checkScan(const std::set<Loaded> &add, const std::vector<std::string> &candidates, const std::set<Loaded> &before) {
    std::set<std::string> cand(candidates.begin(), candidates.end());
    for (auto &l : add) {
        if (before.count(l)) continue;
        CHECK(cand.count(l.path), "%s was loaded but should not have been", l.path.c_str());
        const Kind *k = kindOf(l.path);
        CHECK(k && good(*k), "%s was loaded but is not usable", l.path.c_str());
        CHECK(l.id == k->id && l.ns == k->ns, "%s was loaded as %s/%s", l.path.c_str(), l.id.c_str(), l.ns.c_str());
    }
    for (auto &c : cand) {
        const Kind *k = kindOf(c);
        if (!k || !good(*k)) continue;
        bool in = false, conflict = false;
        for (auto &l : add) { in |= l.path == c; conflict |= l.id == k->id || l.ns == k->ns; }
        for (auto &l : builtin) conflict |= l.id == k->id || l.ns == k->ns;
        CHECK(in || conflict, "%s was not loaded", c.c_str());
    }
}
std::string str(const std::vector<int> &ks) { std::string s; for (int k : ks) s += std::string(s.empty() ? "" : " ") + KINDS[k].file; return s; }
std::string invokeLoad(const char *fn, const std::string &path, const char *fns = nullptr, const char *fid = nullptr) {
    A a;
    a.s("path", path);
    if (fns) a.s("forcens", fns);
    if (fid) a.s("forceid", fid);
    VSMap *o = api->invoke(api->getPluginByID("com.vapoursynth.std", core), fn, a.m);
    const char *e = api->mapGetError(o);
    std::string r = e ? *e ? e : "(empty error)" : "";
    api->freeMap(o);
    exec();
    return r;
}
}

SEQ_CASE(pluginSequences, "plugin_files", "C27", true, "all sequences of up to 3 (thorough: 4) LoadPlugin calls over 19 kinds of files (duplicate ids and namespaces, unsupported versions, no entry point, not a library, links, odd names) and forced ids/namespaces") {
    Scratch s;
    std::string d = s.fresh();
    for (auto &k : KINDS) put(d, k);
    struct Op { int k; const char *ns, *id; };
    std::vector<Op> ops;
    for (int k = 0; k < NK; k++) ops.push_back({k, nullptr, nullptr});
    for (int k : {0, 2, 10}) { ops.push_back({k, "f", nullptr}); ops.push_back({k, nullptr, "id.f"}); ops.push_back({k, "b", "id.f"}); ops.push_back({k, "g", "id.b"}); }
    ops.push_back({-1, nullptr, nullptr});               // a file that does not exist
    int depth = seq::thorough ? 4 : 3;
    std::vector<int> sq;
    std::function<void()> go = [&] {
        if (!sq.empty() && item()) {
            std::string t;
            for (int o : sq) t += std::string(t.empty() ? "" : ", ") + (ops[o].k < 0 ? "missing.so" : KINDS[ops[o].k].file) + (ops[o].ns ? std::string(" ns=") + ops[o].ns : "") + (ops[o].id ? std::string(" id=") + ops[o].id : "");
            cur("LoadPlugin: %s", t.c_str());
            open();
            std::set<Loaded> model;
            for (int oi : sq) {
                const Op &o = ops[oi];
                std::string path = d + "/" + (o.k < 0 ? "missing.so" : KINDS[o.k].file);
                std::string err = invokeLoad("LoadPlugin", path, o.ns, o.id);
                bool ok = o.k >= 0 && good(KINDS[o.k]);
                std::string id, ns;
                if (ok) {
                    // a link is the library it points to
                    const Kind &k = KINDS[o.k];
                    id = o.id ? o.id : k.id; ns = o.ns ? o.ns : k.ns;
                    for (auto *x : {&builtin, &model}) for (auto &l : *x) ok &= l.id != id && l.ns != ns;
                }
                CHECK(ok == err.empty(), "LoadPlugin(%s): %s", path.c_str(), ok ? err.c_str() : "no error");
                if (ok) model.insert({id, ns, path});
                std::set<Loaded> got = inspect();
                CHECK(got.size() == model.size(), "%zu plugins are loaded instead of %zu", got.size(), model.size());
                for (auto &m : model) CHECK(got.count(m), "%s is not loaded as %s/%s", m.path.c_str(), m.id.c_str(), m.ns.c_str());
                step();
                uint64_t h = 0;
                for (auto &m : model) h = h * 31 + seq::hash(m.id + m.ns + m.path.substr(d.size()));
                state(h);
            }
            close(under(d));
        }
        if ((int)sq.size() == depth) return;
        for (size_t o = 0; o < ops.size(); o++) {
            sq.push_back((int)o);
            go();
            sq.pop_back();
        }
    };
    go();
}
SEQ_CASE(pluginDirs, "plugin_directories", "C27", true, "LoadAllPlugins on all directories with up to 3 of 18 kinds of files, the same split over nested subdirectories, after another plugin has been loaded, and through autoloading when a core is created") {
    Scratch s;
    std::vector<std::vector<int>> sets = {{}};
    for (int a = 0; a < NK; a++) {
        sets.push_back({a});
        for (int b = a + 1; b < NK; b++) {
            sets.push_back({a, b});
            for (int c = b + 1; c < NK; c++) sets.push_back({a, b, c});
        }
    }
    for (auto &ks : sets)
        for (int layout = 0; layout < 5; layout++) {           // flat; last in a subdirectory; all in nested ones; autoloaded; flat after b.so
            if (layout == 1 && ks.size() < 2) continue;
            if (!item()) continue;
            cur("LoadAllPlugins: %s layout %d", str(ks).c_str(), layout);
            std::string d = s.fresh(), other;
            std::vector<std::string> cand;
            for (size_t i = 0; i < ks.size(); i++) {
                std::string at = d;
                if (layout == 1 && i + 1 == ks.size()) { at += "/sub.so"; fs::create_directory(at); }
                if (layout == 2) for (size_t j = 0; j <= i; j++) { at += "/s" + std::to_string(j); fs::create_directory(at); }
                put(at, KINDS[ks[i]]);
                if (KINDS[ks[i]].what == 's' && !fs::exists(at + "/a.so")) continue;       // dangling
                if (KINDS[ks[i]].seen) cand.push_back(at + "/" + KINDS[ks[i]].file);
            }
            std::set<Loaded> before;
            if (layout == 3) {
                setenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH", d.c_str(), 1);
                open(); CHECK(inspect().empty(), "plugins were loaded with autoloading disabled"); dropCore();
                open(0);
                unsetenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH");
                exec();
            } else {
                open();
                if (layout == 4) {
                    other = s.fresh();
                    put(other, KINDS[1]);
                    std::string e = invokeLoad("LoadPlugin", other + "/b.so");
                    CHECK(e.empty(), "%s", e.c_str());
                    before = inspect();
                }
                std::string e = invokeLoad("LoadAllPlugins", d);
                CHECK(e.empty(), "LoadAllPlugins: %s", e.c_str());
            }
            std::set<Loaded> add = inspect();
            for (auto &b : before) CHECK(add.count(b), "a plugin loaded earlier has disappeared");
            checkScan(add, cand, before);
            step();
            state(seq::hash(str(ks)));
            // a second scan changes nothing
            invokeLoad("LoadAllPlugins", d);
            CHECK(inspect() == add, "scanning the same directory again changed what is loaded");
            close(under(d));
            s.drop(d);
            if (!other.empty()) s.drop(other);
        }
}
SEQ_CASE(pluginManifest, "plugin_manifest", "C27", true, "all manifests of up to 4 (thorough: 5) lines over 11 kinds of lines x line ends x final line end, for LoadAllPlugins, a subdirectory and an autoloaded directory") {
    Scratch s;
    const char *lines[] = {"[VapourSynth Manifest V1]", "a", "b", "a2", "missing", "", "sub/b", "noentry", "text", "a.so", "[VapourSynth Manifest V2]"};
    const int NL = sizeof(lines) / sizeof(*lines);
    int depth = seq::thorough ? 5 : 4;
    std::vector<int> sq;
    auto one = [&](const char *eol, bool final, int where) {       // where: 0 the directory itself, 1 a subdirectory, 2 autoload root (manifest ignored), 3 subdirectory of the autoload root
        if (!item()) return;
        std::string text;
        for (size_t i = 0; i < sq.size(); i++) text += std::string(lines[sq[i]]) + (i + 1 < sq.size() || final ? eol : "");
        std::string shown;
        for (char c : text) shown += c == '\n' ? "\\n" : c == '\r' ? "\\r" : std::string(1, c);
        cur("manifest \"%s\" %s", shown.c_str(), where == 0 ? "in the directory" : where == 1 ? "in a subdirectory" : where == 2 ? "in the autoload directory" : "in a subdirectory of the autoload directory");
        std::string top = s.fresh(), d = where == 1 || where == 3 ? top + "/pkg" : top;
        if (d != top) fs::create_directory(d);
        fs::create_directory(d + "/sub");
        for (int k : {0, 1, 2, 10, 11}) if (where != 2 || k != 2) put(d, KINDS[k]);
        put(d + "/sub", KINDS[1]);
        std::ofstream(d + "/manifest.vs", std::ios::binary) << text;
        // the model
        std::vector<std::string> l;
        std::string w;
        for (char c : text + "\n") if (c == '\n' || c == '\r') { if (!w.empty()) l.push_back(w); w.clear(); } else w += c;
        bool valid = !l.empty() && l[0] == lines[0];
        std::set<Loaded> want;
        if (valid)
            for (size_t i = 1; i < l.size(); i++) {
                std::string f = d + "/" + l[i] + ".so";
                const Kind *k = kindOf(f);
                if (!k || !good(*k) || !fs::exists(f)) continue;
                bool clash = false;
                for (auto &x : want) clash |= x.id == k->id || x.ns == k->ns;
                if (!clash) want.insert({k->id, k->ns, f});
            }
        if (where < 2) {
            open();
            std::string e = invokeLoad("LoadAllPlugins", top);
            CHECK(e.empty(), "LoadAllPlugins: %s", e.c_str());
        } else {
            setenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH", top.c_str(), 1);
            open(0);
            unsetenv("VAPOURSYNTH_EXTRA_PLUGIN_PATH");
            exec();
        }
        std::set<Loaded> got = inspect();
        if (where == 2) {
            checkScan(got, {d + "/a.so", d + "/b.so", d + "/sub/b.so", d + "/noentry.so", d + "/text.so"}, {});
        } else {
            for (auto &x : want) CHECK(got.count(x), "%s is not loaded", x.path.c_str());
            for (auto &x : got) CHECK(want.count(x), "%s is loaded but not listed", x.path.c_str());
        }
        step();
        state(seq::hash(std::to_string(valid) + std::to_string(want.size()) + std::to_string(where)));
        close(under(top));
        s.drop(top);
    };
    std::function<void()> go = [&] {
        for (const char *eol : {"\n", "\r\n"})
            for (bool final : {true, false}) {
                if (sq.empty() && (*eol == '\r' || !final)) continue;
                int w = (int)sq.size() >= depth - 1 ? 1 : 4;
                if ((int)sq.size() >= depth - 1 && (*eol == '\r') == final) continue;
                for (int where = 0; where < w; where++) one(eol, final, where);
            }
        if ((int)sq.size() == depth) return;
        for (int i = 0; i < NL; i++) {
            if (sq.size() == 1 && sq[0] != 0 && i > 5) continue;
            sq.push_back(i);
            go();
            sq.pop_back();
        }
    };
    go();
}
SEQ_CASE(pluginVariants, "plugin_variants", "C27", false, "every subset of processor specific variants of a library (none, avx2, avx512, zn4) for LoadPlugin and manifests; LoadAllPlugins takes no variant in place of the library") {
    Scratch s;
    const char *ext[] = {".avx2", ".avx512", ".zn4"};
    int level = -2;
    for (int pass = 0; pass < 2; pass++)                     // the full set first: it tells the level of this processor
        for (int set = 7; set >= 0; set--)
            for (int manifest = 0; manifest < 2; manifest++) {
                if (pass == 0 && (set != 7 || manifest)) continue;
                cur("variants %s%s%s%s", set & 1 ? "avx2 " : "", set & 2 ? "avx512 " : "", set & 4 ? "zn4 " : "", manifest ? "by manifest" : "by LoadPlugin");
                std::string d = s.fresh();
                copyFile(lib, d + "/v.so");
                for (int i = 0; i < 3; i++) if (set >> i & 1) copyFile(lib, d + "/v" + ext[i] + ".so");
                open();
                if (manifest) {
                    std::ofstream(d + "/manifest.vs") << "[VapourSynth Manifest V1]\nv\n";
                    std::string e = invokeLoad("LoadAllPlugins", d);
                    CHECK(e.empty(), "%s", e.c_str());
                } else {
                    std::string e = invokeLoad("LoadPlugin", d + "/v.so");
                    CHECK(e.empty(), "%s", e.c_str());
                }
                std::set<Loaded> got = inspect();
                CHECK(got.size() == 1, "%zu plugins loaded", got.size());
                std::string f = fs::path(got.begin()->path).filename().string();
                int which = -1;
                for (int i = 0; i < 3; i++) if (f == std::string("v") + ext[i] + ".so") which = i;
                CHECK(which >= 0 || f == "v.so", "loaded %s", f.c_str());
                if (pass == 0) level = which;
                int want = -1;
                for (int i = 0; i <= level; i++) if (set >> i & 1) want = i;
                CHECK(which == want, "loaded %s instead of v%s.so", f.c_str(), want < 0 ? "" : ext[want]);
                step();
                close(under(d));
                s.drop(d);
            }
}
