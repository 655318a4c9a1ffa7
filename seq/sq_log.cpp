// C12: message delivery, against a list model
#include "vk.h"
#include <algorithm>
#include <list>
using namespace vk;
using seq::item; using seq::cur; using seq::exec; using seq::step; using seq::state;

namespace {
struct H {                      // a handler and everything it received
    int k; bool relog; VSLogHandle *h = nullptr; bool live = false; int freed = 0;
    std::vector<std::pair<int, std::string>> got, want;
};
H *inRelog;
VSCore *lc;
void VS_CC onMsg(int type, const char *msg, void *u) {
    H *h = static_cast<H *>(u);
    if (h->freed) seq::fail("message '%s' delivered to a freed handler", msg);
    h->got.push_back({type, msg});
    if (h->relog && msg[0] == 'm') {
        // a handler may log itself
        std::string m = std::string("r") + msg;
        api->logMessage(mtDebug, m.c_str(), lc);
    }
}
void VS_CC onFree(void *u) { static_cast<H *>(u)->freed++; }
bool same(const H &h) {
    if (h.got == h.want) return true;
    if (h.got.size() != h.want.size()) return false;
    return false;
}
std::string text(const std::vector<std::pair<int, std::string>> &v) {
    std::string s;
    for (size_t i = 0; i < v.size() && i < 12; i++) s += std::to_string(v[i].first) + ":" + v[i].second + " ";
    return s + "(" + std::to_string(v.size()) + ")";
}

// the model: live handlers and stored messages
struct World {
    std::vector<std::unique_ptr<H>> hs;
    std::vector<std::pair<int, std::string>> stored;
    long serial = 0;
    size_t limit = 0;
    bool plainOrder = true;
    void start() {
        hs.clear(); stored.clear(); serial = 0;
        api = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
        lc = api->createCore(ccfDisableAutoLoading);
        CHECK(lc, "no core");
    }
    std::vector<H *> live() { std::vector<H *> r; for (auto &h : hs) if (h->live) r.push_back(h.get()); return r; }
    void add(bool withFree) {
        hs.push_back(std::make_unique<H>());
        H *h = hs.back().get();
        h->k = (int)hs.size();
        for (auto &m : stored) h->want.push_back(m);
        stored.clear();
        h->live = true;
        h->h = api->addLogHandler(onMsg, withFree ? onFree : nullptr, h, lc);
        CHECK(h->h, "addLogHandler returned no handle");
        for (auto &o : hs) if (o.get() != h && o->live) CHECK(o->h != h->h, "handle is not unique");
        h->relog = false;
    }
    void log(int type) {
        std::string m = "m" + std::to_string(serial++);
        bool any = false;
        for (auto &h : hs) if (h->live) { any = true; h->want.push_back({type, m}); }
        if (!any) stored.push_back({type, m});
        api->logMessage(type, m.c_str(), lc);
    }
    void remove(int i, bool withFree) {
        H *h = hs[i].get();
        bool was = h->live;
        h->live = false;
        int r = api->removeLogHandler(h->h, lc);
        CHECK(!!r == was, "removing a %s handler returned %d", was ? "live" : "stale", r);
    }
    void check(const char *when) {
        for (auto &h : hs) if (!(h->got == h->want)) seq::fail("%s: handler %d received %s instead of %s", when, h->k, text(h->got).c_str(), text(h->want).c_str());
    }
    uint64_t hash() {
        uint64_t x = stored.size();
        for (auto &h : hs) x = seq::mix(x, h->live * 2 + 1);
        return x;
    }
};
}

SEQ_CASE(logHistories, "log_histories", "C12", true, "every sequence of up to 6 (thorough 7) of: log at each of four levels, add a handler with or without free function, remove the oldest/newest live handler, remove a stale or foreign handle; then free the core, with handlers still attached") {
    int depth = seq::thorough ? 7 : 6;
    const int OPS = 8;
    for (int len = 1; len <= depth; len++) {
        std::vector<int> ix(len, 0);
        for (;;) {
            if (item()) {
                World w;
                w.start();
                std::vector<bool> wf;
                std::string d;
                for (int op : ix) {
                    auto lv = w.live();
                    static const char *nm[] = {"log debug", "log warning", "log critical", "add", "add+free", "remove oldest", "remove newest", "remove stale"};
                    d += std::string(nm[op]) + "; ";
                    cur("%s", d.c_str());
                    switch (op) {
                    case 0: w.log(mtDebug); break;
                    case 1: w.log(mtWarning); break;
                    case 2: w.log(mtCritical); break;
                    case 3: case 4: w.add(op == 4); wf.push_back(op == 4); break;
                    case 5: if (!lv.empty()) w.remove(lv.front()->k - 1, wf[lv.front()->k - 1]); break;
                    case 6: if (!lv.empty()) w.remove(lv.back()->k - 1, wf[lv.back()->k - 1]); break;
                    case 7:
                        for (auto &h : w.hs) if (!h->live) {
                            bool reused = false;            // the allocator may give the same address to a later handler
                            for (auto &o : w.hs) if (o->live && o->h == h->h) reused = true;
                            if (!reused) CHECK(!api->removeLogHandler(h->h, lc), "a stale handle was removed");
                        }
                        break;
                    }
                    step();
                    w.check("after the last operation");
                    for (size_t i = 0; i < w.hs.size(); i++) CHECK(w.hs[i]->freed == (wf[i] && !w.hs[i]->live), "free function of handler %zu ran %d times", i, w.hs[i]->freed);
                    state(w.hash());
                }
                d += "free core";
                cur("%s", d.c_str());
                api->freeCore(lc);
                w.check("freeing the core");
                for (size_t i = 0; i < w.hs.size(); i++) CHECK(w.hs[i]->freed == wf[i], "free function of handler %zu ran %d times in total", i, w.hs[i]->freed);
                exec();
            }
            int p = len - 1;
            while (p >= 0 && ++ix[p] == OPS) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
SEQ_CASE(logLong, "log_buffer_limit", "C12", true, "0..1100 messages logged before the first handler, then a second handler; and again after removing all handlers") {
    size_t limit = 0;
    for (int pass = 0; pass < 2; pass++) for (int n = 0; n <= 1100; n++) {
        if (pass == 0 && n != 1100) continue;            // the limit itself is not documented exactly: measured with the longest history
        if (pass && !item()) continue;
        cur("%d messages before the first handler", n);
        World w;
        w.start();
        for (int round = 0; round < (pass ? 2 : 1); round++) {
            for (int i = 0; i < n; i++) { std::string m = "m" + std::to_string(i); api->logMessage(i % 3 ? mtDebug : mtWarning, m.c_str(), lc); }
            H h{1, false}, h2{2, false};
            h.h = api->addLogHandler(onMsg, nullptr, &h, lc);
            h2.h = api->addLogHandler(onMsg, nullptr, &h2, lc);
            size_t notes = 0, ok = 0;
            bool bad = false;
            for (auto &g : h.got) {
                if (g.second[0] != 'm') { notes++; continue; }
                if (notes || g.second != "m" + std::to_string(ok) || g.first != ((ok % 3) ? mtDebug : mtWarning)) bad = true;
                ok++;
            }
            CHECK(!bad, "stored messages were reordered, changed or duplicated: %s", text(h.got).c_str());
            CHECK(h2.got.empty(), "stored messages delivered twice");
            if (!pass) { limit = ok; CHECK(limit >= 200 && limit < 1000, "%zu messages are kept; documented are a few hundred", limit); }
            else {
                CHECK(ok == std::min<size_t>(n, limit), "%zu of %d messages delivered", ok, n);
                CHECK(notes <= 1 && (notes || (size_t)n <= limit) && (!notes || (size_t)n >= limit), "discard note: %zu", notes);
            }
            CHECK(api->removeLogHandler(h.h, lc) && api->removeLogHandler(h2.h, lc), "removal failed");
            step();
        }
        api->freeCore(lc);
        exec();
        state(n);
    }
}
SEQ_CASE(logNested, "log_from_handler", "C12", true, "1..3 handlers of which every subset logs again from inside, 1..4 messages of each type: every handler gets every message exactly once, outer messages in order") {
    for (int nh = 1; nh <= 3; nh++) for (int mask = 0; mask < (1 << nh); mask++) for (int nm = 1; nm <= 4; nm++) for (int type = mtDebug; type <= mtCritical; type++) {
        if (!item()) continue;
        cur("%d handlers, nested logging by mask %d, %d messages of type %d", nh, mask, nm, type);
        World w;
        w.start();
        std::vector<std::unique_ptr<H>> hs;
        for (int i = 0; i < nh; i++) {
            hs.push_back(std::make_unique<H>());
            hs[i]->k = i; hs[i]->relog = mask >> i & 1;
            hs[i]->h = api->addLogHandler(onMsg, onFree, hs[i].get(), lc);
        }
        for (int i = 0; i < nm; i++) { std::string m = "m" + std::to_string(i); api->logMessage(type, m.c_str(), lc); }
        for (int i = 0; i < nh; i++) {
            int outer = 0, inner = 0;
            for (auto &g : hs[i]->got) {
                if (g.second[0] == 'm') { CHECK(g.second == "m" + std::to_string(outer) && g.first == type, "outer messages out of order: %s", text(hs[i]->got).c_str()); outer++; }
                else { inner++; CHECK(g.first == mtDebug, "type changed"); }
            }
            CHECK(outer == nm && inner == nm * __builtin_popcount(mask), "handler %d received %d and %d messages: %s", i, outer, inner, text(hs[i]->got).c_str());
        }
        api->freeCore(lc);
        for (auto &h : hs) CHECK(h->freed == 1, "free function ran %d times", h->freed);
        exec(); step();
        state(nh * 64 + mask * 8 + nm);
    }
}
