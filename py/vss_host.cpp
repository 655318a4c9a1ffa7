// runs sequences of VSScript API calls: one line of calls in, one line with their results out
#define VSSCRIPT_USE_LATEST_API
#include "VSScript4.h"
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
static const VSSCRIPTAPI *S;
static const VSAPI *A;
static std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}
static std::string hex(const char *p, size_t n) {
    std::string r = "\"";
    char b[3];
    for (size_t i = 0; i < n; i++) {
        snprintf(b, 3, "%02x", (unsigned char)p[i]);
        r += b;
    }
    return r + "\"";
}
static std::string hex(const char *p) { return p ? hex(p, strlen(p)) : "null"; }
struct Handle {
    VSScript *s = nullptr;
    std::vector<VSNode *> held;
    VSCore *core = nullptr; // the one it was given
};
static Handle H[3];
static int coresFreed, messages;
static void VS_CC onLog(int type, const char *, void *) { messages += type >= mtWarning; }
static void VS_CC onLogFree(void *) { coresFreed++; }
static std::string node(VSNode *n, int frame) {
    if (!n)
        return "null";
    std::string r;
    if (A->getNodeType(n) == mtVideo) {
        const VSVideoInfo *vi = A->getVideoInfo(n);
        r = "[" + std::to_string(vi->numFrames) + "," + std::to_string(vi->width) + "," + std::to_string(vi->height);
    } else {
        r = "[" + std::to_string(A->getAudioInfo(n)->numSamples) + ",0,0";
    }
    if (frame >= 0) {
        char err[400] = "";
        const VSFrame *f = A->getFrame(frame, n, err, sizeof err);
        r += "," + (f ? std::to_string(A->getReadPtr(f, 0)[0]) : hex(err));
        A->freeFrame(f);
    }
    return r + "]";
}
static std::string var(VSMap *m) {
    std::string r = "[";
    for (int k = 0; k < A->mapNumKeys(m); k++) {
        const char *key = A->mapGetKey(m, k);
        int t = A->mapGetType(m, key), n = A->mapNumElements(m, key);
        r += (k ? "," : "") + ("[" + hex(key)) + "," + std::to_string(t);
        for (int i = 0; i < n; i++) {
            r += ",";
            if (t == ptInt)
                r += std::to_string(A->mapGetInt(m, key, i, nullptr));
            else if (t == ptFloat)
                r += std::to_string(A->mapGetFloat(m, key, i, nullptr));
            else if (t == ptData)
                r += hex(A->mapGetData(m, key, i, nullptr), A->mapGetDataSize(m, key, i, nullptr));
            else if (t == ptVideoNode || t == ptAudioNode) {
                VSNode *n = A->mapGetNode(m, key, i, nullptr);
                r += node(n, -1);
                A->freeNode(n);
            } else
                r += "\"?\"";
        }
        r += "]";
    }
    return r + "]";
}
static void release(Handle &h) {
    for (VSNode *n : h.held)
        A->freeNode(n);
    h.held.clear();
}
static std::string run(const std::vector<std::string> &t) {
    char c = t[0][0];
    Handle &h = H[t.size() > 1 ? atoi(t[1].c_str()) : 0];
    switch (c) {
    case 'c':
        h.core = nullptr;
        if (t[2] == "own") {
            h.core = A->createCore(ccfDisableAutoLoading);
            A->addLogHandler(onLog, onLogFree, nullptr, h.core);
        }
        h.s = S->createScript(h.core);
        return h.s ? "1" : "0";
    case 'b': return std::to_string(S->evaluateBuffer(h.s, unhex(t[2]).c_str(), t[3] == "-" ? nullptr : unhex(t[3]).c_str()));
    case 'f': return std::to_string(S->evaluateFile(h.s, unhex(t[2]).c_str()));
    case 'e': return hex(S->getError(h.s));
    case 'x': return std::to_string(S->getExitCode(h.s));
    case 'g': {
        VSMap *m = A->createMap();
        int rc = S->getVariable(h.s, unhex(t[2]).c_str(), m);
        std::string r = "[" + std::to_string(!!rc) + "," + var(m) + "]";
        A->freeMap(m);
        return r;
    }
    case 's': {
        VSMap *m = A->createMap();
        for (size_t i = 2; i + 2 < t.size(); i += 3) {
            std::string k = unhex(t[i]), v = t[i + 2];
            if (t[i + 1] == "i")
                A->mapSetInt(m, k.c_str(), atoll(v.c_str()), maAppend);
            else if (t[i + 1] == "d")
                A->mapSetData(m, k.c_str(), unhex(v).data(), unhex(v).size(), dtUtf8, maAppend);
            else if (t[i + 1] == "n") {
                VSNode *n = S->getOutputNode(h.s, atoi(v.c_str()));
                if (n)
                    A->mapConsumeNode(m, k.c_str(), n, maAppend);
            } else
                A->mapSetFloat(m, k.c_str(), atof(v.c_str()), maAppend);
        }
        int rc = S->setVariables(h.s, m);
        A->freeMap(m);
        return std::to_string(!!rc);
    }
    case 'o': {
        int i = atoi(t[2].c_str());
        VSNode *n = S->getOutputNode(h.s, i), *a = S->getOutputAlphaNode(h.s, i);
        std::string r = "[" + node(n, 0) + "," + node(a, 0) + "," + std::to_string(S->getAltOutputMode(h.s, i)) + "]";
        A->freeNode(n);
        A->freeNode(a);
        return r;
    }
    case 'a': {
        int size = atoi(t[2].c_str());
        std::vector<int> d(size + 2, -777);
        int n = S->getAvailableOutputNodes(h.s, size, size ? d.data() : nullptr);
        std::string r = "[" + std::to_string(n);
        for (int v : d)
            r += "," + std::to_string(v);
        return r + "]";
    }
    case 'h': {
        VSNode *n = S->getOutputNode(h.s, atoi(t[2].c_str()));
        if (n)
            h.held.push_back(n);
        return n ? "1" : "0";
    }
    case 'q': {
        std::string r = "[";
        for (VSNode *n : h.held)
            r += (r.size() > 1 ? "," : "") + node(n, 0);
        return r + "]";
    }
    case 'w': S->evalSetWorkingDir(h.s, atoi(t[2].c_str())); return "0";
    case 'p': {
        char b[4096];
        return hex(getcwd(b, sizeof b));
    }
    case 'k': {
        VSCore *c = S->getCore(h.s);
        return std::string("[") + (c ? "1" : "0") + "," + (h.core ? c == h.core ? "1" : "0" : "2") + "," + (c && c == S->getCore(h.s) ? "1" : "0") + "]";
    }
    case 'F': {
        release(h);
        int before = coresFreed;
        S->freeScript(h.s);
        h.s = nullptr;
        return "[" + std::to_string(h.core ? coresFreed - before : 1) + "," + std::to_string(messages) + "]";
    }
    case 'N': S->freeScript(nullptr); return S->getError(nullptr) && S->getExitCode(nullptr) == 0 ? "1" : "0";
    }
    return "\"?\"";
}
int main(int, char **argv) {
    void *l = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!l) {
        fprintf(stderr, "%s\n", dlerror());
        return 3;
    }
    auto get = (const VSSCRIPTAPI *(*)(int))dlsym(l, "getVSScriptAPI");
    auto last = (const char *(*)())dlsym(l, "getVSScriptAPILastError");
    S = get(VS_MAKE_VERSION(4, 2));
    if (!S) {
        fprintf(stderr, "%s\n", last ? last() : "no VSScript");
        return 3;
    }
    A = S->getVSAPI(VAPOURSYNTH_API_VERSION);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string op, out = "[", mode;
        is >> mode;
        messages = 0;
        while (is >> op) {
            std::vector<std::string> t(1);
            for (char c : op)
                if (c == ':')
                    t.emplace_back();
                else
                    t.back() += c;
            std::string r;
            if (mode == "threads") {
                std::thread th([&] { r = run(t); });
                th.join();
            } else {
                r = run(t);
            }
            out += (out.size() > 1 ? "," : "") + r;
        }
        for (Handle &h : H)
            if (h.s) {
                release(h);
                S->freeScript(h.s);
                h.s = nullptr;
            }
        printf("%s]\n", out.c_str());
        fflush(stdout);
    }
    _exit(0);
}
