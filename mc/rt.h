// Internal: shared between the runtime (child side) and the explorer (parent side).
#pragma once
#include "mc.h"
#include <atomic>
#include <vector>

namespace mc {

constexpr unsigned MAXDEV = 62;
constexpr unsigned MAXPTS = 60000;
constexpr unsigned MAXALT = 12;

struct Item {
    uint64_t check;      // hash of the choice structure up to and including the last deviation
    uint32_t lastIdx;    // index of the last deviation, ~0u for none
    uint16_t ndev;
    uint16_t cost;
    uint32_t dev[MAXDEV]; // idx<<8 | alt
};

struct Pt {
    uint64_t check;      // structure hash up to and including this point
    uint8_t nalts;
    uint8_t cost[MAXALT];
    uint16_t costBefore;
};

enum Status : int { stNone = 0, stOk = 1, stPruned = 2, stViolation = 3, stDiverged = 4, stTruncated = 5 };

struct Result {
    volatile int status;
    uint32_t npts;
    uint64_t steps;
    uint64_t switches;
    uint64_t outcomeHash;
    uint32_t maxThreads;
    char msg[4096];
    char outcomeStr[512];
    Pt pts[MAXPTS];
};

struct Shared {
    std::atomic<uint64_t> visitedCount, transitions, executions, pruned, completed, diverged, truncated, timeouts, switches, maxPts, maxThreads;
    std::atomic<uint64_t> counters[32];
    std::atomic<uint32_t> newPCs;
    std::atomic<uint64_t> lock;
    std::atomic<uint32_t> busy, stop;
    std::atomic<uint64_t> queued[16];
    std::atomic<uint32_t> capHit;
    static constexpr size_t PCTAB = 1 << 14;
    std::atomic<uint64_t> pcs[PCTAB];       // frozen at round start: low bit usage see rt.cpp
    std::atomic<uint64_t> pcsNext[PCTAB];
    static constexpr size_t OUTTAB = 1 << 14;
    std::atomic<uint64_t> outHash[OUTTAB];
    std::atomic<uint32_t> outCount[OUTTAB];
    std::atomic<uint32_t> outcomes;
    char outSample[8][512];
    size_t visitedMask;
};

extern Shared *g_sh;
extern std::atomic<uint64_t> *g_visited; // key (upper 58 bits) | cost (6 bits)
extern Result *g_res;
extern const Scenario *g_scn;
extern bool g_traceOn;
extern int g_horizonMul;
extern bool g_noPrune;

void rtInit();                       // once, in the parent
void runChild(const Item &it);       // in the child; never returns
std::vector<Scenario> &scenarios();
}
