// Public interface of the schedule explorer (see DESIGN.md, "The explorer").
// A scenario is a closed driver: it owns every thread and every source of nondeterminism.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace mc {

enum Flags : uint32_t {
    fSpurious = 1,   // condition variables may wake spuriously (one deviation each)
    fClock = 2,      // steady_clock reads may observe a jump (one deviation each)
    fNoRace = 4,     // disable the happens-before race detector
    fNoPrune = 8,    // disable happens-before state pruning
    fNoLeak = 16,    // skip the end-of-execution leak check
    fNoAtomicPoints = 32, // atomics are not scheduling points
    fDelay = 64,     // delay bounding: also a non-default choice where the running thread blocks costs a deviation
};

struct Scenario {
    const char *name;
    const char *property;   // property ids (comma separated) the scenario speaks for
    void (*setup)();        // runs once in the zygote (single threaded), may be null
    void (*run)();          // one execution, in a forked child, as thread 0
    uint32_t flags;
    int quickBound;
    int thoroughBound;
    int cpus;               // what sched_getaffinity/hardware_concurrency report
    double quickSecs;
    double thoroughSecs;
};

struct Registrar { Registrar(const Scenario &s); };

// ---- used by scenario code, all callable from any controlled thread ----
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// environment nondeterminism: returns 0..n-1, alternative i>0 costs `cost` deviations
unsigned choose(unsigned n, unsigned cost, const char *tag);
void outcome(const std::string &s);     // records an observable outcome of this execution (distinct ones counted)
int tid();                               // id of the controlled thread
void yieldPoint(const char *tag);        // explicit scheduling point
void quiesce();                          // waits until no other thread can run
void advanceClock(int64_t ns);
size_t liveBlocks();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // trace line (replay only)
bool exploring();
// setup only: runs fn in a forked child under the scheduler with the default schedule (reference results; fn
// hands them over in shared memory). returns an empty string or what went wrong
std::string sequential(void (*fn)());
// evaluation counter shared by all executions
void count(int slot, uint64_t n = 1);
// blocks currently allocated but not freed since the execution began, ignoring the library's lazily built statics
void expectNoLeaks(const char *when);
// bracket harness code that must not be a scheduling point / race checked
struct Quiet { Quiet(); ~Quiet(); };
}

#define MC_ASSERT(c, ...) do { if (!(c)) ::mc::violation(__VA_ARGS__); } while (0)
