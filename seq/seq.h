// Bounded-exhaustive enumeration on the real code: every case enumerates its whole space, sharded over processes.
#pragma once
#include <cstdint>
#include <string>
#include <functional>
#include <vector>

namespace seq {
struct Case {
    const char *name;
    const char *property;      // comma separated ids
    void (*run)();
    bool shard;                // item() distributes items over all shards; otherwise a single process runs everything
    const char *bounds;        // what is enumerated (evidence text)
};
struct Registrar { Registrar(const Case &c); };

extern bool thorough;
// next item of the enumeration: true if this shard has to process it
bool item();
// describes what is being executed, shown when it fails or crashes
void cur(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// reports a failure unless it is a recorded finding, in which case the item is skipped (returns)
void failOrKnown(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void exec(uint64_t n = 1);      // executions of the implementation (one input or one operation sequence)
void step(uint64_t n = 1);      // compared steps (operations, samples, frames)
void state(uint64_t h);         // a distinct configuration of the reference model or distinct input shape
void sample(const std::string &s);
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }
}
#define CHECK(c, ...) do { if (__builtin_expect(!(c), 0)) ::seq::fail(__VA_ARGS__); } while (0)
#define SEQ_CASE(fn, name, props, shard, bounds) static void fn(); static ::seq::Registrar fn##_reg({name, props, fn, shard, bounds}); static void fn()
