// Exhaustive enumeration of inputs / operation sequences on the real classes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;

struct Space {
    std::string name, props, what;                 // what: one line of documentation for the evidence
    std::function<u64(bool)> size;                 // number of cases in the quick / thorough tier
    std::function<void(u64)> run;                  // one case; must release everything it allocates
    std::function<void(bool)> prepare;             // builds tables before the first case (may be empty)
    std::function<std::string(u64)> describe;      // human readable case (may be empty)
    bool leak = true;
};
Space& add_space(const std::string& name, const std::string& props, const std::string& what);

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (__builtin_expect(!(c), 0)) fail(__VA_ARGS__); } while (0)
void mem_reset();            // start of a measured section
u64 mem_cumulative();        // bytes requested since
void count_trans(u64 n = 1); // transitions: operations applied to the real objects
void count_state(const void* p, size_t n);   // a state of the reference model was reached (distinct ones are counted, hashed)
inline void count_state(const std::string& s) { count_state(s.data(), s.size()); }
void count_trace(u64 n = 1); // complete traces compared with the reference

// mixed radix decoding of an index
struct Digits {
    u64 v; explicit Digits(u64 x) : v(x) {}
    u64 take(u64 n) { u64 r = v % n; v /= n; return r; }
};
inline u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
// sequences of length 0..d over k symbols: number, and decoding
inline u64 seq_count(u64 k, int d) { u64 s = 0; for (int i = 0; i <= d; i++) s += ipow(k, i); return s; }
inline std::vector<int> seq_at(u64 k, u64 idx) {
    int len = 0; u64 c = 1;
    while (idx >= c) { idx -= c; c *= k; len++; }
    std::vector<int> r(len);
    for (int i = 0; i < len; i++) { r[i] = idx % k; idx /= k; }
    return r;
}
