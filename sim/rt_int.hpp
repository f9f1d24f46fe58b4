// Internal declarations shared by rt.cpp (core), kern.cpp (simulated kernel) and explore.cpp (explorer).
#pragma once
#include "rt.hpp"
#include <cstring>
#include <cstdio>
#include <map>
#include <set>
#include <deque>

namespace sim {

const int MAXF = 24;       // fibers per execution
const size_t STACK = 256 * 1024;

typedef uint32_t u32;
struct VC { u32 c[MAXF]; };

inline u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; x *= 0xC2B2AE3D27D4EB4Full; x ^= x >> 32;
    return x;
}

struct Obj {            // anything operations can depend on
    u64 h = 0;          // hash of the last operation that changed it (with its causal past)
    VC vc;              // released clock
    int storer = 0;     // atomics: slot + 1 of the thread whose plain store came last
    Obj() { memset(&vc, 0, sizeof vc); }
};

struct EhGlobals { void* caught = nullptr; unsigned uncaught = 0; };

struct Fiber {
    int slot = -1;
    void* sp = nullptr;
    char* stack = nullptr;
    const char* name = "";
    std::function<void()>* body = nullptr;    // harness fibers
    void* (*start)(void*) = nullptr; void* arg = nullptr;   // library threads
    bool library = false;
    bool finished = false, detached = false, joined = false, started = false;
    int host = 0;                // depth of harness mode
    u64 th = 0;                  // hash of own history
    u32 children = 0;
    VC vc;
    VC pend = {}, frel = {};     // what an acquire fence would acquire; what the last release fence released
    Obj end;                     // released at exit
    // pending operation
    bool (*pred)(void*) = nullptr; void* predarg = nullptr;
    const char* op = "";
    i64 deadline = -1;
    int err = 0;
    int run_len = 0;
    EhGlobals eh;
};

extern bool g_active;            // inside an execution
extern Fiber* cur;
extern Fiber fibers[MAXF];
extern int nfibers;
extern i64 g_now;
extern Obj g_clock, g_hist;
extern unsigned g_mask;
extern Scenario* g_scn;
extern bool g_trace;
extern bool g_eintr, g_shortio;

void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if (__builtin_expect(g_trace, 0)) tracef(__VA_ARGS__); } while (0)

// blocks the current fiber until pred holds and the scheduler picks it
void op_point_raw(bool (*pred)(void*), void* arg, const char* op, i64 deadline);
template <class P> inline void op_point(P pred, const char* op, i64 deadline = -1) {
    op_point_raw([](void* p) -> bool { return (*(P*)p)(); }, &pred, op, deadline);
}
inline void op_point(const char* op) { op_point_raw(nullptr, nullptr, op, -1); }

// dependency tracking
inline void touch_r(Obj& o) { cur->th = mix(cur->th, o.h); }
inline void touch_w(Obj& o) { cur->th = mix(cur->th, o.h); o.h = cur->th; }
inline void touch_v(u64 v) { cur->th = mix(cur->th, v); }
inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
inline void hb_acquire(Obj& o) { vc_join(cur->vc, o.vc); }
inline void hb_release(Obj& o) { vc_join(o.vc, cur->vc); cur->vc.c[cur->slot]++; }

int env_choice(int n, const int* costs, const char* what);   // n alternatives, records in the schedule
int env_choice1(int n, const char* what);                    // alternatives 1.. cost 1

bool violation(unsigned kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // records; true if counted
void check_range(const void* p, size_t n, bool write, void* pc);   // program access made on behalf of the library

// kernel hooks used by the core
void kern_reset();
i64 kern_next_deadline();          // earliest armed timer, -1 none
u64 kern_advance();                // fire what is due at g_now; returns hash of what fired
void kern_end_checks();
int new_fiber(const char* name, bool library);

// arenas
void* sut_alloc(size_t n, int kind, void* pc, size_t align = 16);
void sut_free(void* p, int kind, void* pc);
void* host_alloc(size_t n);
bool in_sut(const void* p);
bool in_host(const void* p);

struct ExecResult {
    bool pruned = false;
    unsigned vkind = 0;
    std::string vmsg;
    std::vector<std::string> hist;
    std::string outcome;
    u64 endhash = 0;
    size_t steps = 0;
};

void rt_init();
struct ChoiceRec { uint8_t n, chosen; uint8_t costs[MAXF + 2]; uint8_t used_before; };
extern std::vector<ChoiceRec>* g_choices;
extern std::vector<uint8_t>* g_prefix;
extern int g_used, g_bound;
extern size_t g_steps;
extern u64 g_transitions;
extern bool (*g_visit)(u64 key, int used);
extern std::set<u32>* racy_pcs;
extern std::vector<u32>* new_racy;
void run_execution(ExecResult& r);

}
