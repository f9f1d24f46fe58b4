#include "rt_int.hpp"
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <new>
#include <exception>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <pthread.h>
#include <link.h>

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
}

namespace sim {

u64 g_exec_no = 0;
bool g_active = false;
Fiber* cur = nullptr;
Fiber fibers[MAXF];
int nfibers = 0;
i64 g_now = 0;
Obj g_clock, g_hist;
unsigned g_mask = K_DEFAULT;
Scenario* g_scn = nullptr;
bool g_trace = false, g_eintr = false, g_shortio = false;

static char* stacks[MAXF];
static char* const STK = (char*)0x300000000000ull; static const size_t STK_ONE = STACK + 4096, STK_SZ = MAXF * STK_ONE;
static void* main_sp;
static ExecResult* g_res;
static std::vector<std::string>* g_history;   // lives in the host arena

// ------------------------------------------------------------------------------------------ arenas
static char* const SUT = (char*)0x100000000000ull; static const size_t SUT_SZ = 64u << 20;
static char* const HST = (char*)0x200000000000ull; static const size_t HST_SZ = 256u << 20;
static size_t sut_top, hst_top;
static uint8_t* sh;                 // per byte: 0 never allocated / red zone, 1 live, 2 freed
struct Cell { u32 w, wpc, r0, r0pc, r1, r1pc; };
static Cell* cells;
struct Block { u32 off, size; u32 pc; uint8_t kind; bool freed; };
struct Blocks { Block* p; u32 n; u32 size() const { return n; } void clear() { n = 0; } Block& operator[](u32 i) { return p[i]; } Block* begin() { return p; } Block* end() { return p + n; } };
static Blocks blocks_; static Blocks* const blocks = &blocks_;
const u32 MAXBLK = 1 << 20;
static u32* blk_of;                 // per 16 bytes: block index + 1
static u32 live_blocks; static u64 live_bytes;

bool in_sut(const void* p) { return (size_t)((char*)p - SUT) < SUT_SZ; }
static bool in_stk(const void* p) { return (size_t)((char*)p - STK) < STK_SZ; }
// static data of the library (sections renamed by the build)
extern "C" char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
extern "C" char __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
static char *st_lo, *st_hi;         // covers both
static bool in_stat(const void* p) { return (char*)p >= st_lo && (char*)p < st_hi; }
// accesses to these are monitored
static inline bool monitored(const void* p) { return in_sut(p) || in_stk(p) || in_stat(p); }
bool in_host(const void* p) { return (size_t)((char*)p - HST) < HST_SZ; }

// cells of stacks and static data start every execution clean; that is done piecemeal, on first use
struct CellMap {
    Cell* c; u32* gen; char* base; size_t n;
    void init(char* b, size_t sz);
    Cell* at(const void* p, size_t k);
};
static CellMap stk_cells, stat_cells;
static void* mapit(void* at, size_t n) {
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != at)) { perror("mmap"); _exit(2); }
    return p;
}
void CellMap::init(char* b, size_t sz) {
    base = b; n = sz; if (!sz) return;
    c = (Cell*)mapit(nullptr, (sz + 128) * sizeof(Cell)); gen = (u32*)mapit(nullptr, (sz / 64 + 2) * sizeof(u32));
}
Cell* CellMap::at(const void* p, size_t k) {
    size_t o = (char*)p - base;
    for (size_t g = o / 64; g <= (o + k - 1) / 64; g++) if (gen[g] != (u32)g_exec_no) { gen[g] = (u32)g_exec_no; __real_memset(c + g * 64, 0, 64 * sizeof(Cell)); }
    return c + o;
}
static void arenas_init() {
    mapit(SUT, SUT_SZ); mapit(HST, HST_SZ); mapit(STK, STK_SZ);
    stk_cells.init(STK, STK_SZ);
    if (__start_sutdata != __stop_sutdata) { st_lo = __start_sutdata; st_hi = __stop_sutdata; }
    if (__start_sutbss != __stop_sutbss) {
        if (!st_lo || __start_sutbss < st_lo) st_lo = __start_sutbss;
        if (__stop_sutbss > st_hi) st_hi = __stop_sutbss;
    }
    if (st_hi - st_lo > (16 << 20)) { fprintf(stderr, "static data of the library is too far apart\n"); _exit(2); }
    stat_cells.init(st_lo, st_hi - st_lo);
    sh = (uint8_t*)mapit(nullptr, SUT_SZ);
    cells = (Cell*)mapit(nullptr, SUT_SZ * sizeof(Cell));
    blk_of = (u32*)mapit(nullptr, SUT_SZ / 16 * sizeof(u32));
    blocks->p = (Block*)mapit(nullptr, MAXBLK * sizeof(Block));
    for (int i = 0; i < MAXF; i++) {
        char* s = STK + i * STK_ONE;
        mprotect(s, 4096, PROT_NONE);
        stacks[i] = s + 4096;
    }
}
static void arenas_reset() {
    if (sut_top) { __real_memset(sh, 0, sut_top + 64); __real_memset(blk_of, 0, (sut_top / 16 + 8) * sizeof(u32)); }
    if (sut_top > (8u << 20)) { madvise(SUT, SUT_SZ, MADV_DONTNEED); madvise(cells, SUT_SZ * sizeof(Cell), MADV_DONTNEED); }
    sut_top = 0; hst_top = 0; blocks->clear(); live_blocks = 0; live_bytes = 0;
}
void* host_alloc(size_t n) {
    size_t o = (hst_top + 15) & ~(size_t)15;
    if (o + n > HST_SZ) { fprintf(stderr, "host arena exhausted\n"); _exit(2); }
    hst_top = o + n;
    return HST + o;
}
void* sut_alloc(size_t n, int kind, void* pc, size_t align) {
    if (align < 16) align = 16;
    size_t o = (sut_top + 16 + align - 1) & ~(align - 1);
    if (n > SUT_SZ || o + n + 64 > SUT_SZ) return nullptr;
    sut_top = o + n;
    __real_memset(sh + o, 1, n);
    __real_memset(SUT + o, 0xCD, n);
    u32 ep = ((u32)cur->slot << 26) | cur->vc.c[cur->slot];
    for (size_t i = 0; i < n; i++) cells[o + i] = Cell{ep, (u32)(u64)pc, 0, 0, 0, 0};
    if (blocks->n >= MAXBLK) return nullptr;
    blocks->p[blocks->n++] = (Block{(u32)o, (u32)n, (u32)(u64)pc, (uint8_t)kind, false});
    blk_of[o / 16] = blocks->size();
    live_blocks++; live_bytes += n;
    return SUT + o;
}
static const char* kname(int k) { return k == 0 ? "malloc" : k == 1 ? "new" : "new[]"; }
static bool ordered(u32 ep) { return (ep & 0x3ffffff) <= cur->vc.c[ep >> 26]; }
static void race(u32 opc, void* pc, const void* p, const char* what);
void sut_free(void* p, int kind, void* pc) {
    size_t o = (char*)p - SUT;
    if (o % 16 || !blk_of[o / 16]) { violation(K_MEM, "release of an address that is not a heap block (pc %p)", pc); return; }
    Block& b = (*blocks)[blk_of[o / 16] - 1];
    if (b.freed) { violation(K_MEM, "heap block of %u bytes released twice (pc %p)", b.size, pc); return; }
    if (b.kind != kind) { violation(K_MEM, "heap block from %s released as %s (pc %p)", kname(b.kind), kname(kind), pc); }
    // releasing is a write to the whole block
    if (!cur->host) for (size_t i = 0; i < b.size; i++) {
        Cell& c = cells[o + i];
        if (!ordered(c.w)) race(c.wpc, pc, p, "release vs write");
        else if (!ordered(c.r0)) race(c.r0pc, pc, p, "release vs read");
        else if (!ordered(c.r1)) race(c.r1pc, pc, p, "release vs read");
        else continue;
        break;
    }
    b.freed = true;
    __real_memset(sh + o, 2, b.size);
    __real_memset(SUT + o, 0xDD, b.size);
    live_blocks--; live_bytes -= b.size;
}
u64 arena_live_bytes() { return live_bytes; }

// ------------------------------------------------------------------------------------------ race monitor
std::set<u32>* racy_pcs;            // accesses that are scheduling points because they raced before
std::vector<u32>* new_racy;
static std::map<u64, Obj>* racy_objs;  // host arena
static void race(u32 opc, void* pc, const void* p, const char* what) {
    if (g_mask & K_RACE) {
        violation(K_RACE, "data race (%s) between code at %#x and %p", what, opc, pc);
        return;
    }
    u32 a = opc, b = (u32)(u64)pc;
    bool act = g_active; g_active = false;
    if (!racy_pcs->count(a)) new_racy->push_back(a);
    if (!racy_pcs->count(b)) new_racy->push_back(b);
    g_active = act;
}
static void cell_access(Cell* cs, const void* p, size_t n, bool write, void* pc);
static bool stack_gone(const void* p, size_t n, bool write, void* pc, void* frame) {
    size_t so = (char*)p - STK;
    Fiber& f = fibers[so / STK_ONE];
    int own = (int)(so / STK_ONE) == cur->slot;
    const char* w = write ? "write to" : "read from";
    if (so / STK_ONE != (so + n - 1) / STK_ONE || (int)(so / STK_ONE) >= nfibers || so % STK_ONE < 4096) { violation(K_MEM, "%s memory outside of any stack frame (%zu bytes, pc %p)", w, n, pc); return true; }
    if (own ? (char*)p < (char*)frame : f.finished || (char*)p < (char*)f.sp) {
        violation(K_MEM, "%s a stack frame %s (%zu bytes, pc %p)", w, own ? "that has been left" : f.finished ? "of a finished thread" : "another thread has left", n, pc);
        return true;
    }
    return false;
}
static void access(const void* p, size_t n, bool write, void* pc) {
    size_t o = (char*)p - SUT;
    if (o >= SUT_SZ) {
        if (in_stk(p)) {
            if (stack_gone(p, n, write, pc, __builtin_frame_address(0))) return;
        } else if (!in_stat(p) || (char*)p + n > st_hi) return;
    }
    if (!racy_pcs->empty() && racy_pcs->count((u32)(u64)pc)) {
        op_point(write ? "racy write" : "racy read");
        cur->host++;
        Obj& ob = (*racy_objs)[(u64)p & ~7ull];
        if (write) touch_w(ob); else touch_r(ob);
        cur->host--;
    }
    if (o >= SUT_SZ) { cell_access((in_stk(p) ? stk_cells : stat_cells).at(p, n), p, n, write, pc); return; }
    for (size_t i = 0; i < n; i++) {
        uint8_t s = sh[o + i];
        if (__builtin_expect(s != 1, 0)) {
            violation(K_MEM, "%s %s heap memory (%zu bytes at offset %zu of the access, pc %p)", write ? "write to" : "read from",
                      s == 2 ? "released" : "unallocated", n, i, pc);
            return;
        }
    }
    cell_access(cells + o, p, n, write, pc);
}
static void cell_access(Cell* cs, const void* p, size_t n, bool write, void* pc) {
    u32 ep = ((u32)cur->slot << 26) | cur->vc.c[cur->slot];
    for (size_t i = 0; i < n; i++) {
        Cell& c = cs[i];
        if (c.w != ep) {
            if (!ordered(c.w)) { race(c.wpc, pc, p, write ? "write/write" : "write/read"); }
            if (write) {
                if (!ordered(c.r0)) race(c.r0pc, pc, p, "read/write");
                else if (!ordered(c.r1)) race(c.r1pc, pc, p, "read/write");
            }
        }
        if (write) { c.w = ep; c.wpc = (u32)(u64)pc; c.r0 = c.r1 = 0; }
        else if (c.r0 != ep) {
            if ((c.r0 >> 26) == (u32)cur->slot || ordered(c.r0)) { c.r0 = ep; c.r0pc = (u32)(u64)pc; }
            else { c.r1 = ep; c.r1pc = (u32)(u64)pc; }
        }
    }
}
void check_range(const void* p, size_t n, bool write, void* pc) {
    if (n && monitored(p)) { int h = cur->host; cur->host = 0; access(p, n, write, pc); cur->host = h; }
}
void track_write(void* p, size_t n) { if (in_sut(p)) access(p, n, true, __builtin_return_address(0)); }
void track_read(const void* p, size_t n) { if (in_sut(p)) access(p, n, false, __builtin_return_address(0)); }

// ------------------------------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
    .cfi_startproc
    .cfi_undefined rip
    callq sim_fiber_main
    ud2
    .cfi_endproc
.size sim_entry,.-sim_entry
)");
extern "C" void sim_entry();

[[noreturn]] static void to_main() {
    g_active = false;
    *(EhGlobals*)abi::__cxa_get_globals() = EhGlobals();
    void* dummy;
    sim_switch(&dummy, main_sp);
    __builtin_unreachable();
}
void abort_execution() { to_main(); __builtin_unreachable(); }

static void pick_and_go();
struct AtExit { void (*fn)(void*); void* obj; int slot; AtExit* next; };
static AtExit* at_thread_exit;      // newest first

extern "C" void sim_fiber_main() {
    Fiber* f = cur;
    vc_join(f->vc, f->vc);
    if (f->body) { (*f->body)(); }
    else f->start(f->arg);
    f = cur;
    for (AtExit** e = &at_thread_exit; *e;) {
        AtExit* x = *e;
        if (x->slot != f->slot) { e = &x->next; continue; }
        *e = x->next;
        x->fn(x->obj);
        e = &at_thread_exit;
    }
    f->host++;
    TR("exits");
    touch_w(f->end); hb_release(f->end);
    f->finished = true;
    f->host--;
    pick_and_go();
    __builtin_unreachable();
}

static char* tls_p; static size_t tls_n; static char *tls_copy[MAXF], *tls_init;
int new_fiber(const char* name, bool library) {
    int s = nfibers; u32 clock = 0;
    if (s < MAXF) nfibers++;
    else {      // the place of a thread that has been joined, if its end happened before this
        for (s = 1; s < MAXF; s++) if (&fibers[s] != cur && fibers[s].finished && fibers[s].joined && fibers[s].library && cur->vc.c[s] >= fibers[s].end.vc.c[s]) break;
        if (s == MAXF) { violation(library ? K_THREAD : K_HARNESS, "too many threads in one execution"); abort_execution(); }
        clock = fibers[s].vc.c[s];
        if (tls_n) __real_memcpy(tls_copy[s], tls_init, tls_n);
    }
    Fiber& f = fibers[s];
    f = Fiber();
    f.slot = s; f.name = name; f.library = library; f.stack = stacks[s];
    __real_memset(f.stack + STACK - 12288, 0xCD, 12288);
    void** sp = (void**)(f.stack + STACK);
    *--sp = nullptr;
    *--sp = nullptr;                // return address of sim_entry: none
    *--sp = (void*)sim_entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f.sp = sp;
    memset(&f.vc, 0, sizeof f.vc);
    if (cur && s) {
        f.vc = cur->vc; cur->vc.c[cur->slot]++;
        f.th = mix(cur->th, 0x1000 + ++cur->children);
    } else f.th = 1;
    f.vc.c[s] = clock + 1;
    f.op = "start";
    return s;
}

// ------------------------------------------------------------------------------------------ choices and schedules
std::vector<ChoiceRec>* g_choices;
std::vector<uint8_t>* g_prefix;
int g_used, g_bound;
size_t g_steps;
u64 g_transitions;
bool (*g_visit)(u64 key, int used) = nullptr;   // true if already covered

static bool fiber_enabled(Fiber& f) { return !f.finished && (!f.pred || f.pred(f.predarg)); }

static int record_choice(int n, const int* costs, const char* what) {
    size_t i = g_choices->size();
    int c = 0;
    if (i < g_prefix->size()) {
        c = (*g_prefix)[i];
        if (c >= n) { violation(K_HARNESS, "divergence while replaying at choice %zu (%s): %d of %d", i, what, c, n); to_main(); }
    }
    ChoiceRec r; r.n = n; r.chosen = c; r.used_before = g_used;
    for (int k = 0; k < n; k++) r.costs[k] = costs ? costs[k] : 0;
    g_used += r.costs[c];
    // host allocations: choices live outside the arenas
    bool a = g_active; g_active = false;
    g_choices->push_back(r);
    g_active = a;
    return c;
}
int env_choice(int n, const int* costs, const char* what) {
    if (n <= 1) return 0;
    int c = record_choice(n, costs, what);
    touch_v(0xC000 + c);
    if (c) TR("choice %s = %d/%d", what, c, n);
    return c;
}
int env_choice1(int n, const char* what) {
    int costs[MAXF + 2]; for (int i = 0; i < n; i++) costs[i] = i ? 1 : 0;
    return env_choice(n, costs, what);
}
int choose(int n, const char* what, int cost) {
    Host h;
    int total = 0, radix = 20;      // large alternatives are split in digits
    if (n <= radix) {
        int costs[32]; for (int i = 0; i < n; i++) costs[i] = i ? cost : 0;
        total = env_choice(n, costs, what);
    } else {
        int hi = (n + radix - 1) / radix;
        int a = choose(hi, what, cost);
        int left = n - a * radix; if (left > radix) left = radix;
        int costs[32]; for (int i = 0; i < left; i++) costs[i] = i && !a ? cost : 0;
        int b = env_choice(left, costs, what);
        total = a * radix + b;
    }
    TR("%s := %d", what, total);
    return total;
}

static i64 next_deadline() {
    i64 d = kern_next_deadline();
    for (int i = 0; i < nfibers; i++) {
        Fiber& f = fibers[i];
        if (!f.finished && f.deadline > g_now && (d < 0 || f.deadline < d)) d = f.deadline;
    }
    return d;
}
static void do_tick(i64 d) {
    g_now = d;
    u64 h = mix(g_clock.h, (u64)d);
    for (int i = 0; i < nfibers; i++) if (!fibers[i].finished && fibers[i].deadline == d) h += mix(fibers[i].th, 7);
    g_clock.h = h;
    g_clock.h = mix(h, kern_advance());
    TR("== time advances to %.3f s", g_now / 1e9);
    if (g_now > (i64)(g_scn->horizon_s * 1e9)) {
        if (violation(K_HANG, "still not finished after %.0f s of virtual time; main thread is in '%s'", g_now / 1e9, fibers[0].op)) {}
        to_main();
    }
}
static u64 state_key() {
    u64 k = mix(g_clock.h, 3);
    for (int i = 0; i < nfibers; i++) k += mix(fibers[i].th, fibers[i].finished ? 11 : 12);
    return k;
}
static std::string who_waits() {
    std::string s;
    for (int i = 0; i < nfibers; i++) if (!fibers[i].finished) { s += s.empty() ? "" : ", "; s += fibers[i].name; s += " in "; s += fibers[i].op; }
    return s;
}

// chooses the next fiber; called on the stack of the fiber giving up control (cur)
static Fiber* pick() {
    for (;;) {
        if (++g_steps > (size_t)g_scn->max_steps) {
            violation(K_LIVELOCK, "no end after %d scheduling steps (%s)", g_scn->max_steps, who_waits().c_str());
            to_main();
        }
        Fiber* opt[MAXF + 1]; int n = 0;
        bool cur_en = fiber_enabled(*cur);
        bool yield = false;
        if (cur_en) { opt[n++] = cur; }
        for (int i = 0; i < nfibers; i++) if (&fibers[i] != cur && fiber_enabled(fibers[i])) opt[n++] = &fibers[i];
        if (cur_en && n > 1 && ++cur->run_len > 400) {      // a spinning thread does not starve the others
            yield = true; cur->run_len = 0;
            for (int i = 0; i + 1 < n; i++) opt[i] = opt[i + 1];
            opt[n - 1] = cur;
        }
        bool main_done = fibers[0].finished;
        i64 d = main_done ? -1 : next_deadline();
        if (!n) {
            if (d >= 0) { do_tick(d); continue; }
            return nullptr;
        }
        bool tick = g_scn->early_tick && d >= 0;
        int total = n + (tick ? 1 : 0);
        if (total == 1) return opt[0];
        int costs[MAXF + 2];
        for (int i = 0; i < n; i++) costs[i] = ((g_scn->delay || (cur_en && !yield)) && i) ? 1 : 0;
        if (tick) costs[n] = 1;
        if (g_choices->size() >= g_prefix->size() && g_visit) {
            u64 key = mix(state_key(), (cur_en ? 100 + cur->slot : 99) + (yield ? 1000 : 0));
            bool a = g_active; g_active = false;
            bool seen = g_visit(key, g_used);
            g_active = a;
            if (seen) { g_res->pruned = true; to_main(); }
        }
        int c = record_choice(total, costs, "schedule");
        g_transitions++;
        if (c == n) { do_tick(d); continue; }
        return opt[c];
    }
}
// what static variables of the library keep until the process ends is not a leak
static void scan_for_blocks(const char* p, size_t n) {
    for (const char* q = (char*)(((u64)p + 7) & ~7ull); q + 8 <= p + n; q += 8) {
        char* v = *(char**)q;
        if (!in_sut(v)) continue;
        for (size_t k = 0; k < 64 && (size_t)(v - SUT) / 16 >= k; k++) {       // (blocks are found by pointers into their first KB)
            u32 b = blk_of[(v - SUT) / 16 - k];
            if (!b) continue;
            Block& x = (*blocks)[b - 1];
            if (!x.freed && (size_t)(v - SUT) < (size_t)x.off + x.size + 1) {
                x.freed = true; live_blocks--; live_bytes -= x.size;
                scan_for_blocks(SUT + x.off, x.size);
            }
            break;
        }
    }
}
static void forget_static_blocks() {
    if (__start_sutdata) scan_for_blocks(__start_sutdata, __stop_sutdata - __start_sutdata);
    if (__start_sutbss) scan_for_blocks(__start_sutbss, __stop_sutbss - __start_sutbss);
}
static void end_of_execution() {
    // nobody can run
    Fiber& m = fibers[0];
    if (!m.finished) {
        violation(K_DEADLOCK, "deadlock: %s", who_waits().c_str());
    } else {
        for (int i = 1; i < nfibers; i++) if (!fibers[i].finished) {
            violation(K_THREAD, "thread left behind after everything was destroyed: %s", who_waits().c_str());
            break;
        }
        cur = &m; m.host = 1;
        kern_end_checks();
        if (live_blocks && st_lo) forget_static_blocks();
        if (live_blocks) {
            std::string s;
            int k = 0;
            for (auto& b : *blocks) if (!b.freed && k++ < 4) { char t[64]; snprintf(t, sizeof t, " %u bytes from %#x", b.size, b.pc); s += t; }
            violation(K_LEAK, "%u heap blocks (%llu bytes) never released:%s", live_blocks, (unsigned long long)live_bytes, s.c_str());
        }
    }
    to_main();
}
// thread-local variables belong to the fiber
static void tls_find() {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        if (i->dlpi_name && *i->dlpi_name) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_p = (char*)i->dlpi_tls_data; tls_n = tls_p ? i->dlpi_phdr[k].p_memsz : 0; }
        return 1;
    }, nullptr);
    if (!tls_n) return;
    tls_init = (char*)__real_malloc(tls_n); __real_memcpy(tls_init, tls_p, tls_n);
    for (auto& c : tls_copy) c = (char*)__real_malloc(tls_n);
}
static void pick_and_go() {
    Fiber* from = cur;
    from->host++;
    Fiber* f = pick();
    from->host--;
    if (!f) end_of_execution();
    if (f == from) return;
    from->err = errno;
    f->run_len = 0;
    EhGlobals* eh = (EhGlobals*)abi::__cxa_get_globals();
    from->eh = *eh;
    if (tls_n) { __real_memcpy(tls_copy[from->slot], tls_p, tls_n); __real_memcpy(tls_p, tls_copy[f->slot], tls_n); }
    *eh = f->eh;
    cur = f;
    errno = f->err;
    sim_switch(&from->sp, f->sp);
}
void op_point_raw(bool (*pred)(void*), void* arg, const char* op, i64 deadline) {
    Fiber* f = cur;
    f->pred = pred; f->predarg = arg; f->op = op; f->deadline = deadline;
    int e = errno;
    pick_and_go();
    errno = e;
    f->pred = nullptr; f->deadline = -1;
    touch_v((u64)op[0] | (u64)op[1] << 8);
}

// ------------------------------------------------------------------------------------------ running
void tracef(const char* fmt, ...) {
    bool a = g_active; g_active = false;
    printf("  [%6.2f] %-12s ", g_now / 1e9, cur ? cur->name : "-");
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n"); fflush(stdout);
    g_active = a;
}
bool violation(unsigned kind, const char* fmt, ...) {
    if (!(g_mask & kind) && kind != K_HARNESS) return false;
    bool a = g_active; g_active = false;
    if (!g_res->vkind) {
        char buf[2048];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        g_res->vkind = kind; g_res->vmsg = buf;
        if (g_trace) { printf("  !! %s\n", buf); fflush(stdout); }
    }
    g_active = a;
    if (g_active) to_main();
    return true;
}
void fail(const char* fmt, ...) {
    if (!(g_mask & K_PROP)) return;
    char buf[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    violation(K_PROP, "%s", buf);
}
static void on_signal(int sig) {
    if (g_active) {
        violation(K_CRASH, "the process is killed by signal %d (%s) in thread %s", sig, strsignal(sig), cur->name);
        to_main();
    }
    signal(sig, SIG_DFL); raise(sig);
}
// a thread that computes for seconds without reaching any visible operation loops for ever
static volatile u64 wd_exec, wd_steps, wd_ticks;
static void on_tick(int) {
    if (!g_active || wd_exec != g_exec_no || wd_steps != (u64)g_steps) { wd_exec = g_exec_no; wd_steps = g_steps; wd_ticks = 0; return; }
    if (++wd_ticks < 6 || cur->host) return;
    wd_ticks = 0;
    violation(K_LIVELOCK, "thread %s does not get anywhere (several seconds of CPU time)", cur->name);
    to_main();
}
static void on_terminate() {
    if (g_active) {
        std::string what = "?";
        bool a = g_active; g_active = false;
        if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { what = x.what(); } catch (...) {} }
        g_active = a;
        violation(K_CRASH, "uncaught exception (%s) in thread %s", what.c_str(), cur->name);
        to_main();
    }
    abort();
}
// static data of the library is put back before every execution
static std::string *snap_data, *snap_bss;
static void data_save() {
    snap_data = new std::string(__start_sutdata, __stop_sutdata - __start_sutdata);
    snap_bss = new std::string(__start_sutbss, __stop_sutbss - __start_sutbss);
}
static void data_restore() {
    if (snap_data->size()) __real_memcpy(__start_sutdata, snap_data->data(), snap_data->size());
    if (snap_bss->size()) __real_memcpy(__start_sutbss, snap_bss->data(), snap_bss->size());
}
void rt_init() {
    data_save();
    tls_find();
    arenas_init();
    racy_pcs = new std::set<u32>(); new_racy = new std::vector<u32>();
    g_choices = new std::vector<ChoiceRec>(); g_prefix = new std::vector<uint8_t>();
    stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
    itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    std::set_terminate(on_terminate);
}
void run_execution(ExecResult& r) {
    g_res = &r;
    g_exec_no++;
    data_restore();
    arenas_reset();
    g_choices->clear(); g_used = 0; g_steps = 0; g_now = 0;
    g_clock = Obj(); g_hist = Obj();
    nfibers = 0; cur = nullptr;
    if (tls_n) { __real_memcpy(tls_p, tls_init, tls_n); for (auto& c : tls_copy) __real_memcpy(c, tls_init, tls_n); }
    at_thread_exit = nullptr;
    g_eintr = g_scn->eintr; g_shortio = g_scn->short_io;
    int m = new_fiber("main", false);
    cur = &fibers[m]; cur->host = 1;
    g_active = true;
    g_history = new std::vector<std::string>();
    racy_objs = new std::map<u64, Obj>();
    kern_reset();
    fibers[m].body = new std::function<void()>(g_scn->body);
    cur->host = 0;
    sim_switch(&main_sp, cur->sp);
    g_active = false;
    if (tls_n) __real_memcpy(tls_p, tls_init, tls_n);
    r.steps = g_steps;
    r.endhash = state_key();
    r.hist.clear();
    for (auto& s : *g_history) r.hist.push_back(std::string(s.c_str()));
    cur = nullptr;
}

// ------------------------------------------------------------------------------------------ scenario API
Host::Host() { if (g_active) cur->host++; }
Host::~Host() { if (g_active) cur->host--; }
int spawn_(const char* name, std::function<void()> f) {
    Host h;
    op_point("spawn");
    int s = new_fiber(name, false);
    fibers[s].body = new std::function<void()>(std::move(f));
    return s;
}
void join(int id) {
    Host h;
    op_point([id] { return fibers[id].finished; }, "join");
    touch_r(fibers[id].end); hb_acquire(fibers[id].end);
}
void mark(const std::string& what) {
    Host h;
    TR("-- %s", what.c_str());
    g_history->push_back(std::string(what.data(), what.size()));
    touch_w(g_hist); hb_release(g_hist);
}
const std::vector<std::string>& history() { return *g_history; }
int count_marks(const std::string& w) { int n = 0; for (auto& s : *g_history) n += s == w; return n; }
bool marked(const std::string& w) { return count_marks(w) > 0; }
int mark_pos(const std::string& w) { for (size_t i = 0; i < g_history->size(); i++) if ((*g_history)[i] == w) return i; return -1; }
void wait_until(std::function<bool()> p, const char* why) {
    Host h;
    op_point([&] { return p(); }, why);
    touch_r(g_hist); hb_acquire(g_hist);
}
bool wait_until_for(std::function<bool()> p, double sec, const char* why) {
    Host h;
    i64 dl = g_now + (i64)(sec * 1e9);
    op_point([&] { return p() || g_now >= dl; }, why, dl);
    touch_r(g_hist); touch_r(g_clock); hb_acquire(g_hist);
    return p();
}
void wait_mark(const std::string& w, int n) { wait_until([&] { return count_marks(w) >= n; }, "wait for event"); }
void pause_point() { Host h; op_point("pause"); }
i64 now_ns() { Host h; touch_r(g_clock); return g_now; }
double now_s() { return now_ns() / 1e9; }
void sleep_s(double s) {
    Host h;
    i64 dl = g_now + (i64)(s * 1e9);
    op_point([dl] { return g_now >= dl; }, "sleep", dl);
    touch_r(g_clock);
}
bool quiescent_others() {
    for (int i = 0; i < nfibers; i++) if (&fibers[i] != cur && fiber_enabled(fibers[i])) {
        bool self_settle = fibers[i].op[0] == '~';
        if (!self_settle) return false;
    }
    return true;
}
void settle() {
    Host h;
    Fiber* me = cur;
    op_point([me] {
        for (int i = 0; i < nfibers; i++) if (&fibers[i] != me && fibers[i].op[0] != '~' && fiber_enabled(fibers[i])) return false;
        return true;
    }, "~settle");
    for (int i = 0; i < nfibers; i++) if (&fibers[i] != me) touch_v(fibers[i].th);
    touch_r(g_hist);
}
int live_threads() { int n = 0; for (int i = 0; i < nfibers; i++) n += fibers[i].library && !fibers[i].finished; return n; }
void outcome(const std::string& s) {
    bool a = g_active; g_active = false;
    g_res->outcome = std::string(s.c_str());
    g_active = a;
}
void set_eintr(bool on) { g_eintr = on; }
void set_shortio(bool on) { g_shortio = on; }

}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------------------------------ heap entry points
#define PC __builtin_return_address(0)
static void* a_new(size_t n, int kind, void* pc, size_t align = 16) {
    if (!g_active) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
        if (!p && kind) throw std::bad_alloc();
        return p;
    }
    if (cur->host) return host_alloc(n);
    void* p = sut_alloc(n, kind, pc, align);
    if (!p && kind) throw std::bad_alloc();
    return p;
}
static void a_del(void* p, int kind, void* pc) {
    if (!p) return;
    if (in_sut(p)) { if (g_active) sut_free(p, kind, pc); return; }
    if (in_host(p) || g_active) return;      // (memory from before the execution stays: the next one needs it again)
    __real_free(p);
}
void* operator new(size_t n) { return a_new(n, 1, PC); }
void* operator new[](size_t n) { return a_new(n, 2, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return g_active && !cur->host ? sut_alloc(n, 1, PC) : a_new(n, 0, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return g_active && !cur->host ? sut_alloc(n, 2, PC) : a_new(n, 0, PC); }
void* operator new(size_t n, std::align_val_t al) { return a_new(n, 1, PC, (size_t)al); }
void* operator new[](size_t n, std::align_val_t al) { return a_new(n, 2, PC, (size_t)al); }
void operator delete(void* p) noexcept { a_del(p, 1, PC); }
void operator delete[](void* p) noexcept { a_del(p, 2, PC); }
void operator delete(void* p, size_t) noexcept { a_del(p, 1, PC); }
void operator delete[](void* p, size_t) noexcept { a_del(p, 2, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { a_del(p, 1, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { a_del(p, 2, PC); }
void operator delete(void* p, std::align_val_t) noexcept { a_del(p, 1, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { a_del(p, 2, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { a_del(p, 1, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { a_del(p, 2, PC); }

extern "C" {
void* __wrap_malloc(size_t n) { return g_active ? a_new(n, 0, PC) : __real_malloc(n); }
void __wrap_free(void* p) { if (p && (g_active || in_sut(p) || in_host(p))) a_del(p, 0, PC); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) {
    if (!g_active) return __real_calloc(a, b);
    void* p = a_new(a * b, 0, PC); if (p) __real_memset(p, 0, a * b); return p;
}
void* __wrap_realloc(void* p, size_t n) {
    if (!g_active && !(p && (in_sut(p) || in_host(p)))) return __real_realloc(p, n);
    void* q = a_new(n, 0, PC);
    if (p && q) {
        size_t old = n;
        if (in_sut(p)) { size_t o = (char*)p - SUT; old = 0; if (blk_of[o / 16]) old = (*blocks)[blk_of[o / 16] - 1].size; }
        __real_memcpy(q, p, old < n ? old : n);
        a_del(p, 0, PC);
    }
    return q;
}
#define MON (g_active && !cur->host)
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (MON && n) { if (monitored(s)) access(s, n, false, PC); if (monitored(d)) access(d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (MON && n) { if (monitored(s)) access(s, n, false, PC); if (monitored(d)) access(d, n, true, PC); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (MON && n && monitored(d)) access(d, n, true, PC);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (MON && n) { if (monitored(a)) access(a, n, false, PC); if (monitored(b)) access(b, n, false, PC); }
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    if (MON && monitored(s)) access(s, n + 1, false, PC);
    return n;
}

// ------------------------------------------------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N) \
    void __tsan_read##N(void* p) { if (monitored(p) && MON) access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { if (monitored(p) && MON) access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { if (monitored(p) && MON) access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { if (monitored(p) && MON) access(p, N, true, PC); } \
    void __tsan_read##N##_pc(void* p, void* pc) { if (monitored(p) && MON) access(p, N, false, pc); } \
    void __tsan_write##N##_pc(void* p, void* pc) { if (monitored(p) && MON) access(p, N, true, pc); } \
    void __tsan_volatile_read##N(void* p) { if (monitored(p) && MON) access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { if (monitored(p) && MON) access(p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (n && monitored(p) && MON) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n && monitored(p) && MON) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (monitored(p) && MON) access(p, 8, *p != v, PC); }
void __tsan_vptr_read(void** p) { if (monitored(p) && MON) access(p, 8, false, PC); }
}

// atomics: scheduling point, total order per variable
static Obj* atomic_obj(const void* p);
namespace sim { extern u64 g_exec_no; }
namespace { struct AtomMap { u64 mask, used, gen; struct E { u64 key, gen; Obj* val; } e[1]; }; AtomMap* amap; }
static AtomMap* amap_new(u64 n) { auto m = (AtomMap*)__real_calloc(1, sizeof(AtomMap) + n * sizeof(AtomMap::E)); m->mask = n - 1; return m; }
static AtomMap::E& amap_slot(u64 k) {
    size_t i = (k * 0x9E3779B97F4A7C15ull) >> 20 & amap->mask;
    while (amap->e[i].gen == amap->gen && amap->e[i].key != k) i = (i + 1) & amap->mask;
    return amap->e[i];
}
static Obj* atomic_obj(const void* p) {
    if (!amap) amap = amap_new(4096);
    if (amap->gen != sim::g_exec_no) { amap->gen = sim::g_exec_no; amap->used = 0; }
    AtomMap::E& e = amap_slot((u64)p);
    if (e.gen == amap->gen) return e.val;
    e = { (u64)p, amap->gen, new (host_alloc(sizeof(Obj))) Obj() };
    Obj* o = e.val;
    if (++amap->used * 2 > amap->mask) {
        AtomMap* old = amap; amap = amap_new((old->mask + 1) * 2); amap->gen = old->gen; amap->used = old->used;
        for (u64 i = 0; i <= old->mask; i++) if (old->e[i].gen == old->gen) amap_slot(old->e[i].key) = old->e[i];
        __real_free(old);
    }
    return o;
}
// What happens before what, as the language's memory orders say: a load acquires and a store releases only if their
// order asks for it, or a fence stands in for it. (The values are those of one total order: what a load may return
// out of that order is not explored, only that nothing else relies on the order it does not give.)
enum { LOAD, STORE, RMW };
static bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void order_atomic(Obj& o, int kind, int mo) {
    if (kind != STORE) { if (acquires(mo)) vc_join(cur->vc, o.vc); else vc_join(cur->pend, o.vc); }
    if (kind == LOAD) return;
    // a store starts a new release sequence (unless it is the same thread's again), an update continues the one there is
    if (kind == STORE && o.storer != cur->slot + 1) memset(&o.vc, 0, sizeof o.vc);
    if (kind == STORE) o.storer = cur->slot + 1;
    if (releases(mo)) hb_release(o); else vc_join(o.vc, cur->frel);
}
static void atomic_access(const void* p, size_t n, int kind, int mo, void* pc, bool (*succeeds)(void*) = nullptr, void* arg = nullptr, int mo_fail = 0) {
    cur->host++;
    op_point(kind != LOAD ? "atomic update" : "load atomic");
    Obj* o = atomic_obj(p);
    if (kind != LOAD) touch_w(*o); else touch_r(*o);
    u32 ep = ((u32)cur->slot << 26) | (cur->vc.c[cur->slot]);      // of the access itself, which whoever acquires what it releases is after
    if (succeeds && !succeeds(arg)) order_atomic(*o, LOAD, mo_fail); else order_atomic(*o, kind, mo);
    cur->host--;
    if (monitored(p)) {      // lifetime check, and races with plain accesses
        size_t off = (char*)p - SUT;
        if (in_sut(p)) { for (size_t i = 0; i < n; i++) if (sh[off + i] != 1) { violation(K_MEM, "atomic access to %s heap memory (pc %p)", sh[off + i] == 2 ? "released" : "unallocated", pc); return; } }
        else if (in_stk(p) && stack_gone(p, n, write, pc, __builtin_frame_address(0))) return;
        Cell* cs = in_sut(p) ? cells + off : (in_stk(p) ? stk_cells : stat_cells).at(p, n);
        // for release-vs-use detection remember the access without flagging atomics against each other
        for (size_t i = 0; i < n; i++) { Cell& c = cs[i]; if (!ordered(c.w)) { race(c.wpc, pc, p, "plain write/atomic"); } c.r1 = ep; c.r1pc = (u32)(u64)pc; if (ordered(c.r0)) { c.r0 = ep; c.r0pc = (u32)(u64)pc; } }
    }
}
#define ATOM (g_active && !cur->host)
// function-local statics: initialised by one thread, the others wait (byte 0: done, byte 1: somebody is at it)
extern "C" {
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!ATOM) return __real___cxa_guard_acquire(g);
    uint8_t* b = (uint8_t*)g;
    cur->host++;
    op_point([b] { return b[0] || !b[1]; }, "initialise a static");
    Obj* o = atomic_obj(g);
    touch_w(*o); hb_acquire(*o);
    int r = !b[0];
    if (r) b[1] = 1;
    cur->host--;
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!ATOM) { __real___cxa_guard_release(g); return; }
    Obj* o = atomic_obj(g); touch_w(*o); hb_release(*o);
    ((uint8_t*)g)[0] = 1; ((uint8_t*)g)[1] = 0;
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!ATOM) { __real___cxa_guard_abort(g); return; }
    Obj* o = atomic_obj(g); touch_w(*o); hb_release(*o);
    ((uint8_t*)g)[1] = 0;
}
// destructors of statics initialised during an execution never run (the next execution initialises them again)
int __real___cxa_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_atexit(void (*f)(void*), void* o, void* d) { return g_active ? 0 : __real___cxa_atexit(f, o, d); }
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
    if (!g_active) return __real___cxa_thread_atexit(f, o, d);
    at_thread_exit = new (host_alloc(sizeof(AtExit))) AtExit{f, o, cur->slot, at_thread_exit};
    return 0;
}
}
template <class T> struct Cas { const volatile T* p; T e; static bool ok(void* a) { Cas* c = (Cas*)a; return *c->p == c->e; } };
template <class T> static inline void cas_access(const volatile T* p, T e, int mo, int mof, void* pc) {
    Cas<T> c{p, e};
    atomic_access((const void*)p, sizeof(T), RMW, mo, pc, Cas<T>::ok, &c, mof);
}
#define AT(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T* p, int mo) { if (ATOM) atomic_access((void*)p, N / 8, LOAD, mo, PC); return *p; } \
extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, STORE, mo, PC); *p = v; } \
extern "C" T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = o ^ v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { if (ATOM) atomic_access((void*)p, N / 8, RMW, mo, PC); T o = *p; *p = ~(o & v); return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int mof) { if (ATOM) cas_access<T>(p, *e, mo, mof, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int mof) { if (ATOM) cas_access<T>(p, *e, mo, mof, PC); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int mof) { if (ATOM) cas_access<T>(p, e, mo, mof, PC); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!ATOM) return;
    if (acquires(mo)) vc_join(cur->vc, cur->pend);
    if (releases(mo)) { cur->frel = cur->vc; cur->vc.c[cur->slot]++; }
}
extern "C" void __tsan_atomic_signal_fence(int) {}
