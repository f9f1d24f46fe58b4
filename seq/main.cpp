// Enumerates every case of every space of a property in forked workers; a failing case is replayed before it is reported.
#include "seq.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1024:exitcode=77:abort_on_error=0:handle_abort=0:quarantine_size_mb=8:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

static std::vector<Space*>& all() { static std::vector<Space*> v; return v; }
Space& add_space(const std::string& name, const std::string& props, const std::string& what) {
    auto* s = new Space(); s->name = name; s->props = props; s->what = what; all().push_back(s); return *s;
}
static i64 live; static u64 cum;
static u64 in_case;
static void on_malloc(const volatile void*, size_t n) {
    live++; cum += n; in_case += n;
    if (in_case > (4ull << 30)) { in_case = 0; fail("one case allocates more than 4 GB altogether"); }
}
static void on_free(const volatile void* p) { if (p) live--; }
void mem_reset() { cum = 0; }
u64 mem_cumulative() { return cum; }

const int W = 32;
const u64 BITS = 1ull << 28;
struct Shared { std::atomic<u64> next; std::atomic<int> stop; struct { volatile u64 idx; volatile u64 done, trans, traces; char msg[2000]; volatile bool failed; } w[W]; };
static Shared* sh; static int me; static std::atomic<u64>* bits;
static bool replaying;
void count_state(const void* p, size_t n) {
    if (replaying) return;
    u64 h = 0x9E3779B97F4A7C15ull ^ n; const u8* c = (const u8*)p; if (n > 512) n = 512;
    while (n >= 8) { u64 v; memcpy(&v, c, 8); h = (h ^ v) * 0xD6E8FEB86659FD93ull; h ^= h >> 32; c += 8; n -= 8; }
    while (n--) h = (h ^ *c++) * 0x100000001B3ull;
    h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32; h &= BITS - 1;
    u64 b = 1ull << (h & 63); if (!(bits[h >> 6].load(std::memory_order_relaxed) & b)) bits[h >> 6].fetch_or(b, std::memory_order_relaxed);
}
void count_trans(u64 n) { sh->w[me].trans += n; }
void count_trace(u64 n) { sh->w[me].traces += n; }
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(sh->w[me].msg, sizeof sh->w[me].msg, fmt, ap); va_end(ap);
    sh->w[me].failed = true; _exit(3);
}
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
const int LIMIT = 20;       // seconds of CPU time for a chunk of cases
static void watchdog() { itimerval v = {}; v.it_value.tv_sec = LIMIT; setitimer(ITIMER_PROF, &v, 0); }
static void one(Space* s, u64 i) {
    i64 l0 = live; in_case = 0;
    s->run(i);
    if (s->leak && live != l0) {      // a one-time allocation is no leak: it must happen again and again
        int more = 0;
        for (int k = 0; k < 3; k++) { i64 l = live; s->run(i); more += live > l; }
        if (more == 3) fail("memory is left allocated (%lld blocks per run)", (long long)(live - l0) / 4);
    }
}
static std::string errfile(int k, int pid) { return "/tmp/seq-err." + std::to_string(pid) + "." + std::to_string(k); }
static void worker(Space* s, u64 total, u64 chunk, int k, int pid, double until) {
    me = k;
    int f = open(errfile(k, pid).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 2); close(f);
    rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
    std::set_terminate([] { abort(); });
    while (!sh->stop) {
        u64 b = sh->next.fetch_add(chunk);
        if (b >= total) break;
        if (wall() > until) { sh->stop = 2; break; }
        watchdog();
        for (u64 i = b; i < b + chunk && i < total; i++) { sh->w[me].idx = i; one(s, i); sh->w[me].done = sh->w[me].done + 1; }
    }
    fflush(0); _exit(0);
}
static std::string verdict(int st, int k, int pid) {
    std::string m = sh->w[k].failed ? sh->w[k].msg : "";
    if (!m.empty()) return m;
    std::ifstream f(errfile(k, pid)); std::string line, first;
    while (std::getline(f, line)) {
        size_t p = line.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = line.find("runtime error:");
        if (p == std::string::npos) p = line.find("terminate called"); if (p == std::string::npos) p = line.find("Assertion");
        if (p != std::string::npos) { first = line.substr(p); break; }
    }
    // addresses differ between runs
    std::string o; for (size_t i = 0; i < first.size(); i++) { if (first.compare(i, 2, "0x") == 0) { o += "0x.."; i += 2; while (i < first.size() && isxdigit(first[i])) i++; i--; } else o += first[i]; }
    size_t bp = o.find(" at pc "); if (bp != std::string::npos) o.resize(bp);
    if (!o.empty()) return o;
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGPROF ? std::string("does not terminate (20 s of CPU time)") : "killed by signal " + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGABRT ? " (uncaught exception or assertion)" : "");
    return "exit status " + std::to_string(WEXITSTATUS(st));
}
static bool single(Space* s, u64 idx, std::string& msg) {
    memset((void*)&sh->w[0], 0, sizeof sh->w[0]); sh->stop = 0; replaying = true;
    int pid = getpid(); pid_t c = fork();
    if (!c) {
        me = 0; int f = open(errfile(0, pid).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(f, 2); close(f);
        rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); watchdog(); one(s, idx); _exit(0);
    }
    int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) msg = verdict(st, 0, pid);
    unlink(errfile(0, pid).c_str());
    return bad;
}
static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
int main(int argc, char** argv) {
    std::string prop, out, rout, replay, only; bool thorough = false; int jobs = 8; double secs = 600; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--replay-out") rout = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--thorough") thorough = true; else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--time") secs = atof(nx().c_str());
        else if (a == "--only") only = nx(); else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (jobs > W) jobs = W;
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bits = (std::atomic<u64>*)mmap(0, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    auto has = [](Space* s, const std::string& p) { return (" " + s->props + " ").find(" " + p + " ") != std::string::npos; };
    if (list) { for (auto* s : all()) { if (s->prepare) s->prepare(thorough); printf("%s\t%s\t%llu\t%s\n", s->name.c_str(), s->props.c_str(), (unsigned long long)s->size(thorough), s->what.c_str()); } return 0; }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line, sp; u64 idx = 0;
        while (std::getline(f, line)) { std::istringstream is(line); std::string k; is >> k; if (k == "space") is >> sp; else if (k == "case") is >> idx; else if (k == "thorough") is >> thorough; }
        for (auto* s : all()) if (s->name == sp) {
            if (s->prepare) s->prepare(thorough);
            if (s->describe) printf("%s\n", s->describe(idx).c_str());
            std::string m; bool bad = single(s, idx, m); printf("%s\n", bad ? m.c_str() : "no violation"); return bad;
        }
        return 2;
    }
    std::ostringstream o; o << "["; bool first = true; int rc = 0; double until = wall() + secs;
    for (auto* s : all()) {
        if (!prop.empty() && !has(s, prop)) continue;
        if (!only.empty() && s->name != only) continue;
        double t0 = wall();
        if (s->prepare) s->prepare(thorough);
        u64 total = s->size(thorough), chunk = total / (jobs * 64) + 1; if (chunk > 4096) chunk = 4096;
        memset((void*)sh, 0, sizeof *sh); replaying = false; madvise((void*)bits, BITS / 8, MADV_REMOVE);
        int pid = getpid(); std::map<pid_t, int> kids;
        for (int k = 0; k < jobs && (u64)k < total; k++) { pid_t c = fork(); if (!c) worker(s, total, chunk, k, pid, until); kids[c] = k; }
        u64 bad_idx = ~0ull; std::string msg; int bad_w = -1;
        while (!kids.empty()) {
            int st; pid_t c = wait(&st); if (c < 0) { if (errno == EINTR) continue; break; }
            int k = kids[c]; kids.erase(c);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                sh->stop = 1;
                if (sh->w[k].idx < bad_idx) { bad_idx = sh->w[k].idx; bad_w = k; msg = verdict(st, k, pid); }
            }
        }
        u64 done = 0, tr = 0, tc = 0; for (int k = 0; k < jobs; k++) { done += sh->w[k].done; tr += sh->w[k].trans; tc += sh->w[k].traces; unlink(errfile(k, pid).c_str()); }
        u64 states = 0; for (u64 k = 0; k < BITS / 64; k++) states += __builtin_popcountll(bits[k]);
        bool complete = sh->stop == 0; bool harness = false;
        if (bad_w >= 0) {
            std::string m2, m3;
            if (!single(s, bad_idx, m2) || !single(s, bad_idx, m3)) { harness = true; msg = "not reproducible: " + msg; rc = rc ? rc : 2; }
            else {
                msg = m2; rc = 1;
                if (!rout.empty()) { std::ofstream f(rout + "." + s->name); f << "space " << s->name << "\ncase " << bad_idx << "\nthorough " << thorough << "\n# " << msg << "\n# " << (s->describe ? s->describe(bad_idx) : "") << "\n"; }
            }
        }
        o << (first ? "" : ",\n") << "{\"space\":" << js(s->name) << ",\"what\":" << js(s->what) << ",\"cases\":" << total << ",\"done\":" << done << ",\"states\":" << states << ",\"transitions\":" << tr << ",\"traces\":" << tc
          << ",\"complete\":" << (complete ? "true" : "false") << ",\"seconds\":" << wall() - t0 << ",\"violation\":" << (bad_w >= 0 && !harness ? "true" : "false") << ",\"harness\":" << (harness ? "true" : "false")
          << ",\"sample\":" << js(s->describe ? s->describe(total / 2) : "") << ",\"case\":" << js(bad_w >= 0 && s->describe ? s->describe(bad_idx) : "") << ",\"index\":" << (bad_w >= 0 ? bad_idx : 0) << ",\"message\":" << js(msg) << "}";
        first = false;
        if (bad_w >= 0 && msg.compare(0, 18, "does not terminate") == 0) break;      // the other spaces would only spend their time
    }
    o << "]\n";
    if (out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(out); f << o.str(); }
    return rc;
}
