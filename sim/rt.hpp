// Controlled-execution runtime: fibers, scheduler, simulated kernel, heap and race monitor, explorer.
// Scenario code includes only this header (plus the library's own headers).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

enum Kind : unsigned {
    K_PROP = 1,       // property oracle of the scenario failed
    K_CRASH = 2,      // signal, uncaught exception, abort
    K_MEM = 4,        // heap access outside live blocks, bad free
    K_DEADLOCK = 8,   // nobody can run
    K_LIVELOCK = 16,  // step horizon exceeded
    K_HANG = 32,      // virtual-time horizon exceeded
    K_THREAD = 64,    // a library thread is left when the scenario is over
    K_SIGPIPE = 128,  // process would be killed by SIGPIPE
    K_LEAK = 256,     // heap block never released
    K_FD = 512,       // descriptor leaked or used after close
    K_RACE = 1024,    // happens-before race
    K_HARNESS = 2048  // the machinery itself is at fault (never a verdict)
};
const unsigned K_DEFAULT = K_PROP | K_CRASH | K_MEM | K_DEADLOCK | K_LIVELOCK | K_HANG | K_THREAD | K_SIGPIPE;

// ---- guard: code of the harness itself (bookkeeping), not of the program under test
struct Host { Host(); ~Host(); };

// ---- scenario registration
struct Scenario {
    std::string name;
    std::string props;             // space separated property ids
    std::function<void()> body;    // runs as fiber "main" in every execution
    int bound_quick = 1, bound_thorough = 2;
    bool early_tick = false;       // may timers expire before everything is idle? (costs 1)
    bool short_io = false;         // explore short reads / writes (cost 1 each)
    bool eintr = false;            // explore EINTR at blocking calls (cost 1 each)
    bool spurious = false;         // explore spurious wake-ups and readiness of sockets that are not ready (cost 1 each)
    bool accept_fail = false;      // explore failing accepts (cost 1 each)
    bool async_connect = false;    // explore immediate / deferred completion of nonblocking connects
    double horizon_s = 3600;       // virtual time horizon
    int max_steps = 20000;
    bool may_leave_fds = false;
    bool delay = false;            // every deviation from the default order costs 1 (also where the running thread blocks): for many threads
    bool quick = true;             // part of the quick tier
};
Scenario& add(const std::string& name, const std::string& props, std::function<void()> body);

// ---- inside an execution
[[noreturn]] void abort_execution();
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // property violation
#define SIM_CHECK(c, ...) do { if (!(c)) ::sim::fail(__VA_ARGS__); } while (0)
int choose(int n, const char* what, int cost = 0);     // enumerate n alternatives (free unless cost)
int spawn_(const char* name, std::function<void()> f);
// starts a user thread; the closure itself belongs to the harness, not to the tracked heap
template<class F> int spawn(const char* name, F f) { Host h; return spawn_(name, std::function<void()>(std::move(f))); }
void join(int id);
void mark(const std::string& what);                    // append to the recorded history (also an observable event)
const std::vector<std::string>& history();
int count_marks(const std::string& what);
bool marked(const std::string& what);
int mark_pos(const std::string& what);                 // index of first, -1 if none
void wait_until(std::function<bool()> p, const char* why);
bool wait_until_for(std::function<bool()> p, double seconds, const char* why);
void wait_mark(const std::string& what, int n = 1);
void pause_point();                                    // plain scheduling point
i64 now_ns();
double now_s();
void sleep_s(double s);
bool quiescent_others();                               // no other fiber can run right now
void settle();                                         // run until nobody else can run (no time passes)
int live_threads();                                    // threads created by the library and not finished
int open_fds();                                        // simulated descriptors open
int open_fds_of(int kind);                             // 0 socket, 1 listener, 2 eventfd, 3 timerfd
void outcome(const std::string& s);                    // classify this execution (distinct outcomes are counted)
u64 arena_live_bytes();
void expect_fds_open(int n);

// ---- simulated network for scripted peers and observation
const int TCP = 2, UNIX = 1;   // AF_INET, AF_UNIX
void pair(int family, int fds[2], size_t cap0 = (size_t)-1, size_t cap1 = (size_t)-1);  // connected stream pair
void inject(int fd, const std::string& bytes, bool eof = false);  // bytes that fd will receive; no scheduling point
std::string wire(int fd);           // everything fd's owner has written so far (also after close)
std::vector<std::pair<i64, size_t>> wire_times(int fd);   // (time, total length after) for each write
size_t unread(int fd);              // bytes written by fd's owner that its peer has not read
bool peer_saw_eof(int fd);          // fd's owner has closed / shut down writing
void set_cap(int fd, size_t cap);   // capacity of the direction fd's owner writes into
// scripted peers: real scheduling points
ssize_t p_send(int fd, const std::string& s);
std::string p_recv(int fd, size_t max = 1 << 20);   // blocks until data or EOF (empty)
std::string p_recv_exact(int fd, size_t n);
void p_close(int fd);
void p_shutdown_wr(int fd);
int p_connect(int family, const std::string& host, int port);   // -1 on failure; unix: host = path
int p_listen(int family, const std::string& host, int port, int backlog = 16);
int p_accept(int lfd);
void net_blackhole(const std::string& ip, int port);             // connects never complete
void net_error(const std::string& ip, int port, int err);         // connects complete with an error
void net_delay(const std::string& ip, int port, double s);       // connects complete after s seconds
void refuse(int kinds, int from = -1);  // from now on the library may be refused descriptors (1) and threads (2): each time a choice (cost 1), or always from the from-th on
int refused();                          // how often it was so far
void sys_fail(const char* call, int err, int after = 0);         // the next call (after that many) of socket/bind/listen/accept/connect fails
bool file_exists(const std::string& path);
void file_create(const std::string& path, bool directory = false);
void sys_unlink(const std::string& path);
bool fd_open(int fd);
int last_accepted_fd();     // for observation of the server side: descriptor of the k-th accepted connection
std::vector<int> accepted_fds();
std::vector<int> connected_fds();   // descriptors of successful client connects
void track_write(void* p, size_t n);
void track_read(const void* p, size_t n);
void set_eintr(bool on);
void set_shortio(bool on);

}
