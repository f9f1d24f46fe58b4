// Binds the simulated kernel to the real one: every sequence of operations up to a depth is executed on both
// and results, error numbers, data and poll readiness must agree.
#include "rt_int.hpp"
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <string>
extern "C" long __real_syscall(long, ...);
namespace sim {
// the two worlds behind one interface
struct World {
    virtual ~World() {}
    virtual long sock(int fam) = 0; virtual long bind_(int fd, const sockaddr* a, socklen_t l) = 0; virtual long listen_(int fd) = 0;
    virtual long accept_(int fd) = 0; virtual long conn(int fd, const sockaddr* a, socklen_t l) = 0;
    virtual long snd(int fd, const void* b, size_t n) = 0; virtual long rcv(int fd, void* b, size_t n) = 0; virtual long shut(int fd, int how) = 0;
    virtual long cls(int fd) = 0; virtual long pol(int fd, int ev) = 0; virtual long evfd(int fl) = 0; virtual long tmfd() = 0; virtual long wr(int fd, const void* b, size_t n) = 0;
    virtual long rd(int fd, void* b, size_t n) = 0; virtual long nb(int fd) = 0; virtual long soerr(int fd) = 0; virtual long tmset(int fd, long sec) = 0;
    virtual long reuse(int fd) = 0; virtual void fill(int fd) = 0;
};
static long E(long r) { return r < 0 ? -errno : r; }
struct Sim : World {
    long sock(int f) { return E(::socket(f, SOCK_STREAM, 0)); }
    long bind_(int fd, const sockaddr* a, socklen_t l) { return E(::bind(fd, a, l)); }
    long listen_(int fd) { return E(::listen(fd, 8)); }
    long accept_(int fd) { return E(::accept4(fd, 0, 0, 0)); }
    long conn(int fd, const sockaddr* a, socklen_t l) { return E(::connect(fd, a, l)); }
    long snd(int fd, const void* b, size_t n) { return E(::send(fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL)); }
    long rcv(int fd, void* b, size_t n) { return E(::recv(fd, b, n, MSG_DONTWAIT)); }
    long shut(int fd, int h) { return E(::shutdown(fd, h)); }
    long cls(int fd) { return E(::close(fd)); }
    long pol(int fd, int ev) { pollfd p{fd, (short)ev, 0}; long r = ::poll(&p, 1, 0); return r < 0 ? -errno : p.revents; }
    long evfd(int fl) { return E(::eventfd(0, fl)); }
    long tmfd() { return E(::timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK)); }
    long wr(int fd, const void* b, size_t n) { return E(::write(fd, b, n)); }
    long rd(int fd, void* b, size_t n) { return E(::read(fd, b, n)); }
    long nb(int fd) { return E(::fcntl(fd, F_SETFL, O_NONBLOCK)); }
    long soerr(int fd) { int e = 0; socklen_t l = sizeof e; long r = ::getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l); return r < 0 ? -errno : e; }
    long tmset(int fd, long s) { itimerspec t{{0, 0}, {s, 0}}; return E(::timerfd_settime(fd, 0, &t, 0)); }
    long reuse(int fd) { int one = 1; return E(::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one)); }
    void fill(int fd) { static char b[4096]; sim::set_cap(fd, 20000); while (snd(fd, b, sizeof b) > 0) {} }
};
static long S(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r = __real_syscall(n, a, b, c, d, e, f); return r < 0 ? -errno : r; }
struct Real : World {
    long sock(int f) { return S(SYS_socket, f, SOCK_STREAM, 0); }
    long bind_(int fd, const sockaddr* a, socklen_t l) { return S(SYS_bind, fd, (long)a, l); }
    long listen_(int fd) { return S(SYS_listen, fd, 8); }
    long accept_(int fd) { return S(SYS_accept4, fd, 0, 0, 0); }
    long conn(int fd, const sockaddr* a, socklen_t l) { return S(SYS_connect, fd, (long)a, l); }
    long snd(int fd, const void* b, size_t n) { return S(SYS_sendto, fd, (long)b, n, MSG_DONTWAIT | MSG_NOSIGNAL, 0, 0); }
    long rcv(int fd, void* b, size_t n) { return S(SYS_recvfrom, fd, (long)b, n, MSG_DONTWAIT, 0, 0); }
    long shut(int fd, int h) { return S(SYS_shutdown, fd, h); }
    long cls(int fd) { return S(SYS_close, fd); }
    long pol(int fd, int ev) { pollfd p{fd, (short)ev, 0}; long r = S(SYS_poll, (long)&p, 1, 0); return r < 0 ? r : p.revents; }
    long evfd(int fl) { return S(SYS_eventfd2, 0, fl); }
    long tmfd() { return S(SYS_timerfd_create, CLOCK_MONOTONIC, TFD_NONBLOCK); }
    long wr(int fd, const void* b, size_t n) { return S(SYS_write, fd, (long)b, n); }
    long rd(int fd, void* b, size_t n) { return S(SYS_read, fd, (long)b, n); }
    long nb(int fd) { return S(SYS_fcntl, fd, F_SETFL, O_NONBLOCK); }
    long soerr(int fd) { int e = 0; socklen_t l = sizeof e; long r = S(SYS_getsockopt, fd, SOL_SOCKET, SO_ERROR, (long)&e, (long)&l); return r < 0 ? r : e; }
    long tmset(int fd, long s) { itimerspec t{{0, 0}, {s, 0}}; return S(SYS_timerfd_settime, fd, 0, (long)&t, 0); }
    long reuse(int fd) { int one = 1; return S(SYS_setsockopt, fd, SOL_SOCKET, SO_REUSEADDR, (long)&one, sizeof one); }
    void fill(int fd) { static char b[4096]; while (snd(fd, b, sizeof b) > 0) {} }
};

static int g_fam; static const int* g_seq; static int g_len; static int g_group; static int g_ip; static int g_pid;
static char g_buf[8192]; static size_t g_n;
static void rec(long v) { g_n += snprintf(g_buf + g_n, sizeof g_buf - g_n, " %ld", v); }
static void recs(const char* s, long n) { g_buf[g_n++] = '"'; for (long i = 0; i < n && g_n < sizeof g_buf - 8; i++) g_buf[g_n++] = s[i]; g_buf[g_n++] = '"'; g_buf[g_n] = 0; }
static const int EV = POLLIN | POLLOUT;

static socklen_t addr(sockaddr_storage& ss, int port, bool real) {
    memset(&ss, 0, sizeof ss);
    if (g_fam == AF_INET) { auto* a = (sockaddr_in*)&ss; a->sin_family = AF_INET; a->sin_port = htons(port); char b[32]; snprintf(b, sizeof b, "127.0.%d.%d", 1 + g_ip / 250 % 250, 1 + g_ip % 250); inet_aton(b, &a->sin_addr); return sizeof *a; }
    auto* a = (sockaddr_un*)&ss; a->sun_family = AF_UNIX; snprintf(a->sun_path, sizeof a->sun_path, "/tmp/vp-conform-%d-%d", g_pid, port); return sizeof *a;
}
static const char* opn[3][16] = {
    {"send A", "recv A", "poll A", "shut-wr A", "shut-rdwr A", "close A", "send B", "recv B", "poll B", "close B", "shut-rdwr B", "so_error A"},
    {"connect 1", "accept", "poll L", "close L", "send 1", "close 1", "poll 1", "recv S", "connect 2", "poll S", "so_error 1"},
    {"write E1", "read E", "poll E", "write E0", "read short", "timer set", "timer off", "poll T", "read T", "close E"},
};
const int NOPS[3] = {12, 11, 10};
// one run of the sequence in one world
static void play(World& w, bool real) {
    g_n = 0; g_buf[0] = 0;
    char b[64];
    if (g_group == 0) {
        sockaddr_storage ss; socklen_t l = addr(ss, 23111, real);
        long L = w.sock(g_fam); w.reuse(L);
        if (real && g_fam == AF_UNIX) S(SYS_unlink, (long)((sockaddr_un*)&ss)->sun_path);
        long br = w.bind_(L, (sockaddr*)&ss, l); long lr = w.listen_(L);
        long A = w.sock(g_fam); long cr = w.conn(A, (sockaddr*)&ss, l); long B = w.accept_(L);
        if (br || lr || cr || B < 0) { snprintf(g_buf, sizeof g_buf, "setup %ld %ld %ld %ld", br, lr, cr, B); }
        w.cls(L);
        if (real && g_fam == AF_UNIX) S(SYS_unlink, (long)((sockaddr_un*)&ss)->sun_path);
        g_n = strlen(g_buf);
        bool ao = true, bo = true;
        for (int i = 0; i < g_len; i++) {
            long r;
            switch (g_seq[i]) {
                case 0: if (ao) rec(w.snd(A, "abc", 3)); break;
                case 1: if (ao) { rec(r = w.rcv(A, b, 2)); if (r > 0) recs(b, r); } break;
                case 2: if (ao) rec(w.pol(A, EV)); break;
                case 3: if (ao) rec(w.shut(A, SHUT_WR)); break;
                case 4: if (ao) rec(w.shut(A, SHUT_RDWR)); break;
                case 5: if (ao) { rec(w.cls(A)); ao = false; } break;
                case 6: if (bo) rec(w.snd(B, "xyz", 3)); break;
                case 7: if (bo) { rec(r = w.rcv(B, b, 2)); if (r > 0) recs(b, r); } break;
                case 8: if (bo) rec(w.pol(B, EV)); break;
                case 9: if (bo) { rec(w.cls(B)); bo = false; } break;
                case 10: if (bo) rec(w.shut(B, SHUT_RDWR)); break;
                case 11: if (ao) rec(w.soerr(A)); break;
            }
        }
        if (ao) { rec(w.pol(A, EV)); w.cls(A); }
        if (bo) { rec(w.pol(B, EV)); w.cls(B); }
    } else if (g_group == 1) {
        sockaddr_storage ss; socklen_t l = addr(ss, 23112, real);
        long L = w.sock(g_fam); w.reuse(L); w.nb(L);
        if (real && g_fam == AF_UNIX) S(SYS_unlink, (long)((sockaddr_un*)&ss)->sun_path);
        rec(w.bind_(L, (sockaddr*)&ss, l)); rec(w.listen_(L));
        long c1 = w.sock(g_fam), c2 = w.sock(g_fam); w.nb(c1);
        long s = -1; bool lo = true, o1 = true;
        for (int i = 0; i < g_len; i++) {
            long r;
            switch (g_seq[i]) {
                case 0: if (o1) rec(w.conn(c1, (sockaddr*)&ss, l)); break;
                case 1: if (lo) { r = w.accept_(L); rec(r < 0 ? r : 1); if (r >= 0) { if (s >= 0) w.cls(s); s = r; w.nb(s); } } break;
                case 2: if (lo) rec(w.pol(L, EV)); break;
                case 3: if (lo) { rec(w.cls(L)); lo = false; } break;
                case 4: if (o1) rec(w.snd(c1, "q", 1)); break;
                case 5: if (o1) { rec(w.cls(c1)); o1 = false; } break;
                case 6: if (o1) rec(w.pol(c1, EV)); break;
                case 7: if (s >= 0) { rec(r = w.rcv(s, b, 2)); } break;
                case 8: rec(w.conn(c2, (sockaddr*)&ss, l)); break;
                case 9: if (s >= 0) rec(w.pol(s, EV)); break;
                case 10: if (o1) rec(w.soerr(c1)); break;
            }
        }
        if (o1) { rec(w.pol(c1, EV)); w.cls(c1); }
        w.cls(c2); if (s >= 0) w.cls(s); if (lo) w.cls(L);
        if (real && g_fam == AF_UNIX) S(SYS_unlink, (long)((sockaddr_un*)&ss)->sun_path);
    } else {
        long e = w.evfd(EFD_NONBLOCK), t = w.tmfd(); bool eo = true; uint64_t v;
        for (int i = 0; i < g_len; i++) {
            long r;
            switch (g_seq[i]) {
                case 0: if (eo) { v = 1; rec(w.wr(e, &v, 8)); } break;
                case 1: if (eo) { v = 99; rec(r = w.rd(e, &v, 8)); if (r > 0) rec(v); } break;
                case 2: if (eo) rec(w.pol(e, EV)); break;
                case 3: if (eo) { v = 0; rec(w.wr(e, &v, 8)); } break;
                case 4: if (eo) rec(w.rd(e, &v, 4)); break;
                case 5: rec(w.tmset(t, 1000)); break;
                case 6: rec(w.tmset(t, 0)); break;
                case 7: rec(w.pol(t, EV)); break;
                case 8: v = 0; rec(w.rd(t, &v, 8)); break;
                case 9: if (eo) { rec(w.cls(e)); eo = false; } break;
            }
        }
        if (eo) w.cls(e); w.cls(t);
    }
}
int conformance(int depth) {
    Scenario sc; sc.may_leave_fds = true;
    sc.body = [] { Sim w; play(w, false); };
    g_scn = &sc; g_mask = K_HARNESS; g_visit = nullptr; g_pid = getpid();
    unsigned long total = 0, ops = 0, bad = 0;
    for (int group = 0; group < 3; group++) for (int fam : {AF_UNIX, AF_INET}) {
        if (group == 2 && fam == AF_INET) continue;
        int n = NOPS[group], d = depth; if (group == 2) d = depth + 1;
        std::vector<int> seq;
        std::function<void()> rec_ = [&] {
            if (!seq.empty()) {
                g_fam = fam; g_seq = seq.data(); g_len = seq.size(); g_group = group; g_ip++;
                ExecResult r; g_prefix->clear();
                run_execution(r);
                std::string a(g_buf);
                if (r.vkind) a += " !" + r.vmsg;
                std::string b;
                for (int attempt = 0; attempt < 4; attempt++) {      // the real kernel delivers asynchronously: give it another chance
                    g_buf[0] = 0; if (attempt) { g_ip++; usleep(2000 << attempt); }
                    Real w; play(w, true); b = g_buf;
                    if (a == b) break;
                }
                total++; ops += seq.size();
                if (a != b) {
                    if (bad++ < 40) {
                        std::string s; for (int x : seq) { s += opn[group][x]; s += "; "; }
                        printf("%s: %s\n   simulated:%s\n   real:     %s\n", fam == AF_UNIX ? "unix" : "tcp", s.c_str(), a.c_str(), b.c_str());
                    }
                    return;        // longer sequences only repeat it
                }
            }
            if ((int)seq.size() == d) return;
            for (int i = 0; i < n; i++) { seq.push_back(i); rec_(); seq.pop_back(); }
        };
        rec_();
    }
    printf("{\"sequences\":%lu,\"operations\":%lu,\"depth\":%d,\"mismatches\":%lu}\n", total, ops, depth, bad);
    return bad ? 1 : 0;
}
}
