// Simulated kernel: descriptors, stream sockets, eventfd, timerfd, poll, files, clock, threads and mutexes.
// Linked with --wrap, so every call of the library lands here.
#include "rt_int.hpp"
#include <cerrno>
#include <cstdarg>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>

#define PC __builtin_return_address(0)

namespace sim {

enum FK { F_SOCK, F_LISTEN, F_EVENT, F_TIMER };
enum SS { S_NEW, S_CONNECTING, S_CONN, S_DEAD };

struct Dir {                       // one direction of a stream
    std::string log, lost; size_t rpos = 0; size_t cap = 65536;
    bool wr_shut = false;          // writer finished (shutdown or close)
    bool rd_gone = false;          // reader does not read any more
    std::vector<std::pair<i64, size_t>> times;
    Obj o;
    size_t used() const { return log.size() - rpos; }
    size_t space() const { return used() >= cap ? 0 : cap - used(); }
};
struct File {
    int fd = -1; int kind = F_SOCK; int refs = 1; bool open = true, ext = false, released = false;
    bool nonblock = false; i64 sndtimeo = 0;
    Obj o;
    // sockets
    int family = AF_INET, ss = S_NEW; Dir* in = nullptr; Dir* out = nullptr; File* peer = nullptr;
    bool rst = false; int err = 0; bool shut_rd = false, shut_wr = false;
    bool reuse = false, bound = false;
    u32 ip = 0; int port = 0; std::string path;        // own address
    i64 conn_at = -1; u32 dip = 0; int dport = 0; bool conn_wait = false; bool conn_reported = false;
    int via_port = 0;                                   // accepted through this port
    bool active_close = false;
    // listener
    std::deque<File*> backlog; size_t limit = 128;
    // eventfd
    u64 cnt = 0; bool sema = false;
    // timerfd
    i64 expiry = -1, interval = 0; u64 exps = 0;
};
struct Mutex { int owner = -1; int depth = 0; Obj o; };
struct Cond { std::vector<int> waiters; std::vector<int> woken; Obj o; };
struct RW { int writer = -1; int readers = 0; Obj o; };
struct Sem { unsigned v = 0; Obj o; };
struct Fut { std::vector<int> waiters; Obj o; };

struct Kern {
    std::vector<File*> files;
    std::map<std::string, File*> paths;                  // file system: null = ordinary file
    std::set<std::string> dirs;                          // those of them which are directories
    std::vector<File*> listeners;
    std::set<std::string> blackholes;
    std::map<std::string, int> conn_errs;
    std::map<std::string, double> delays;
    std::map<const void*, Mutex> mutexes;
    std::map<const void*, Cond> conds;
    std::map<const void*, RW> rws;
    std::map<const void*, Sem> sems;
    std::map<const void*, Fut> futs;
    std::map<int, i64> timewait;
    std::vector<int> accepted, connected;
    int next_port = 40000;
    std::vector<std::pair<std::string, std::pair<int, int>>> faults;   // call: after how many, errno
    Obj fs, net;
    int refuse = 0, refuse_from = -1, refused = 0; Obj refusal;        // descriptors (1) and threads (2) that cannot be created
};
static Kern* K;
static bool is_refused(int kind, const char* what) {
    if (!(K->refuse & kind)) return false;
    if (K->refuse_from < 0) { if (!env_choice1(2, what)) return false; }
    else { touch_w(K->refusal); if (K->refuse_from > 0) { K->refuse_from--; return false; } }
    touch_w(K->refusal); K->refused++; TR("%s: refused", what); errno = kind == 1 ? EMFILE : EAGAIN;
    return true;
}
// does this call fail because the scenario asked for it?
static bool sys_fault(const char* call) {
    for (auto it = K->faults.begin(); it != K->faults.end(); ++it) if (it->first == call) {
        if (it->second.first-- > 0) return false;
        int e = it->second.second; K->faults.erase(it); TR("%s fails (%s)", call, strerror(e)); errno = e; return true;
    }
    return false;
}
static const int FD0 = 1000;

void kern_reset() { K = new Kern(); }

static File* mk(int kind, bool ext) {
    File* f = new File(); f->kind = kind; f->ext = ext;
    return f;
}
static int give_fd(File* f) { f->fd = FD0 + (int)K->files.size(); K->files.push_back(f); return f->fd; }
static File* any(int fd) { return fd >= FD0 && fd < FD0 + (int)K->files.size() ? K->files[fd - FD0] : nullptr; }
static File* get(int fd, const char* what) {
    File* f = any(fd);
    if (f && f->open) return f;
    errno = EBADF;
    if (f) violation(K_FD, "%s on descriptor %d after it was closed (thread %s)", what, fd, cur->name);
    else if (fd >= 0) violation(K_FD, "%s on descriptor %d that does not exist (thread %s)", what, fd, cur->name);
    errno = EBADF;
    return nullptr;
}

// ------------------------------------------------------------------------------------------ clock
i64 kern_next_deadline() {
    i64 d = -1;
    auto m = [&](i64 t) { if (t > g_now && (d < 0 || t < d)) d = t; };
    for (File* f : K->files) if (!f->released) {
        if (f->kind == F_TIMER && f->expiry >= 0) m(f->expiry);
        if (f->conn_at >= 0) m(f->conn_at);
    }
    return d;
}
static void complete_connect(File* f);
u64 kern_advance() {
    u64 h = 0;
    for (size_t i = 0; i < K->files.size(); i++) {
        File* f = K->files[i];
        if (f->released) continue;
        if (f->kind == F_TIMER && f->expiry >= 0 && f->expiry <= g_now) {
            if (f->interval > 0) { while (f->expiry <= g_now) { f->expiry += f->interval; f->exps++; } }
            else { f->expiry = -1; f->exps++; }
            f->o.h = mix(f->o.h, (u64)g_now);
            h = mix(h, f->o.h);
        }
        if (f->conn_at >= 0 && f->conn_at <= g_now) {
            f->conn_at = -1;
            complete_connect(f);
            f->o.h = mix(f->o.h, (u64)g_now);
            h = mix(h, f->o.h);
        }
    }
    return h;
}

// ------------------------------------------------------------------------------------------ sockets
static void link_pair(File* a, File* b) {
    Dir* x = new Dir(); Dir* y = new Dir();
    a->out = x; b->in = x; b->out = y; a->in = y;
    a->peer = b; b->peer = a; a->ss = b->ss = S_CONN;
}
static void reset_peer(File* p) {          // p receives a reset
    if (p->rst) return;
    p->rst = true;
    p->err = p->family == AF_INET && p->in->wr_shut ? EPIPE : ECONNRESET;
    p->o.h = mix(p->o.h, cur ? cur->th : 5);
}
static int sock_poll(File* f) {
    int r = 0;
    if (f->kind == F_LISTEN) return f->backlog.empty() ? 0 : POLLIN | POLLRDNORM;
    const int IN = POLLIN | POLLRDNORM, OUT = POLLOUT | POLLWRNORM;
    if (f->ss == S_NEW) return f->family == AF_INET ? OUT | POLLHUP : OUT | POLLHUP;
    if (f->ss == S_CONNECTING) return 0;
    if (f->ss == S_DEAD) return (f->err ? POLLERR : 0) | IN | OUT | POLLHUP | POLLRDHUP;
    if (f->family == AF_INET) {
        bool rds = f->shut_rd || f->in->wr_shut || f->rst;
        bool wrs = f->shut_wr || f->rst;
        if (f->rst || (rds && wrs)) r |= POLLHUP;
        if (rds) r |= IN | POLLRDHUP;
        if (f->in->used()) r |= IN;
        if (wrs || f->out->space() >= std::max<size_t>(1, f->out->cap / 3)) r |= OUT;
        if (f->err) r |= POLLERR;
    } else {
        bool rds = f->shut_rd || f->in->wr_shut;
        bool wrs = f->shut_wr || f->out->rd_gone;
        if (rds && wrs) r |= POLLHUP;
        if (rds) r |= IN | POLLRDHUP;
        if (f->in->used()) r |= IN;
        if (f->out->space() >= std::max<size_t>(1, f->out->cap / 3)) r |= OUT;
        if (f->err) r |= POLLERR;
    }
    return r;
}
static int file_poll(File* f) {
    switch (f->kind) {
        case F_EVENT: return (f->cnt ? POLLIN | POLLRDNORM : 0) | (f->cnt < ~0ull - 1 ? POLLOUT | POLLWRNORM : 0);
        case F_TIMER: return f->exps ? POLLIN | POLLRDNORM : 0;
        default: return sock_poll(f);
    }
}
static void do_shutdown(File* f, int how) {
    bool rd = how == SHUT_RD || how == SHUT_RDWR, wr = how == SHUT_WR || how == SHUT_RDWR;
    if (wr && !f->shut_wr) {
        if (f->family == AF_INET && !f->in->wr_shut && !f->rst) f->active_close = true;
        f->shut_wr = true; f->out->wr_shut = true; touch_w(f->out->o);
        if (f->family == AF_UNIX && f->peer) f->peer->shut_rd = true;
    }
    if (rd && !f->shut_rd) {
        f->shut_rd = true;
        if (f->family == AF_UNIX) { f->in->rd_gone = true; if (f->peer) f->peer->shut_wr = true; }
        touch_w(f->in->o);
    }
}
static void release(File* f) {             // last reference gone
    f->released = true;
    if (f->kind == F_LISTEN) {
        for (File* c : f->backlog) {
            if (c->peer) {
                if (c->family == AF_UNIX) c->peer->err = ECONNRESET; else reset_peer(c->peer);
                do_shutdown(c, SHUT_RDWR); c->in->rd_gone = true;
            }
            c->released = true;
        }
        f->backlog.clear();
        K->listeners.erase(std::remove(K->listeners.begin(), K->listeners.end(), f), K->listeners.end());
        for (auto& p : K->paths) if (p.second == f) p.second = nullptr;
        touch_w(K->net);
        return;
    }
    if (f->kind != F_SOCK) return;
    for (auto& p : K->paths) if (p.second == f) p.second = nullptr;
    if (f->ss == S_CONN) {
        bool unread = f->in->used() > 0;
        if (unread && f->peer) {
            if (f->family == AF_UNIX) { if (!f->peer->released) { f->peer->err = ECONNRESET; } }
            else if (!(f->shut_wr && f->in->wr_shut)) { if (!f->shut_wr && !f->in->wr_shut) f->active_close = false; reset_peer(f->peer); }
        }
        bool was = f->active_close;
        do_shutdown(f, f->family == AF_INET && f->peer && f->peer->rst ? SHUT_RD : SHUT_RDWR);
        if (unread) f->active_close = was;
        f->in->rd_gone = true;
        touch_w(f->in->o); touch_w(f->out->o);
        if (f->via_port && f->active_close && !f->rst) K->timewait[f->via_port] = g_now + 60000000000ll;
    }
    if (f->ss == S_CONNECTING) { f->ss = S_DEAD; f->conn_at = -1; }
}
static void unpin(File* f) { if (--f->refs == 0) release(f); }
struct Pin { File* f; Pin(File* f) : f(f) { f->refs++; } ~Pin() { unpin(f); } };

static bool addr_key(const sockaddr* sa, socklen_t len, u32& ip, int& port, std::string& path, int& fam) {
    if (len < sizeof(sa_family_t)) return false;
    fam = sa->sa_family;
    if (fam == AF_INET) {
        if (len < sizeof(sockaddr_in)) return false;
        auto* a = (const sockaddr_in*)sa; ip = ntohl(a->sin_addr.s_addr); port = ntohs(a->sin_port);
        return true;
    }
    if (fam == AF_UNIX) {
        auto* a = (const sockaddr_un*)sa;
        if (len > sizeof(sockaddr_un) || len <= offsetof(sockaddr_un, sun_path)) return false;
        size_t m = len - offsetof(sockaddr_un, sun_path);
        size_t n = 0; while (n < m && a->sun_path[n]) n++;
        path.assign(a->sun_path, n);
        return n > 0;
    }
    return false;
}
static std::string ipkey(u32 ip, int port) { char b[64]; snprintf(b, sizeof b, "%u:%d", ip, port); return b; }
static bool local_ip(u32 ip) { return ip == 0 || (ip >> 24) == 127; }
static File* find_listener(u32 ip, int port) {
    for (File* l : K->listeners) if (l->family == AF_INET && l->port == port && (l->ip == 0 || l->ip == ip)) return l;
    return nullptr;
}
static void establish(File* f, File* l) {
    File* s = mk(F_SOCK, l->ext); s->family = l->family; s->via_port = l->port; s->path = l->path; s->ip = l->ip; s->port = l->port;
    link_pair(f, s);
    f->dip = l->ip; f->dport = l->port;
    l->backlog.push_back(s);
    l->o.h = mix(l->o.h, cur ? cur->th : 9);
}
static void complete_connect(File* f) {
    auto e = K->conn_errs.find(f->dport < 0 ? std::string() : ipkey(f->dip, f->dport));
    if (e != K->conn_errs.end() || f->dport < 0) { f->ss = S_DEAD; f->err = f->dport < 0 ? ETIMEDOUT : e->second; return; }
    File* l = find_listener(f->dip, f->dport);
    if (!l) { f->ss = S_DEAD; f->err = ECONNREFUSED; return; }
    establish(f, l);
}

static int do_socket(int family, int type, bool ext) {
    if (family != AF_INET && family != AF_UNIX) { errno = EAFNOSUPPORT; return -1; }
    if ((type & 15) != SOCK_STREAM || (type & ~(15 | SOCK_NONBLOCK | SOCK_CLOEXEC))) { errno = EINVAL; return -1; }
    File* f = mk(F_SOCK, ext); f->family = family; f->nonblock = type & SOCK_NONBLOCK;
    return give_fd(f);
}
static int do_bind(File* f, const sockaddr* sa, socklen_t len) {
    u32 ip = 0; int port = 0, fam = 0; std::string path;
    if (f->bound) { errno = EINVAL; return -1; }
    if (!addr_key(sa, len, ip, port, path, fam) || fam != f->family) { errno = EINVAL; return -1; }
    if (fam == AF_UNIX) {
        touch_w(K->fs);
        if (path.compare(0, 7, "/nodir/") == 0) { errno = ENOENT; return -1; }
        if (K->paths.count(path)) { errno = EADDRINUSE; return -1; }
        K->paths[path] = f; f->path = path;
    } else {
        touch_w(K->net);
        if (!local_ip(ip)) { errno = EADDRNOTAVAIL; return -1; }
        if (port == 0) port = K->next_port++;
        for (File* l : K->listeners) if (l->family == AF_INET && l->port == port && (!l->ip || !ip || l->ip == ip)) { errno = EADDRINUSE; return -1; }
        for (File* o : K->files) if (o != f && !o->released && o->kind == F_SOCK && o->family == AF_INET && o->bound && o->port == port && o->ss == S_NEW && (!o->ip || !ip || o->ip == ip) && !(f->reuse && o->reuse)) { errno = EADDRINUSE; return -1; }
        if (!f->reuse) {
            auto it = K->timewait.find(port);
            if (it != K->timewait.end() && it->second > g_now) { errno = EADDRINUSE; return -1; }
            for (File* o : K->files) if (!o->released && o->kind == F_SOCK && o->via_port == port) { errno = EADDRINUSE; return -1; }
        }
        f->ip = ip; f->port = port;
    }
    f->bound = true;
    return 0;
}
static int do_listen(File* f, int n) {
    if (f->kind == F_LISTEN) return 0;
    if (f->ss != S_NEW || (f->family == AF_UNIX && !f->bound)) { errno = EINVAL; return -1; }
    touch_w(K->net);
    if (!f->bound) { f->port = K->next_port++; f->bound = true; }
    if (f->family == AF_INET)
        for (File* l : K->listeners) if (l->family == AF_INET && l->port == f->port && (!l->ip || !f->ip || l->ip == f->ip)) { errno = EADDRINUSE; return -1; }
    f->kind = F_LISTEN; f->limit = n < 0 || n > 4096 ? 4096 : n;
    K->listeners.push_back(f);
    return 0;
}
// returns 0, or -1 with errno; blocks when the socket is blocking
static int do_connect(File* f, const sockaddr* sa, socklen_t len) {
    u32 ip = 0; int port = 0, fam = 0; std::string path;
    if (f->kind != F_SOCK) { errno = EINVAL; return -1; }
    if (f->ss == S_CONN && f->family == AF_INET && f->rst && f->conn_wait && !f->conn_reported) { errno = f->err ? f->err : ECONNABORTED; f->err = 0; f->rst = false; f->ss = S_NEW; f->conn_wait = false; return -1; }
    if (f->ss == S_CONN && f->family == AF_UNIX) {
        if (!addr_key(sa, len, ip, port, path, fam)) { errno = EINVAL; return -1; }
        auto it = K->paths.find(path);
        errno = it == K->paths.end() ? ENOENT : !it->second || it->second->kind != F_LISTEN ? ECONNREFUSED : EISCONN;
        return -1;
    }
    if (f->ss == S_CONN) { if (f->family == AF_INET && f->conn_wait && !f->conn_reported) { f->conn_reported = true; return 0; } errno = EISCONN; return -1; }
    if (f->ss == S_CONNECTING) { errno = EALREADY; return -1; }
    if (f->ss == S_DEAD && f->family == AF_INET) { errno = f->err ? f->err : ECONNABORTED; f->err = 0; f->ss = S_NEW; f->conn_wait = false; return -1; }
    if (!addr_key(sa, len, ip, port, path, fam)) { errno = EINVAL; return -1; }
    if (fam != f->family) { errno = fam == AF_UNIX ? EAFNOSUPPORT : EINVAL; return -1; }
    if (fam == AF_UNIX) {
        auto target = [&]() -> File* { auto it = K->paths.find(path); return it == K->paths.end() ? nullptr : it->second; };
        touch_r(K->fs); touch_r(K->net);
        auto it = K->paths.find(path);
        if (it == K->paths.end()) { errno = ENOENT; return -1; }
        File* l = it->second;
        if (!l || l->kind != F_LISTEN || l->released) { errno = ECONNREFUSED; return -1; }
        if (l->backlog.size() > l->limit) {
            if (f->nonblock) { errno = EAGAIN; return -1; }
            i64 dl = f->sndtimeo > 0 ? g_now + f->sndtimeo : -1;
            int c = g_eintr ? env_choice1(dl >= 0 ? 3 : 2, "EINTR in connect") : 0;     // at once, or half-way
            if (c == 1) { errno = EINTR; return -1; }
            i64 end = c == 2 ? g_now + f->sndtimeo / 2 : dl;
            if (end >= 0) touch_r(g_clock);
            auto full = [&] { File* t = target(); return t && t->kind == F_LISTEN && t->backlog.size() > t->limit; };
            op_point([&] { return !full() || (end >= 0 && g_now >= end); }, "connect (backlog full)", end);
            if (c == 2 && full()) { touch_r(g_clock); touch_r(target()->o); errno = EINTR; return -1; }
            l = target();
            if (!l || l->kind != F_LISTEN) { errno = ECONNREFUSED; return -1; }
            if (l->backlog.size() > l->limit) { touch_r(g_clock); touch_r(l->o); errno = EAGAIN; return -1; }
        }
        touch_w(l->o);
        establish(f, l);
        return 0;
    }
    touch_r(K->net);
    u32 dst = ip == 0 ? 0x7f000001 : ip;
    std::string key = ipkey(dst, port);
    f->dip = dst; f->dport = port;
    bool hole = K->blackholes.count(key); bool delayed = K->delays.count(key);
    if (!hole && !delayed && !local_ip(dst)) { errno = ENETUNREACH; return -1; }
    auto finish = [&]() -> int {
        if (f->ss == S_DEAD) { f->ss = S_NEW; int e = f->err; f->err = 0; errno = e ? e : ECONNREFUSED; return -1; }
        return 0;
    };
    if (hole) { f->ss = S_CONNECTING; f->conn_at = g_now + 127000000000ll; f->dport = -1; touch_r(g_clock); }
    else if (delayed) { f->ss = S_CONNECTING; f->conn_at = g_now + (i64)(K->delays[key] * 1e9); touch_r(g_clock); }
    else {
        File* l = find_listener(dst, port);
        if (l) touch_w(l->o);
        complete_connect(f);
        if (!f->nonblock) return finish();
        if (g_scn->async_connect && f->ss == S_CONN && env_choice(2, nullptr, "connect completes at once")) return 0;
    }
    if (f->nonblock) { f->conn_wait = true; errno = EINPROGRESS; return -1; }
    if (g_eintr && env_choice1(2, "EINTR in connect")) { errno = EINTR; f->conn_wait = true; return -1; }
    i64 dl = f->sndtimeo > 0 ? g_now + f->sndtimeo : -1;
    op_point([f, dl] { return f->ss != S_CONNECTING || (dl >= 0 && g_now >= dl); }, "connect", dl);
    touch_r(f->o);
    if (f->ss == S_CONNECTING) { f->conn_wait = true; errno = EINPROGRESS; return -1; }
    return finish();
}
static int do_accept(File* l, int flags) {
    if (l->kind != F_LISTEN) { errno = EINVAL; return -1; }
    if (!l->ext && is_refused(1, "accept")) return -1;
    if (l->backlog.empty()) {
        if (l->nonblock) { touch_r(l->o); errno = EAGAIN; return -1; }
        if (g_eintr && !l->ext && env_choice1(2, "EINTR in accept")) { errno = EINTR; return -1; }
        op_point([l] { return !l->backlog.empty(); }, "accept");
    }
    touch_w(l->o);
    File* s = l->backlog.front(); l->backlog.pop_front();
    if (g_scn->accept_fail && !l->ext && env_choice1(2, "the client is gone before accept")) {
        if (s->peer) reset_peer(s->peer);
        do_shutdown(s, SHUT_RDWR); s->in->rd_gone = true; s->released = true;
        errno = ECONNABORTED; return -1;
    }
    s->nonblock = flags & SOCK_NONBLOCK;
    int fd = give_fd(s);
    if (!l->ext) K->accepted.push_back(fd);
    return fd;
}
static ssize_t do_send(File* f, const char* b, size_t n, int flags, const char* op) {
    bool nb = f->nonblock || (flags & MSG_DONTWAIT);
    size_t done = 0;
    auto epipe = [&]() -> ssize_t {
        if (done) return done;
        if (f->err && f->family == AF_INET) { int e = f->err; f->err = 0; if (e != EPIPE) { errno = e; return -1; } }
        if (!(flags & MSG_NOSIGNAL) && !f->ext) violation(K_SIGPIPE, "%s without MSG_NOSIGNAL on a broken connection raises SIGPIPE", op);
        errno = EPIPE; return -1;
    };
    if (f->kind != F_SOCK) { errno = f->kind == F_LISTEN ? ENOTCONN : ENOTSOCK; return -1; }
    if (f->ss == S_CONNECTING) { if (nb) { errno = EAGAIN; return -1; } op_point([f] { return f->ss != S_CONNECTING; }, "send (connecting)"); }
    if (f->ss != S_CONN) { if (f->family == AF_INET) return epipe(); errno = ENOTCONN; return -1; }
    size_t want = n;
    if (g_shortio && !f->ext && n > 1) {
        int c = env_choice1(n > 2 ? 3 : 2, "short write");
        if (c == 1) want = 1; else if (c == 2) want = n - 1;
    }
    for (;;) {
        touch_w(f->out->o);
        if (f->err && f->family == AF_UNIX && !f->shut_wr && !f->out->rd_gone) { int e = f->err; f->err = 0; if (done) return done; errno = e; return -1; }
        if (f->rst || f->shut_wr || (f->family == AF_UNIX && f->out->rd_gone)) return epipe();
        if (f->family == AF_INET && (f->out->rd_gone || (f->peer && f->peer->shut_rd && f->peer->shut_wr))) {     // the peer's kernel answers with a reset
            f->out->lost.append(b + done, want - done);
            f->out->times.push_back({g_now, f->out->log.size() + f->out->lost.size()});
            reset_peer(f);
            if (!f->out->rd_gone) { f->peer->rst = true; f->peer->err = ECONNRESET; f->peer->o.h = mix(f->peer->o.h, cur->th); }
            return want;
        }
        size_t k = std::min(want - done, f->out->space());
        if (k) {
            f->out->log.append(b + done, k); done += k;
            f->out->times.push_back({g_now, f->out->log.size()});
            if (!f->ext) TR("%s %zu bytes on %d", op, k, f->fd);
        }
        if (done == want) return done;
        if (nb) { if (done) return done; errno = EAGAIN; return -1; }
        if (g_eintr && !f->ext && env_choice1(2, "EINTR in send")) { if (done) return done; errno = EINTR; return -1; }
        i64 dl = f->sndtimeo > 0 ? g_now + f->sndtimeo : -1;
        op_point([f, dl] { return f->out->space() || f->rst || f->shut_wr || f->out->rd_gone || (dl >= 0 && g_now >= dl); }, "send (blocked by the peer)", dl);
        if (dl >= 0 && g_now >= dl && !(f->out->space() || f->rst || f->shut_wr || f->out->rd_gone)) { touch_r(g_clock); if (done) return done; errno = EAGAIN; return -1; }
    }
}
static ssize_t do_recv(File* f, char* b, size_t n, int flags, const char* op) {
    bool nb = f->nonblock || (flags & MSG_DONTWAIT);
    if (f->kind != F_SOCK) { errno = f->kind == F_LISTEN ? ENOTCONN : ENOTSOCK; return -1; }
    if (f->ss == S_CONNECTING) { if (nb) { errno = EAGAIN; return -1; } op_point([f] { return f->ss != S_CONNECTING; }, "recv (connecting)"); }
    if (f->ss != S_CONN) { if (f->ss == S_DEAD && f->err) { errno = f->err; f->err = 0; return -1; } errno = f->family == AF_INET ? ENOTCONN : EINVAL; return -1; }
    if (n == 0) return 0;
    if (f->shut_rd && f->family == AF_UNIX && !f->in->used()) { touch_r(f->in->o); if (f->err) { errno = f->err; f->err = 0; return -1; } return 0; }
    auto ready = [f] { return f->in->used() || f->in->wr_shut || f->rst || f->err || f->shut_rd; };
    if (!ready()) {
        touch_r(f->in->o);
        if (nb) { errno = EAGAIN; return -1; }
        if (g_eintr && !f->ext && env_choice1(2, "EINTR in recv")) { errno = EINTR; return -1; }
        op_point(ready, "recv (nothing to read)");
    }
    touch_w(f->in->o);
    size_t k = std::min(n, f->in->used());
    if (k) {
        if (g_shortio && !f->ext && k > 1 && !(flags & MSG_WAITALL)) {
            int c = env_choice1(k > 2 ? 3 : 2, "short read");
            if (c == 1) k = 1; else if (c == 2) k = k - 1;
        }
        if ((flags & MSG_WAITALL) && !nb) while (k < n && !(f->in->wr_shut || f->rst || f->err || f->shut_rd)) {
            op_point([f, k] { return f->in->used() > k || f->in->wr_shut || f->rst || f->err || f->shut_rd; }, "recv (waits for all)");
            touch_w(f->in->o);
            k = std::min(n, f->in->used());
        }
        memcpy(b, f->in->log.data() + f->in->rpos, k);
        if (!(flags & MSG_PEEK)) f->in->rpos += k;
        if (!f->ext) TR("%s %zu of %zu bytes on %d", op, k, n, f->fd);
        return k;
    }
    if (f->err && !(f->family == AF_INET && f->in->wr_shut)) { int e = f->err; f->err = 0; errno = e; return -1; }
    if (!f->ext) TR("%s: end of stream on %d", op, f->fd);
    return 0;
}
static ssize_t ev_read(File* f, u64* v) {
    auto ready = [f] { return f->cnt != 0; };
    if (!ready()) {
        if (f->nonblock) { touch_r(f->o); hb_acquire(f->o); errno = EAGAIN; return -1; }
        if (g_eintr && env_choice1(2, "EINTR in read")) { errno = EINTR; return -1; }
        op_point(ready, "read of an event with nothing in it");
    }
    touch_w(f->o); hb_acquire(f->o); hb_release(f->o);
    if (f->sema) { *v = 1; f->cnt--; } else { *v = f->cnt; f->cnt = 0; }
    TR("read event %d -> %llu", f->fd, (unsigned long long)*v);
    return 8;
}
static ssize_t tm_read(File* f, u64* v) {
    auto ready = [f] { return f->exps != 0; };
    if (!ready()) {
        if (f->nonblock) { touch_r(f->o); errno = EAGAIN; return -1; }
        if (g_eintr && env_choice1(2, "EINTR in read")) { errno = EINTR; return -1; }
        op_point(ready, "read of a timer that has not expired");
    }
    touch_w(f->o); hb_acquire(f->o); hb_release(f->o);
    *v = f->exps; f->exps = 0;
    return 8;
}
static ssize_t ev_write(File* f, u64 v) {
    if (v == ~0ull) { errno = EINVAL; return -1; }
    auto ready = [f, v] { return ~0ull - 1 - f->cnt >= v; };
    if (!ready()) {
        if (f->nonblock) { touch_r(f->o); errno = EAGAIN; return -1; }
        op_point(ready, "write of a full event");
    }
    touch_w(f->o); hb_acquire(f->o); hb_release(f->o);
    f->cnt += v;
    TR("write event %d += %llu", f->fd, (unsigned long long)v);
    return 8;
}
static int do_close(int fd) {
    File* f = get(fd, "close");
    if (!f) return -1;
    touch_w(f->o); hb_acquire(f->o); hb_release(f->o);
    TR("close %d", fd);
    f->open = false;
    unpin(f);
    return 0;
}
static ssize_t file_read(int fd, char* b, size_t n, int flags, const char* op, void* pc) {
    op_point(op);
    File* f = get(fd, op);
    if (!f) return -1;
    Pin p(f);
    if (f->kind == F_EVENT || f->kind == F_TIMER) {
        if (n < 8) { errno = EINVAL; return -1; }
        u64 v = 0; ssize_t r = f->kind == F_EVENT ? ev_read(f, &v) : tm_read(f, &v);
        if (r > 0) { check_range(b, 8, true, pc); memcpy(b, &v, 8); }
        return r;
    }
    // the kernel writes straight into the caller's buffer, so it must all be there
    ssize_t r = do_recv(f, (char*)b, 0, 0, op);
    if (r < 0) return r;
    size_t cap = n < (1u << 20) ? n : (1u << 20);
    std::string tmp(cap, 0);
    r = do_recv(f, &tmp[0], cap, flags, op);
    if (r > 0) { check_range(b, r, true, pc); memcpy(b, tmp.data(), r); }
    return r;
}
static ssize_t file_write(int fd, const char* b, size_t n, int flags, const char* op, void* pc) {
    op_point(op);
    File* f = get(fd, op);
    if (!f) return -1;
    Pin p(f);
    if (f->kind == F_EVENT) {
        if (n < 8) { errno = EINVAL; return -1; }
        check_range(b, 8, false, pc);
        u64 v; memcpy(&v, b, 8); return ev_write(f, v);
    }
    if (f->kind == F_TIMER) { errno = EINVAL; return -1; }
    check_range(b, n, false, pc);
    return do_send(f, b, n, flags, op);
}
static int do_poll(pollfd* p, nfds_t n, i64 timeout_ns, void* pc) {
    check_range(p, n * sizeof *p, false, pc);
    std::vector<File*> fl(n, nullptr); std::vector<short> ev(n, 0); std::vector<char> bad(n, 0);
    for (nfds_t i = 0; i < n; i++) {
        ev[i] = p[i].events;
        if (p[i].fd < 0) continue;
        fl[i] = get(p[i].fd, "poll");
        if (fl[i]) fl[i]->refs++; else bad[i] = 1;
    }
    auto rdy = [&](nfds_t i) -> short {
        if (bad[i]) return POLLNVAL;
        if (!fl[i]) return 0;
        return file_poll(fl[i]) & (ev[i] | POLLERR | POLLHUP);
    };
    auto any_ready = [&] { for (nfds_t i = 0; i < n; i++) if (rdy(i)) return true; return false; };
    i64 dl = timeout_ns < 0 ? -1 : g_now + timeout_ns;
    int rc = 0;
    bool intr = false;
    if (timeout_ns) touch_v(7);
    if (timeout_ns > 0) touch_r(g_clock);
    if (timeout_ns && g_eintr && !any_ready()) {
        int c = env_choice1(timeout_ns > 0 ? 3 : 2, "EINTR in poll");
        if (c == 1) intr = true;
        if (c == 2) {
            i64 half = g_now + timeout_ns / 2;
            op_point([&] { return any_ready() || g_now >= half; }, "poll", half);
            touch_r(g_clock);
            if (!any_ready()) intr = true;
        }
    }
    int sp = 0; std::vector<std::pair<nfds_t, short>> cand;       // a socket reported ready that is not
    if (timeout_ns && g_scn->spurious && !intr) {
        for (nfds_t i = 0; i < n; i++) if (fl[i] && (fl[i]->kind == F_SOCK || fl[i]->kind == F_LISTEN)) for (short b : {(short)POLLIN, (short)POLLOUT}) if ((ev[i] & b) && !(rdy(i) & b)) cand.push_back({i, b});
        if (!cand.empty()) sp = env_choice1(1 + std::min<size_t>(cand.size(), 8), "readiness reported although there is none");
    }
    if (intr) { rc = -1; }
    else {
        if (!sp) op_point([&] { return any_ready() || (dl >= 0 && g_now >= dl); }, "poll", dl);
        check_range(p, n * sizeof *p, true, pc);
        for (nfds_t i = 0; i < n; i++) {
            short r = rdy(i); if (sp && cand[sp - 1].first == i) r |= cand[sp - 1].second;
            p[i].revents = r; touch_v(r);
            if (r) {
                rc++;
                if (fl[i] && (fl[i]->kind == F_EVENT || fl[i]->kind == F_TIMER)) { touch_r(fl[i]->o); hb_acquire(fl[i]->o); }
                if (fl[i]) TR("poll: %d ready %#x", p[i].fd, r);
            }
        }
        if (!rc) { touch_r(g_clock); TR("poll: timeout"); }
    }
    for (nfds_t i = 0; i < n; i++) if (fl[i]) unpin(fl[i]);
    if (rc < 0) errno = EINTR;
    return rc;
}

void kern_end_checks() {
    if (!g_scn->may_leave_fds) {
        std::string s; int n = 0;
        for (File* f : K->files) if (f->open && !f->ext) {
            static const char* kn[] = {"socket", "listening socket", "eventfd", "timerfd"};
            s += std::string(" ") + kn[f->kind] + " " + std::to_string(f->fd); n++;
        }
        if (n) violation(K_FD, "%d descriptors never closed:%s", n, s.c_str());
    }
    for (int i = 1; i < nfibers; i++) if (fibers[i].library && fibers[i].finished && !fibers[i].detached && !fibers[i].joined)
        violation(K_LEAK, "a thread was neither joined nor detached");
}

// ------------------------------------------------------------------------------------------ scenario API
bool fd_open(int fd) { Host h; File* f = any(fd); if (f) touch_r(f->o); return f && f->open; }
int open_fds() { int n = 0; for (File* f : K->files) n += f->open && !f->ext; return n; }
int open_fds_of(int kind) { int n = 0; for (File* f : K->files) n += f->open && !f->ext && f->kind == kind; return n; }
void expect_fds_open(int n) { int k = open_fds(); if (k != n) fail("%d descriptors are open, expected %d", k, n); }
void pair(int family, int fds[2], size_t c0, size_t c1) {
    Host h;
    File* a = mk(F_SOCK, false); File* b = mk(F_SOCK, true);
    a->family = b->family = family == TCP ? AF_INET : AF_UNIX;
    link_pair(a, b);
    if (c0 != (size_t)-1) a->out->cap = c0;
    if (c1 != (size_t)-1) b->out->cap = c1;
    fds[0] = give_fd(a); fds[1] = give_fd(b);
}
static File* sck(int fd) { File* f = any(fd); if (!f || !f->out) { violation(K_PROP, "the connection the scenario expects is not there (descriptor %d)", fd); abort_execution(); } return f; }
void inject(int fd, const std::string& s, bool eof) {
    Host h;
    File* f = sck(fd);
    touch_w(f->in->o);
    f->in->log += s; f->in->times.push_back({g_now, f->in->log.size()});
    if (eof) { f->in->wr_shut = true; if (f->family == AF_UNIX) f->shut_rd = true; }
}
std::string wire(int fd) { Host h; touch_r(sck(fd)->out->o); return sck(fd)->out->log + sck(fd)->out->lost; }
std::vector<std::pair<i64, size_t>> wire_times(int fd) { Host h; touch_r(sck(fd)->out->o); return sck(fd)->out->times; }
size_t unread(int fd) { Host h; touch_r(sck(fd)->out->o); return sck(fd)->out->used(); }
bool peer_saw_eof(int fd) { Host h; touch_r(sck(fd)->out->o); return sck(fd)->out->wr_shut || (sck(fd)->peer && sck(fd)->peer->rst); }
void set_cap(int fd, size_t cap) { Host h; touch_w(sck(fd)->out->o); sck(fd)->out->cap = cap; }
ssize_t p_send(int fd, const std::string& s) {
    Host h;
    op_point("peer send");
    File* f = sck(fd); Pin p(f);
    if (!f->open) { errno = EBADF; return -1; }
    return do_send(f, s.data(), s.size(), MSG_NOSIGNAL, "send");
}
std::string p_recv(int fd, size_t max) {
    Host h;
    op_point("peer recv");
    File* f = sck(fd); Pin p(f);
    std::string b(std::min<size_t>(max, 1 << 20), 0);
    ssize_t r = do_recv(f, &b[0], b.size(), 0, "recv");
    b.resize(r > 0 ? r : 0);
    return b;
}
std::string p_recv_exact(int fd, size_t n) {
    std::string s;
    while (s.size() < n) { std::string x = p_recv(fd, n - s.size()); if (x.empty()) break; s += x; }
    return s;
}
void p_close(int fd) { Host h; op_point("peer close"); do_close(fd); }
void p_shutdown_wr(int fd) { Host h; op_point("peer shutdown"); do_shutdown(sck(fd), SHUT_WR); }
static socklen_t mkaddr(int family, const std::string& host, int port, sockaddr_storage& ss) {
    memset(&ss, 0, sizeof ss);
    if (family == TCP) {
        auto* a = (sockaddr_in*)&ss; a->sin_family = AF_INET; a->sin_port = htons(port); inet_aton(host.c_str(), &a->sin_addr);
        return sizeof *a;
    }
    auto* a = (sockaddr_un*)&ss; a->sun_family = AF_UNIX; strncpy(a->sun_path, host.c_str(), sizeof a->sun_path - 1);
    return sizeof *a;
}
int p_connect(int family, const std::string& host, int port) {
    Host h;
    op_point("peer connect");
    sockaddr_storage ss; socklen_t l = mkaddr(family, host, port, ss);
    int fd = do_socket(family == TCP ? AF_INET : AF_UNIX, SOCK_STREAM, true);
    if (do_connect(any(fd), (sockaddr*)&ss, l)) { do_close(fd); return -1; }
    return fd;
}
int p_listen(int family, const std::string& host, int port, int backlog) {
    Host h;
    op_point("peer listen");
    sockaddr_storage ss; socklen_t l = mkaddr(family, host, port, ss);
    int fd = do_socket(family == TCP ? AF_INET : AF_UNIX, SOCK_STREAM, true);
    any(fd)->reuse = true;
    if (do_bind(any(fd), (sockaddr*)&ss, l) || do_listen(any(fd), backlog)) { do_close(fd); return -1; }
    return fd;
}
int p_accept(int lfd) {
    Host h;
    op_point("peer accept");
    File* l = any(lfd); Pin p(l);
    return do_accept(l, 0);
}
void net_blackhole(const std::string& ip, int port) { Host h; in_addr a; inet_aton(ip.c_str(), &a); K->blackholes.insert(ipkey(ntohl(a.s_addr), port)); }
void refuse(int kinds, int from) { Host h; touch_w(K->refusal); K->refuse = kinds; K->refuse_from = from; }
int refused() { Host h; touch_r(K->refusal); return K->refused; }
void sys_fail(const char* call, int err, int after) { Host h; K->faults.push_back({call, {after, err}}); }
void net_error(const std::string& ip, int port, int err) { Host h; in_addr a; inet_aton(ip.c_str(), &a); K->conn_errs[ipkey(ntohl(a.s_addr), port)] = err; }
void net_delay(const std::string& ip, int port, double s) { Host h; in_addr a; inet_aton(ip.c_str(), &a); K->delays[ipkey(ntohl(a.s_addr), port)] = s; }
bool file_exists(const std::string& p) { Host h; touch_r(K->fs); return K->paths.count(p); }
void file_create(const std::string& p, bool dir) { Host h; touch_w(K->fs); K->paths[p] = nullptr; if (dir) K->dirs.insert(p); }
void sys_unlink(const std::string& p) { Host h; touch_w(K->fs); K->paths.erase(p); K->dirs.erase(p); }
std::vector<int> accepted_fds() { Host h; return K->accepted; }
std::vector<int> connected_fds() { Host h; return K->connected; }
int last_accepted_fd() { Host h; return K->accepted.empty() ? -1 : K->accepted.back(); }

}  // namespace sim

using namespace sim;
#define SUT (g_active && !cur->host)

// ------------------------------------------------------------------------------------------ system calls
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, poll, struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* p, nfds_t n, int t) {
    if (!SUT) return __real_poll(p, n, t);
    Host h; return do_poll(p, n, t < 0 ? -1 : (i64)t * 1000000, PC);
}
REAL(int, ppoll, struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* s) {
    if (!SUT) return __real_ppoll(p, n, t, s);
    Host h; return do_poll(p, n, t ? (i64)t->tv_sec * 1000000000ll + t->tv_nsec : -1, PC);
}
REAL(int, select, int, fd_set*, fd_set*, fd_set*, struct timeval*);
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
    if (!SUT) return __real_select(n, r, w, e, t);
    Host h;
    if (n > FD_SETSIZE) n = FD_SETSIZE;
    std::vector<pollfd> p;
    for (int i = 0; i < n; i++) {
        short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0) | (e && FD_ISSET(i, e) ? POLLPRI : 0);
        if (ev) p.push_back(pollfd{i, ev, 0});
    }
    int k = do_poll(p.data(), p.size(), t ? (i64)t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1, PC);
    if (k < 0) return k;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    k = 0;
    for (auto& x : p) {
        if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); k++; }
        if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); k++; }
    }
    return k;
}
REAL(ssize_t, read, int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!SUT) return __real_read(fd, b, n); Host h; return file_read(fd, (char*)b, n, 0, "read", PC); }
REAL(ssize_t, write, int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!SUT || (fd >= 0 && fd <= 2)) return __real_write(fd, b, n); Host h; return file_write(fd, (const char*)b, n, 0, "write", PC); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { Host h; return file_write(fd, (const char*)b, n, fl, "send", PC); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { Host h; return file_write(fd, (const char*)b, n, fl, "sendto", PC); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { Host h; return file_read(fd, (char*)b, n, fl, "recv", PC); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { Host h; return file_read(fd, (char*)b, n, fl, "recvfrom", PC); }
static ssize_t vec_write(int fd, const struct iovec* v, int n, int fl, void* pc) {
    std::string s; for (int i = 0; i < n; i++) { check_range(v[i].iov_base, v[i].iov_len, false, pc); s.append((char*)v[i].iov_base, v[i].iov_len); }
    return file_write(fd, s.data(), s.size(), fl, "writev", pc);
}
static ssize_t vec_read(int fd, const struct iovec* v, int n, int fl, void* pc) {
    size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len;
    std::string s(t, 0);
    ssize_t r = file_read(fd, &s[0], t, fl, "readv", pc);
    size_t o = 0;
    for (int i = 0; i < n && r > 0 && o < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - o); check_range(v[i].iov_base, k, true, pc); memcpy(v[i].iov_base, s.data() + o, k); o += k; }
    return r;
}
REAL(ssize_t, writev, int, const struct iovec*, int);
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (!SUT || (fd >= 0 && fd <= 2)) return __real_writev(fd, v, n); Host h; return vec_write(fd, v, n, 0, PC); }
REAL(ssize_t, readv, int, const struct iovec*, int);
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { if (!SUT) return __real_readv(fd, v, n); Host h; return vec_read(fd, v, n, 0, PC); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) { Host h; return vec_write(fd, m->msg_iov, m->msg_iovlen, fl, PC); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl) { Host h; return vec_read(fd, m->msg_iov, m->msg_iovlen, fl, PC); }
REAL(int, close, int);
int __wrap_close(int fd) {
    if (!SUT) return __real_close(fd);
    Host h;
    if (fd < 0) { errno = EBADF; return -1; }
    op_point("close");
    return do_close(fd);
}
int __wrap_shutdown(int fd, int how) {
    Host h;
    op_point("shutdown");
    File* f = get(fd, "shutdown");
    if (!f) return -1;
    if (f->kind == F_EVENT || f->kind == F_TIMER) { errno = ENOTSOCK; return -1; }
    if (f->kind != F_SOCK || f->ss != S_CONN) { errno = ENOTCONN; return -1; }
    TR("shutdown %d", fd);
    if (f->family == AF_INET && (f->rst || (f->shut_wr && f->in->wr_shut))) { if (how != SHUT_WR) f->shut_rd = true; errno = ENOTCONN; return -1; }
    do_shutdown(f, how);
    return 0;
}
int __wrap_socket(int fam, int type, int) { Host h; if (sys_fault("socket") || is_refused(1, "socket")) return -1; int r = do_socket(fam, type, false); TR("socket -> %d", r); return r; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) {
    Host h; op_point("bind");
    File* f = get(fd, "bind"); if (!f) return -1;
    if (sys_fault("bind")) return -1;
    return do_bind(f, a, l);
}
int __wrap_listen(int fd, int n) {
    Host h; op_point("listen");
    File* f = get(fd, "listen"); if (!f) return -1;
    if (sys_fault("listen")) return -1;
    return do_listen(f, n);
}
static void fill_addr(File* f, struct sockaddr* a, socklen_t* l) {
    if (!a || !l) return;
    if (f->family == AF_INET) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(f->port); s.sin_addr.s_addr = htonl(f->ip); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
    else { sockaddr_un s; memset(&s, 0, sizeof s); s.sun_family = AF_UNIX; strncpy(s.sun_path, f->path.c_str(), sizeof s.sun_path - 1); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = offsetof(sockaddr_un, sun_path) + f->path.size() + 1; }
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
    Host h; op_point("accept");
    File* f = get(fd, "accept"); if (!f) return -1;
    if (fl & ~(SOCK_NONBLOCK | SOCK_CLOEXEC)) { errno = EINVAL; return -1; }
    if (sys_fault("accept")) return -1;
    Pin p(f);
    int r = do_accept(f, fl);
    TR("accept -> %d", r);
    if (r >= 0 && any(r)->peer) fill_addr(any(r)->peer, a, l);
    return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
    Host h; op_point("accept");
    File* f = get(fd, "accept"); if (!f) return -1;
    if (sys_fault("accept")) return -1;
    Pin p(f);
    int r = do_accept(f, 0);
    TR("accept -> %d", r);
    if (r >= 0 && any(r)->peer) fill_addr(any(r)->peer, a, l);
    return r;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) {
    Host h; op_point("connect");
    File* f = get(fd, "connect"); if (!f) return -1;
    if (sys_fault("connect")) return -1;
    Pin p(f);
    int r = do_connect(f, a, l);
    int e = errno;
    if (!r || e == EINPROGRESS) K->connected.push_back(fd);
    TR("connect %d -> %d (%s)", fd, r, r ? strerror(e) : "ok");
    errno = e;
    return r;
}
int __wrap_getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
    Host h;
    File* f = get(fd, "getsockopt"); if (!f) return -1;
    if (f->kind == F_EVENT || f->kind == F_TIMER) { errno = ENOTSOCK; return -1; }
    int r = 0;
    if (level == SOL_SOCKET) switch (opt) {
        case SO_DOMAIN: r = f->family; break;
        case SO_TYPE: r = SOCK_STREAM; break;
        case SO_ERROR: op_point("getsockopt SO_ERROR"); if (f->in) touch_r(f->in->o); touch_r(f->o); r = f->err; f->err = 0; break;
        case SO_ACCEPTCONN: r = f->kind == F_LISTEN; break;
        case SO_SNDBUF: case SO_RCVBUF: r = 65536; break;
        default: r = 0;
    }
    if (!l || *l < sizeof r) { errno = EINVAL; return -1; }
    memcpy(v, &r, sizeof r); *l = sizeof r;
    return 0;
}
int __wrap_setsockopt(int fd, int level, int opt, const void* v, socklen_t l) {
    Host h;
    File* f = get(fd, "setsockopt"); if (!f) return -1;
    if (level == SOL_SOCKET && opt == SO_REUSEADDR && l >= 4) f->reuse = *(const int*)v;
    if (level == SOL_SOCKET && opt == SO_SNDTIMEO && l >= sizeof(timeval)) { auto* t = (const timeval*)v; if (t->tv_usec < 0 || t->tv_usec >= 1000000) { errno = EDOM; return -1; } f->sndtimeo = t->tv_sec < 0 ? 0 : t->tv_sec * 1000000000ll + t->tv_usec * 1000ll; }
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) { Host h; File* f = get(fd, "getsockname"); if (!f) return -1; fill_addr(f, a, l); return 0; }
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    Host h; File* f = get(fd, "getpeername"); if (!f) return -1;
    if (f->in) touch_r(f->in->o);
    if (f->ss != S_CONN || !f->peer || (f->rst && f->family == AF_INET)) { errno = ENOTCONN; return -1; }
    fill_addr(f->peer, a, l); return 0;
}
REAL(int, fcntl, int, int, long);
static int do_fcntl(int fd, int cmd, long arg) {
    Host h;
    File* f = get(fd, "fcntl"); if (!f) return -1;
    switch (cmd) {
        case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
        case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
        case F_GETFD: return 0;
        case F_SETFD: return 0;
    }
    errno = EINVAL; return -1;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!SUT) return __real_fcntl(fd, cmd, arg);
    return do_fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!SUT) return __real_fcntl(fd, cmd, arg);
    return do_fcntl(fd, cmd, arg);
}
REAL(int, ioctl, int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    if (!SUT) return __real_ioctl(fd, req, arg);
    Host h;
    File* f = get(fd, "ioctl"); if (!f) return -1;
    if (req == FIONBIO) { f->nonblock = *(int*)arg; return 0; }
    if (req == FIONREAD) { if (f->in) touch_r(f->in->o); *(int*)arg = f->in ? f->in->used() : 0; return 0; }
    errno = EINVAL; return -1;
}
int __wrap_eventfd(unsigned init, int fl) {
    Host h; if (fl & ~(EFD_NONBLOCK | EFD_SEMAPHORE | EFD_CLOEXEC)) { errno = EINVAL; return -1; }
    if (is_refused(1, "eventfd")) return -1;
    File* f = mk(F_EVENT, false); f->cnt = init; f->nonblock = fl & EFD_NONBLOCK; f->sema = fl & EFD_SEMAPHORE;
    int r = give_fd(f); TR("eventfd -> %d", r); return r;
}
int __wrap_eventfd_read(int fd, eventfd_t* v) { Host h; u64 x; ssize_t r = file_read(fd, (char*)&x, 8, 0, "read", PC); if (r == 8) *v = x; return r == 8 ? 0 : -1; }
int __wrap_eventfd_write(int fd, eventfd_t v) { Host h; u64 x = v; return file_write(fd, (char*)&x, 8, 0, "write", PC) == 8 ? 0 : -1; }
int __wrap_timerfd_create(int clk, int fl) { Host h; if ((fl & ~(TFD_NONBLOCK | TFD_CLOEXEC)) || (clk != CLOCK_MONOTONIC && clk != CLOCK_REALTIME && clk != CLOCK_BOOTTIME)) { errno = EINVAL; return -1; } if (is_refused(1, "timerfd_create")) return -1; File* f = mk(F_TIMER, false); f->nonblock = fl & TFD_NONBLOCK; int r = give_fd(f); TR("timerfd -> %d", r); return r; }
static void tm_get(File* f, struct itimerspec* o) {
    i64 rem = f->expiry < 0 ? 0 : f->expiry - g_now;
    o->it_value.tv_sec = rem / 1000000000; o->it_value.tv_nsec = rem % 1000000000;
    o->it_interval.tv_sec = f->interval / 1000000000; o->it_interval.tv_nsec = f->interval % 1000000000;
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec* n, struct itimerspec* o) {
    Host h; op_point("timerfd_settime");
    File* f = get(fd, "timerfd_settime"); if (!f) return -1;
    if (f->kind != F_TIMER || (fl & ~3)) { errno = EINVAL; return -1; }
    auto ok = [](const timespec& t) { return t.tv_sec >= 0 && t.tv_nsec >= 0 && t.tv_nsec < 1000000000; };
    if (!ok(n->it_value) || !ok(n->it_interval)) { errno = EINVAL; return -1; }
    if (o) tm_get(f, o);
    touch_r(g_clock); touch_w(f->o); hb_acquire(f->o); hb_release(f->o);
    auto sat = [](const timespec& t) -> i64 { return t.tv_sec > 9000000000ll ? (i64)9000000000000000000ll : (i64)t.tv_sec * 1000000000ll + t.tv_nsec; };
    i64 v = sat(n->it_value);
    f->interval = sat(n->it_interval);
    f->exps = 0;
    if (!v) f->expiry = -1;
    else if (fl & TFD_TIMER_ABSTIME) f->expiry = std::max<i64>(0, v - 1000 * 1000000000ll);
    else f->expiry = v > (i64)8e18 ? (i64)9e18 : g_now + v;
    if (f->expiry >= 0 && f->expiry <= g_now) { f->exps = 1; f->expiry = -1; }
    return 0;
}
int __wrap_timerfd_gettime(int fd, struct itimerspec* o) { Host h; File* f = get(fd, "timerfd_gettime"); if (!f) return -1; touch_r(f->o); touch_r(g_clock); tm_get(f, o); return 0; }

REAL(int, unlink, const char*);
int __wrap_unlink(const char* p) {
    if (!SUT) { errno = EPERM; return -1; }
    Host h; op_point("unlink");
    touch_w(K->fs);
    TR("unlink %s", p);
    if (K->dirs.count(p)) { errno = EISDIR; return -1; }
    if (!K->paths.erase(p)) { errno = ENOENT; return -1; }
    return 0;
}
int __wrap_remove(const char* p) { if (SUT && K->dirs.erase(p)) { Host h; op_point("remove"); touch_w(K->fs); K->paths.erase(p); return 0; } return __wrap_unlink(p); }
int __wrap_access(const char* p, int) { if (!SUT) { errno = ENOENT; return -1; } Host h; op_point("access"); touch_r(K->fs); if (K->paths.count(p)) return 0; errno = ENOENT; return -1; }
int __wrap_stat(const char* p, struct stat* st) {
    if (!SUT) { errno = ENOENT; return -1; }
    Host h; op_point("stat"); touch_r(K->fs);
    auto it = K->paths.find(p);
    if (it == K->paths.end()) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = (K->dirs.count(p) ? S_IFDIR : it->second ? S_IFSOCK : S_IFREG) | 0755; return 0;
}
int __wrap_lstat(const char* p, struct stat* st) { return __wrap_stat(p, st); }

// ------------------------------------------------------------------------------------------ time
REAL(int, clock_gettime, clockid_t, struct timespec*);
static const i64 EPOCH = 1700000000ll;
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
    if (!SUT) return __real_clock_gettime(c, t);
    Host h; touch_r(g_clock);
    i64 base = c == CLOCK_REALTIME ? EPOCH : 1000;
    t->tv_sec = base + g_now / 1000000000; t->tv_nsec = g_now % 1000000000; return 0;
}
REAL(int, gettimeofday, struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* t, void* z) {
    if (!SUT) return __real_gettimeofday(t, z);
    Host h; touch_r(g_clock); t->tv_sec = EPOCH + g_now / 1000000000; t->tv_usec = g_now % 1000000000 / 1000; return 0;
}
REAL(time_t, time, time_t*);
time_t __wrap_time(time_t* p) {
    if (!SUT) return __real_time(p);
    Host h; touch_r(g_clock); time_t t = EPOCH + g_now / 1000000000; if (p) *p = t; return t;
}
static void do_sleep(i64 ns) {
    i64 dl = g_now + (ns < 0 ? 0 : ns);
    touch_r(g_clock);
    op_point([dl] { return g_now >= dl; }, "sleep", dl);
    touch_r(g_clock);
}
REAL(unsigned, sleep, unsigned);
unsigned __wrap_sleep(unsigned s) { if (!SUT) return __real_sleep(s); Host h; do_sleep((i64)s * 1000000000); return 0; }
REAL(int, usleep, useconds_t);
int __wrap_usleep(useconds_t u) { if (!SUT) return __real_usleep(u); Host h; do_sleep((i64)u * 1000); return 0; }
REAL(int, nanosleep, const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!SUT) return __real_nanosleep(t, r); Host h; do_sleep((i64)t->tv_sec * 1000000000 + t->tv_nsec); return 0; }
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) {
    if (!SUT) return __real_clock_nanosleep(c, fl, t, r);
    Host h; i64 v = (i64)t->tv_sec * 1000000000 + t->tv_nsec;
    if (fl & TIMER_ABSTIME) v -= (c == CLOCK_REALTIME ? EPOCH : 1000) * 1000000000 + g_now;
    do_sleep(v); return 0;
}
REAL(int, sched_yield, void);
int __wrap_sched_yield(void) {
    if (!SUT) return __real_sched_yield();
    Host h; cur->run_len += 50; op_point("yield"); return 0;
}

// ------------------------------------------------------------------------------------------ threads
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!SUT) return __real_pthread_create(t, a, fn, arg);
    Host h;
    op_point("thread start");
    if (is_refused(2, "pthread_create")) return EAGAIN;
    int k = 1;
    for (int i = 1; i < nfibers; i++) k += fibers[i].library;
    static const char* names[] = {"?", "lib-thread-1", "lib-thread-2", "lib-thread-3", "lib-thread-4", "lib-thread-5", "lib-thread-6", "lib-thread-7", "lib-thread-8", "lib-thread-9", "lib-thread-n"};
    int s = new_fiber(names[k > 10 ? 10 : k], true);
    fibers[s].start = fn; fibers[s].arg = arg;
    check_range(t, sizeof *t, true, PC);
    *t = (pthread_t)(s + 1);
    TR("starts %s", fibers[s].name);
    return 0;
}
static Fiber* fib(pthread_t t) { u64 i = (u64)t - 1; return i < (u64)nfibers ? &fibers[i] : nullptr; }
REAL(int, pthread_join, pthread_t, void**);
int __wrap_pthread_join(pthread_t t, void** r) {
    if (!SUT) return __real_pthread_join(t, r);
    Host h;
    op_point("join");
    Fiber* f = fib(t);
    if (!f) return ESRCH;
    if (f == cur) return EDEADLK;
    if (f->detached || f->joined) return EINVAL;
    op_point([f] { return f->finished; }, "join");
    f->joined = true;
    touch_r(f->end); hb_acquire(f->end);
    if (r) *r = nullptr;
    return 0;
}
REAL(int, pthread_detach, pthread_t);
int __wrap_pthread_detach(pthread_t t) {
    if (!SUT) return __real_pthread_detach(t);
    Fiber* f = fib(t);
    if (!f) return ESRCH;
    if (f->detached || f->joined) return EINVAL;
    f->detached = true;
    return 0;
}
REAL(pthread_t, pthread_self, void);
pthread_t __wrap_pthread_self(void) { if (!g_active) return __real_pthread_self(); return (pthread_t)(cur->slot + 1); }
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }

static bool mx_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static bool mx_check(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK; }
static int mx_lock(pthread_mutex_t* m, bool try_, i64 dl, void* pc) {
    int me = cur->slot;
    Mutex& x = K->mutexes[m];
    if (x.owner == me) {
        if (mx_recursive(m)) { x.depth++; return 0; }
        if (mx_check(m)) return EDEADLK;
    }
    if (try_) {
        op_point("try lock");
        touch_w(x.o);
        if (x.owner >= 0) return EBUSY;
    } else {
        op_point([&x, dl] { return x.owner < 0 || (dl >= 0 && g_now >= dl); }, "lock mutex", dl);
        if (x.owner >= 0) { touch_r(g_clock); touch_w(x.o); return ETIMEDOUT; }
        touch_w(x.o);
    }
    x.owner = me; x.depth = 1;
    hb_acquire(x.o);
    check_range(m, 8, false, pc);
    return 0;
}
static int mx_unlock(pthread_mutex_t* m, void* pc) {
    Mutex& x = K->mutexes[m];
    if (x.owner != cur->slot) {
        if (mx_recursive(m) || mx_check(m)) return EPERM;
        violation(K_CRASH, "a mutex is unlocked by a thread that does not hold it (%s)", cur->name);
        if (x.owner < 0) return 0;
    }
    check_range(m, 8, false, pc);
    if (--x.depth > 0) return 0;
    x.owner = -1; x.depth = 0;
    touch_w(x.o); hb_release(x.o);
    return 0;
}
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!SUT) return g_active ? 0 : __real_pthread_mutex_lock(m); Host h; return mx_lock(m, false, -1, PC); }
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!SUT) return g_active ? 0 : __real_pthread_mutex_trylock(m); Host h; return mx_lock(m, true, -1, PC); }
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!SUT) return g_active ? 0 : __real_pthread_mutex_unlock(m); Host h; return mx_unlock(m, PC); }
static i64 absdl(clockid_t c, const struct timespec* t) { return (i64)t->tv_sec * 1000000000 + t->tv_nsec - (c == CLOCK_REALTIME ? EPOCH : 1000) * 1000000000; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (!SUT) return 0; Host h; return mx_lock(m, false, std::max<i64>(0, absdl(CLOCK_REALTIME, t)), PC); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { if (!SUT) return 0; Host h; return mx_lock(m, false, std::max<i64>(0, absdl(c, t)), PC); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (g_active) { Host h; K->mutexes.erase(m); }
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!SUT) return 0;
    Host h;
    auto it = K->mutexes.find(m);
    if (it != K->mutexes.end() && it->second.owner >= 0) violation(K_CRASH, "a locked mutex is destroyed");
    return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 dl, void* pc) {
    Cond& x = K->conds[c];
    int me = cur->slot;
    op_point("condition wait");
    touch_w(x.o);
    Mutex& mu = K->mutexes[m];
    int depth = mu.depth; mu.depth = 1;
    mx_unlock(m, pc);
    x.waiters.push_back(me);
    if (g_scn->spurious && env_choice1(2, "spurious wake-up")) { x.waiters.erase(std::find(x.waiters.begin(), x.waiters.end(), me)); mx_lock(m, false, -1, pc); K->mutexes[m].depth = depth; return 0; }
    auto woken = [&x, me] { return std::find(x.woken.begin(), x.woken.end(), me) != x.woken.end(); };
    op_point([&] { return woken() || (dl >= 0 && g_now >= dl); }, "condition wait", dl);
    touch_w(x.o);
    int rc = 0;
    auto it = std::find(x.woken.begin(), x.woken.end(), me);
    if (it != x.woken.end()) { x.woken.erase(it); hb_acquire(x.o); }
    else { rc = ETIMEDOUT; touch_r(g_clock); x.waiters.erase(std::find(x.waiters.begin(), x.waiters.end(), me)); }
    mx_lock(m, false, -1, pc);
    K->mutexes[m].depth = depth;
    return rc;
}
static void cv_signal(pthread_cond_t* c, bool all) {
    Cond& x = K->conds[c];
    op_point("condition signal");
    touch_w(x.o); hb_release(x.o);
    if (!all && x.waiters.size() > 1) {      // any of them
        int k = env_choice((int)x.waiters.size(), nullptr, "which waiter is woken");
        x.woken.push_back(x.waiters[k]); x.waiters.erase(x.waiters.begin() + k); return;
    }
    while (!x.waiters.empty()) { x.woken.push_back(x.waiters.front()); x.waiters.erase(x.waiters.begin()); if (!all) break; }
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { Host h; check_range(c, 8, false, PC); return cv_wait(c, m, -1, PC); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { Host h; return cv_wait(c, m, std::max<i64>(0, absdl(CLOCK_REALTIME, t)), PC); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { Host h; return cv_wait(c, m, std::max<i64>(0, absdl(k, t)), PC); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!SUT) return 0; Host h; check_range(c, 8, false, PC); cv_signal(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!SUT) return 0; Host h; check_range(c, 8, false, PC); cv_signal(c, true); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (!SUT) return 0;
    Host h;
    auto it = K->conds.find(c);
    if (it != K->conds.end() && !it->second.waiters.empty()) violation(K_CRASH, "a condition variable is destroyed while a thread waits on it");
    return 0;
}
static int rw_lock(pthread_rwlock_t* l, bool w, bool try_) {
    RW& x = K->rws[l];
    auto ok = [&x, w] { return x.writer < 0 && (!w || !x.readers); };
    if (try_) { op_point("try rwlock"); touch_w(x.o); if (!ok()) return EBUSY; }
    else op_point(ok, w ? "write lock" : "read lock");
    touch_w(x.o); hb_acquire(x.o);
    if (w) x.writer = cur->slot; else x.readers++;
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!SUT) return 0; Host h; return rw_lock(l, false, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!SUT) return 0; Host h; return rw_lock(l, true, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!SUT) return 0; Host h; return rw_lock(l, false, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!SUT) return 0; Host h; return rw_lock(l, true, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!SUT) return 0;
    Host h; check_range(l, 8, false, PC);
    RW& x = K->rws[l];
    if (x.writer == cur->slot) x.writer = -1; else if (x.readers) x.readers--;
    touch_w(x.o); hb_release(x.o);
    return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int __wrap_sem_init(sem_t* s, int, unsigned v) { Host h; if (g_active) K->sems[s].v = v; return 0; }
int __wrap_sem_destroy(sem_t*) { return 0; }
int __wrap_sem_post(sem_t* s) { Host h; op_point("sem_post"); Sem& x = K->sems[s]; touch_w(x.o); hb_acquire(x.o); hb_release(x.o); x.v++; return 0; }
int __wrap_sem_wait(sem_t* s) {
    Host h; Sem& x = K->sems[s];
    if (!x.v && g_eintr && env_choice1(2, "EINTR in sem_wait")) { errno = EINTR; return -1; }
    op_point([&x] { return x.v > 0; }, "sem_wait"); touch_w(x.o); hb_acquire(x.o); hb_release(x.o); x.v--; return 0;
}
int __wrap_sem_trywait(sem_t* s) { Host h; Sem& x = K->sems[s]; op_point("sem_trywait"); touch_w(x.o); if (!x.v) { errno = EAGAIN; return -1; } hb_acquire(x.o); x.v--; return 0; }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) {
    Host h; Sem& x = K->sems[s]; i64 dl = std::max<i64>(0, absdl(CLOCK_REALTIME, t));
    op_point([&x, dl] { return x.v > 0 || g_now >= dl; }, "sem_timedwait", dl); touch_w(x.o);
    if (!x.v) { touch_r(g_clock); errno = ETIMEDOUT; return -1; }
    hb_acquire(x.o); x.v--; return 0;
}
// futexes: std::future, std::atomic::wait, C++20 semaphores
long __real_syscall(long, ...);
long __wrap_syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
    if (!SUT) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (n == SYS_gettid) return 5000 + cur->slot;
    if (n != SYS_futex) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    Host h;
    int op = a[1] & 127;
    const void* addr = (const void*)a[0];
    Fut& x = K->futs[addr];
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        op_point("futex wake"); touch_w(x.o); hb_acquire(x.o); hb_release(x.o);
        long k = 0; while (!x.waiters.empty() && k < a[2]) { x.waiters.erase(x.waiters.begin()); k++; }
        return k;
    }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        op_point("futex wait"); touch_w(x.o);
        if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
        i64 dl = -1;
        if (a[3]) { auto* t = (const timespec*)a[3]; dl = op == FUTEX_WAIT ? g_now + (i64)t->tv_sec * 1000000000 + t->tv_nsec : std::max<i64>(0, absdl(a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t)); }
        int me = cur->slot; x.waiters.push_back(me);
        auto in = [&x, me] { return std::find(x.waiters.begin(), x.waiters.end(), me) != x.waiters.end(); };
        op_point([&] { return !in() || (dl >= 0 && g_now >= dl); }, "futex wait", dl);
        touch_w(x.o); hb_acquire(x.o);
        if (in()) { x.waiters.erase(std::find(x.waiters.begin(), x.waiters.end(), me)); touch_r(g_clock); errno = ETIMEDOUT; return -1; }
        return 0;
    }
    errno = ENOSYS; return -1;
}
void __wrap___stack_chk_fail(void) {
    if (g_active) { Host h; violation(K_CRASH, "stack buffer overflow in thread %s (stack smashing detected)", cur->name); abort_execution(); }
    abort();
}
}
