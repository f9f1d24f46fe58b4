// Helpers shared by the scenario files.
#pragma once
#include "rt.hpp"
#include <cerrno>
#include <poll.h>
#include <unistd.h>
#include "common/wirefmt.hpp"
#include "Connection.hpp"
#include "Client.hpp"
#include "Server.hpp"
#include "values/All.hpp"
using namespace sim;
using namespace DowowNetwork;

// the inline parts of the library's headers, compiled with the same instrumentation as the library (shim.cpp)
namespace shim {
void set_connected(Server* s, ConnectionHandler h);
void set_disconnected(Server* s, ConnectionHandler h);
Connection& get(SafeConnection* s);
void drop(SafeConnection* s);
SafeConnection* copy(SafeConnection* s);
void assign(SafeConnection* a, SafeConnection* b);
}

// --- waiting on a descriptor: the library's own helpers, or plain poll should they be called otherwise
namespace DowowNetwork { namespace Utils {} }
namespace plain {
inline bool SelectRead(long fd, long s) {
    double end = now_s() + s;
    for (;;) { pollfd p{(int)fd, POLLIN, 0}; int r = poll(&p, 1, s < 0 ? -1 : (int)std::min<double>(1e9, (end - now_s()) * 1000)); if (r > 0) return p.revents & POLLIN; if (s >= 0 && now_s() >= end) return false; }
}
inline uint64_t ReadEventFd(long fd, long s) { uint64_t v = 0; return SelectRead(fd, s) && read((int)fd, &v, sizeof v) == sizeof v ? v : 0; }
}
inline bool readable(int fd, int s = 0) { using namespace plain; using namespace DowowNetwork::Utils; return SelectRead(fd, s); }
inline uint64_t read_event(int fd, int s) { using namespace plain; using namespace DowowNetwork::Utils; return ReadEventFd(fd, s); }

// --- requests
inline std::string show(const Request* r) {
    if (!r) return "null";
    return const_cast<Request*>(r)->GetName() + "#" + std::to_string(const_cast<Request*>(r)->GetId());
}
inline std::string enc(const Request* r) {          // what the library would put on the wire
    Request* q = const_cast<Request*>(r);
    const char* b = q->Serialize();
    std::string s(b, q->GetSize());
    delete[] b;
    return s;
}
inline std::string pull(Connection* c, int timeout = 0) {
    Request* r = c->Pull(timeout);
    std::string s = show(r);
    delete r;
    return s;
}
inline Request* mk(const std::string& name, int pad = -1, uint32_t id = 0) {
    Request* r = new Request(name);
    r->SetId(id);
    if (pad >= 0) r->Emplace<ValueStr>("p", std::string(pad, 'x'));
    return r;
}
inline std::string mkw(const std::string& name, int pad, uint32_t id) {      // its encoding
    if (pad < 0) return wf::req(id, name);
    return wf::req(id, name, {{"p", wf::vstr(std::string(pad, 'x'))}});
}
// is this message body what the documented format allows?
inline size_t val_len(const std::string& s, size_t i, size_t end) {         // 0: malformed
    if (end - i < 5) return 0;
    int t = (uint8_t)s[i]; uint64_t n = wf::rd(s, i + 1, 4);
    if (t > 10 || n > end - i - 5) return 0;
    size_t b = i + 5, e = b + n;
    static const int w[] = {0, 8, 8, 4, 4, 2, 2, 1, 1};
    if (t >= 1 && t <= 8) { if (n != (uint64_t)w[t]) return 0; }
    else if (t == 9) { if (n < 4 || wf::rd(s, b, 4) != n - 4) return 0; }
    else if (t == 10) {
        if (n < 4) return 0;
        uint64_t c = wf::rd(s, b, 4); size_t k = b + 4;
        while (c) { size_t l = val_len(s, k, e); if (!l) return 0; k += l; c--; }
        if (k != e) return 0;
    }
    return 5 + n;
}
inline bool well_formed(const std::string& m) {
    if (m.size() < 10 || wf::rd(m, 0, 4) != m.size()) return false;
    size_t i = 10 + wf::rd(m, 8, 2);
    if (i > m.size()) return false;
    while (i < m.size()) {
        if (m.size() - i < 6) return false;
        uint64_t n = wf::rd(m, i, 4), nl = wf::rd(m, i + 4, 2);
        if (n > m.size() - i || n < 6 + nl) return false;
        size_t v = val_len(m, i + 6 + nl, i + n);
        if (!v || 6 + nl + v != n) return false;
        i += n;
    }
    return true;
}

// --- handlers that record
inline void h_default(Connection*, Request* r) { mark("D " + show(r)); delete r; }
inline void h_a(Connection*, Request* r) { mark("A " + show(r)); delete r; }
inline void h_b(Connection*, Request* r) { mark("B " + show(r)); delete r; }

// --- connection under test on one end, scripted peer on the other
struct Pair {
    int fds[2]; Connection* c;
    explicit Pair(int family, size_t cap_out = (size_t)-1, size_t cap_in = (size_t)-1) {
        pair(family, fds, cap_out, cap_in);
        c = new Connection(fds[0]);
    }
    int mine() const { return fds[0]; }
    int peer() const { return fds[1]; }
    void recv_from_peer(const std::string& s) { p_send(fds[1], s); }
    std::string out() const { return wire(fds[0]); }
    void drop() { if (c) { Connection* x = c; c = nullptr; delete x; } }
    ~Pair() { drop(); }
};
inline int family() { return choose(2, "family") ? UNIX : TCP; }
inline std::string names_of(const std::string& w, std::string* rest = nullptr) { return wf::names(wf::payload(w, rest)); }
inline bool prefix(const std::string& p, const std::string& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }
// a stream without the keep-alives in it (an incomplete tail is kept)
inline std::string no_ka(const std::string& w) {
    std::string rest, s; for (auto& m : wf::payload(w, &rest)) s += m.raw; return s + rest;
}
// everything of the history that begins with p
inline std::vector<std::string> marks_with(const std::string& p) {
    std::vector<std::string> v; for (auto& h : history()) if (h.compare(0, p.size(), p) == 0) v.push_back(h); return v;
}
inline std::string join_s(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { if (!s.empty()) s += ","; s += x; } return s; }
#define EQ(a, b, what) do { auto _a = (a); decltype(_a) _b = (b); SIM_CHECK(_a == _b, "%s: got '%s', expected '%s'", what, ::sim_str(_a).c_str(), ::sim_str(_b).c_str()); } while (0)
inline std::string sim_str(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; if (o.size() > 160) { o += "..."; break; } } return o; }
inline std::string sim_str(long v) { return std::to_string(v); }
inline std::string sim_str(int v) { return std::to_string(v); }
inline std::string sim_str(size_t v) { return std::to_string(v); }
inline std::string sim_str(bool v) { return v ? "true" : "false"; }
inline std::string sim_str(double v) { char b[48]; snprintf(b, sizeof b, "%.9g", v); return b; }
inline std::string sim_str(long long v) { return std::to_string(v); }
inline std::string sim_str(unsigned v) { return std::to_string(v); }
