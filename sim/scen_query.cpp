// C29: what the settings and queries report. Every sequence of settings and of changes of the state, all getters compared
// with a model after each step.
#include "scen.hpp"
#include <algorithm>

static void h_s1(Server*, Connection*) {}
static void h_s2(Server*, Connection*) {}
static int data_a, data_b;

namespace {
struct Model {
    uint32_t sb = 0, rb = 0, mr = 0; time_t sa = 0, na = 0; void* sd = nullptr; RequestHandler hd = nullptr, hx = nullptr, he = nullptr, hz = nullptr; uint32_t refs = 0;
    int fam = -1;          // -1: not connected
    bool ending = false;   // asked to end, but something is left to be sent
};
}
static const std::string XZ("x\0y", 3);
static void compare(Client* c, const Model& m) {
    EQ(c->GetSendBlockSize(), m.sb, "send block size"); EQ(c->GetRecvBlockSize(), m.rb, "receive block size"); EQ(c->GetMaxRequestSize(), m.mr, "limit");
    EQ((long)c->GetOurSaInterval(), (long)m.sa, "our interval"); EQ((long)c->GetTheirNaIntervalLimit(), (long)m.na, "their interval");
    SIM_CHECK((void*)c->GetSessionData<int>() == m.sd, "another session data"); EQ(c->GetRefs(), m.refs, "references");
    SIM_CHECK(c->GetHandlerDefault() == m.hd, "another default handler"); SIM_CHECK(c->GetHandlerNamed("x") == m.hx, "another handler of 'x'");
    SIM_CHECK(c->GetHandlerNamed("") == m.he, "another handler of the empty name"); SIM_CHECK(c->GetHandlerNamed(XZ) == m.hz, "another handler of the name with a NUL byte");
    SIM_CHECK(!c->GetHandlerNamed("X") && !c->GetHandlerNamed("xx"), "a handler nobody has set");
    EQ(c->tag, std::string("a tag"), "tag"); EQ(c->id, 77u, "the number the user has given it");
    EQ(c->IsConnected(), m.fam >= 0, "connected"); EQ(c->IsDisconnecting(), m.ending, "disconnecting"); EQ(c->IsConnecting(), false, "connecting");
    EQ((int)c->GetType(), m.fam < 0 ? (int)SocketTypeUndefined : m.fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
}
enum { N_SET = 27, N_STATE = 6 };
// a setting; false: makes no sense now
static bool setting(Client* c, Model& m, int op) {
    switch (op) {
        case 0: c->SetSendBlockSize(0); m.sb = 1; break;
        case 1: c->SetSendBlockSize(5); m.sb = 5; break;
        case 2: c->SetSendBlockSize(0xffffffff); m.sb = 0xffffffff; break;
        case 3: c->SetRecvBlockSize(0); m.rb = 1; break;
        case 4: c->SetRecvBlockSize(0x80000001); m.rb = 0x80000001; break;
        case 5: c->SetMaxRequestSize(9); m.mr = 10; break;
        case 6: c->SetMaxRequestSize(11); m.mr = 11; break;
        case 7: c->SetMaxRequestSize(0xffffffff); m.mr = 0xffffffff; break;
        case 8: c->SetOurSaInterval(0); m.sa = 1; break;
        case 9: c->SetOurSaInterval(-5); m.sa = 1; break;
        case 10: c->SetOurSaInterval(5000000000); m.sa = 5000000000; break;
        case 11: c->SetTheirNaIntervalLimit(0); m.na = 1; break;
        case 12: c->SetTheirNaIntervalLimit(7); m.na = 7; break;
        case 13: c->SetSessionData(&data_a); m.sd = &data_a; break;
        case 14: c->SetSessionData(&data_b); m.sd = &data_b; break;
        case 15: c->SetSessionData<int>(nullptr); m.sd = nullptr; break;
        case 16: c->SetHandlerDefault(h_a); m.hd = h_a; break;
        case 17: c->SetHandlerDefault(h_b); m.hd = h_b; break;
        case 18: c->SetHandlerDefault(nullptr); m.hd = nullptr; break;
        case 19: c->SetHandlerNamed("x", h_a); m.hx = h_a; break;
        case 20: c->SetHandlerNamed("x", h_b); m.hx = h_b; break;
        case 21: c->SetHandlerNamed("x", nullptr); m.hx = nullptr; break;
        case 22: c->SetHandlerNamed("", h_b); m.he = h_b; break;
        case 23: c->SetHandlerNamed(XZ, h_a); m.hz = h_a; break;
        case 26: c->SetHandlerNamed(XZ, nullptr); m.hz = nullptr; break;
        case 24: c->IncreaseRefs(); m.refs++; break;
        case 25: if (!m.refs) return false; c->DecreaseRefs(); m.refs--; break;
    }
    return true;
}
static Client* fresh(Model& m) {
    Client* c = new Client(); c->tag = "a tag"; c->id = 77;
    m.sb = c->GetSendBlockSize(); m.rb = c->GetRecvBlockSize(); m.mr = c->GetMaxRequestSize(); m.sa = 10; m.na = 60;       // the intervals are documented
    SIM_CHECK(m.sb && m.rb && m.mr >= 10, "defaults %u %u %u", m.sb, m.rb, m.mr);
    return c;
}
static void walk(int len, bool reduced) {
    static const int SMALL[] = {1, 3, 5, 8, 12, 13, 16, 19, 21, 24, 25};
    int l = p_listen(TCP, "127.0.0.1", 5000), u = p_listen(UNIX, "/s", 0), s = -1; Model m; Client* c = fresh(m); compare(c, m);
    int n = reduced ? (int)(sizeof SMALL / sizeof *SMALL) : (int)N_SET;
    for (int i = 0; i < len; i++) {
        int op = choose(n + N_STATE, "operation"); bool ok = true;
        if (op < n) ok = setting(c, m, reduced ? SMALL[op] : op);
        else switch (op - n) {
            case 0: case 1: {
                int f = op - n ? UNIX : TCP; bool r = f == TCP ? c->ConnectTcp("127.0.0.1", 5000, 3) : c->ConnectUnix("/s", 3);
                EQ(r, m.fam < 0, "connecting"); if (!r) break;
                if (s >= 0) p_close(s);
                s = p_accept(f == TCP ? l : u); m.fam = f; break; }
            case 2: if (m.fam < 0 || m.ending) ok = false; else { set_cap(connected_fds().back(), 0); c->Push(mk("kept"), false); c->Disconnect(false, false); settle(); m.ending = true; } break;
            case 3: if (m.refs) ok = false; else { c->Disconnect(true, true); m.fam = -1; m.ending = false; } break;
            case 4: if (m.refs || m.fam < 0 || m.ending) ok = false; else { c->Disconnect(false, true); m.fam = -1; } break;
            case 5: if (m.refs || m.fam < 0) ok = false; else { p_close(s); s = -1; EQ(c->WaitForStop(3), true, "stopped"); m.fam = -1; m.ending = false; } break;
        }
        if (!ok) break;
        compare(c, m);
    }
    compare(c, m); EQ(now_s(), 0.0, "time");
    while (m.refs) { c->DecreaseRefs(); m.refs--; compare(c, m); }
    c->Disconnect(true, true); m.fam = -1; m.ending = false; compare(c, m);
    delete c; if (s >= 0) p_close(s); p_close(l); p_close(u);
}
// ---------------------------------------------------------------- the server
namespace {
struct SModel { int fam = -1; std::string path; uint32_t ip = 0; int port = 0; int32_t max = 0; ConnectionHandler ch = nullptr, dh = nullptr; };
}
static void compare(Server* s, const SModel& m) {
    EQ((int)s->GetType(), m.fam < 0 ? (int)SocketTypeUndefined : m.fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
    EQ((long)s->GetMaxConnections(), (long)m.max, "connections allowed");
    SIM_CHECK(s->GetConnectedHandler() == m.ch, "another connected handler"); SIM_CHECK(s->GetDisconnectedHandler() == m.dh, "another disconnected handler");
    EQ(open_fds_of(1), m.fam < 0 ? 0 : 1, "listening sockets");
    if (m.fam == UNIX) { EQ(s->GetUnixPath(), m.path, "path"); EQ(file_exists(m.path), true, "the socket file"); }
    if (m.fam == TCP) {
        EQ(s->GetTcpIp(), m.ip, "ip"); EQ((int)s->GetTcpPort(), m.port, "port");
        EQ(s->GetTcpIpString(), std::to_string(m.ip >> 24) + "." + std::to_string(m.ip >> 16 & 255) + "." + std::to_string(m.ip >> 8 & 255) + "." + std::to_string(m.ip & 255), "ip");
    }
}
static void walk_server(int len) {
    static const struct { const char* ip; uint32_t v; int port; } T[] = {{"127.0.0.1", 0x7f000001, 6000}, {"127.20.30.40", 0x7f141e28, 1}, {"0.0.0.0", 0, 65535}, {"127.255.1.254", 0x7fff01fe, 32768}};
    static const char* P[] = {"/a", "/a longer name of the socket"}; static const int32_t M[] = {-1, 0, 1, 2147483647};
    Server* s = new Server(); SModel m; m.max = s->GetMaxConnections(); compare(s, m);
    for (int i = 0; i < len; i++) {
        int op = choose(23, "operation");
        if (op < 4) { bool r = s->StartTcp(T[op].ip, T[op].port); EQ(r, m.fam < 0, "started"); if (r) { m.fam = TCP; m.ip = T[op].v; m.port = T[op].port; } }
        else if (op < 6) { bool r = s->StartUnix(P[op - 4]); EQ(r, m.fam < 0, "started"); if (r) { m.fam = UNIX; m.path = P[op - 4]; } }
        else if (op == 6) EQ(s->StartTcp("1.2.3.4.5", 77), false, "started with a wrong address");
        else if (op == 7) EQ(s->StartUnix(std::string(200, 'p')), false, "started with a path that is too long");
        else if (op == 8) { s->Stop(-1); m.fam = -1; }
        else if (op < 13) { s->SetMaxConnections(M[op - 9]); m.max = M[op - 9]; }
        else if (op < 16) { m.ch = op == 13 ? h_s1 : op == 14 ? h_s2 : nullptr; shim::set_connected(s, m.ch); }
        else if (op >= 19) {
            static const char* const CALL[] = {"socket", "bind", "listen", "listen"};
            if (m.fam >= 0) break;
            sys_fail(CALL[op - 19], op == 19 ? EMFILE : EADDRINUSE);
            EQ(op == 22 ? s->StartUnix("/failing") : s->StartTcp("127.9.9.9", 999), false, "started although the system refused");
        } else { m.dh = op == 16 ? h_s1 : op == 17 ? h_s2 : nullptr; shim::set_disconnected(s, m.dh); }
        compare(s, m);
    }
    EQ(now_s(), 0.0, "time"); delete s; EQ(open_fds_of(1), 0, "listening sockets");
}
static int reg = [] {
    auto& a = add("settings_sequences", "C29", [] { walk(4, false); });
    a.bound_quick = 0; a.bound_thorough = 0; a.delay = true; a.quick = false;
    auto& b = add("settings_sequences_deep", "C29", [] { walk(5, true); });
    b.bound_quick = 0; b.bound_thorough = 0; b.delay = true; b.quick = false;
    auto& s = add("server_settings_sequences", "C29 C22", [] { walk_server(4); });
    s.bound_quick = 0; s.bound_thorough = 0; s.delay = true;
    // somebody watches while another one ends it: the answers go one way only, and the last ones are right
    auto& w = add("states_watched", "C29 C14 C15 C25", [] {
        int fam = family(), how = choose(4, "how"); Pair p(fam); Connection* c = p.c; if (how >= 2) c->Push(mk("q"), false);
        int t = spawn("watcher", [=] {
            bool gone = false, ending = false;
            for (int i = 0; i < 3; i++) {
                bool d = c->IsDisconnecting(), k = c->IsConnected(); int y = c->GetType(); bool d2 = c->IsDisconnecting(), ev = readable(c->GetStoppedEvent(), 0), st = c->WaitForStop(0);
                SIM_CHECK(y == (int)SocketTypeUndefined || y == (fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix), "type %d", y);
                SIM_CHECK(!gone || !(d || k || y != (int)SocketTypeUndefined || d2), "connected again");
                SIM_CHECK(k || y == (int)SocketTypeUndefined, "a type although it was not connected"); SIM_CHECK(k || !d2, "disconnecting although it was not connected");
                SIM_CHECK(!ending || d || !c->IsConnected(), "not disconnecting any more"); SIM_CHECK(!d || d2 || !c->IsConnected(), "not disconnecting any more");
                SIM_CHECK(!st || (!c->IsConnected() && c->GetType() == SocketTypeUndefined), "connected after the stop was reported"); SIM_CHECK(!ev || !c->IsConnected(), "connected after the stop was signalled");
                if (!k) gone = true;
                if (d) ending = true;
            }
        });
        if (how == 0) c->Disconnect(true, false); else if (how == 1) p_close(p.peer()); else c->Disconnect(false, how == 3);
        EQ(c->WaitForStop(3), true, "stopped"); EQ(c->IsConnected(), false, "connected"); EQ(c->IsDisconnecting(), false, "disconnecting"); EQ((int)c->GetType(), (int)SocketTypeUndefined, "type");
        join(t); EQ(now_s(), 0.0, "time");
    });
    w.bound_quick = 3; w.bound_thorough = 4;
    // the server is queried while it is started and stopped: each answer belongs to one of the two runs
    auto& v = add("server_queried", "C29 C22 C25", [] {
        int fam = family(); Server* s = new Server(); auto go = [=](int k) { return fam == TCP ? s->StartTcp(k ? "127.20.30.40" : "127.0.0.1", 6000 + k) : s->StartUnix(k ? "/second" : "/first"); };
        EQ(go(0), true, "started");
        int t = spawn("watcher", [=] {
            int seen = 0;      // 0 first run, 1 second run
            for (int i = 0; i < 2; i++) {
                if (fam == TCP) {
                    uint32_t ip = s->GetTcpIp(); int port = s->GetTcpPort(); std::string str = s->GetTcpIpString();
                    int a = ip == 0x7f141e28, b = port == 6001, d = str == "127.20.30.40";
                    SIM_CHECK((a || ip == 0x7f000001) && (b || port == 6000) && (d || str == "127.0.0.1"), "ip %x port %d %s", ip, port, str.c_str());
                    SIM_CHECK(seen <= a && a <= b && b <= d, "an older answer"); seen = d;
                } else { std::string f = s->GetUnixPath(); int a = f == "/second"; SIM_CHECK(a || f == "/first", "path %s", f.c_str()); SIM_CHECK(seen <= a, "an older answer"); seen = a; }
                int y = s->GetType(); SIM_CHECK(y == (int)SocketTypeUndefined || y == (fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix), "type %d", y);
            }
        });
        s->Stop(-1); EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); EQ(go(1), true, "started again"); join(t);
        if (fam == TCP) EQ((int)s->GetTcpPort(), 6001, "port"); else EQ(s->GetUnixPath(), std::string("/second"), "path");
        delete s; EQ(now_s(), 0.0, "time");
    });
    v.bound_quick = 4; v.bound_thorough = 5;
    return 0;
}();
