// C30: descriptors and threads the system refuses to give. Every set of refusals within the bound, and every point from
// which on everything is refused, is explored.
#include "scen.hpp"
#include <algorithm>

static const char* IP = "127.0.0.1";
static std::string num(long v) { return std::to_string(v); }
static bool conn(Client* c, int fam) { return fam == TCP ? c->ConnectTcp(IP, 5000, 5) : c->ConnectUnix("/s", 5); }
static int lst(int fam, int old = -1) {
    if (old >= 0) { p_close(old); if (fam == UNIX) sys_unlink("/s"); }
    return fam == TCP ? p_listen(TCP, IP, 5000) : p_listen(UNIX, "/s", 0);
}
static void down(Client* c) {
    EQ(c->IsConnected(), false, "connected"); EQ(c->IsConnecting(), false, "connecting"); EQ((int)c->GetType(), (int)SocketTypeUndefined, "type"); EQ(c->IsDisconnecting(), false, "disconnecting");
    EQ(open_fds_of(0), 0, "sockets"); EQ(open_fds_of(3), 0, "timers"); SIM_CHECK(open_fds_of(2) <= 1, "%d events", open_fds_of(2)); EQ(live_threads(), 0, "threads");
    EQ(pull(c, -1), std::string("null"), "pulled"); EQ(show(c->Push(mk("x"), false, 5)), std::string("null"), "pushed"); c->Disconnect(true, true); c->Disconnect(false, true); EQ(now_s(), 0.0, "time");
}
static void works(Client* c, int l, int fam) {
    EQ(c->IsConnected(), true, "connected"); EQ((int)c->GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
    EQ(c->WaitForStop(0), false, "stopped"); EQ(readable(c->GetStoppedEvent(), 0), false, "stopped event"); EQ(pull(c), std::string("null"), "pulled");
    int s = p_accept(l); c->Push(mk("hi"), false); EQ(p_recv_exact(s, wf::req(1, "hi").size()), wf::req(1, "hi"), "received by the peer");
    p_send(s, wf::req(2, "ho")); EQ(pull(c, -1), std::string("ho#2"), "pulled");
    if (choose(2, "ends")) c->Disconnect(true, true); else { p_close(s); EQ(c->WaitForStop(5), true, "stopped"); }
    EQ(readable(c->GetStoppedEvent(), 0), true, "stopped event"); EQ(now_s(), 0.0, "time");
}
static void start_refusing(bool always, int n) { if (always) refuse(3, choose(n, "refused from")); else refuse(3); }

static Server* S; static Connection* CONN[16]; static uint32_t IDS[16]; static int N, GONE, BASE;
static void on_request(Connection* c, Request* r) { Request a("re"); a.SetId(r->GetId()); c->Push(a, 0, false); delete r; }
static void on_connected(Server*, Connection* c) { track_read(&c->id, 4); CONN[N] = c; IDS[N] = c->id; EQ(c->IsConnected(), true, "connected in the connected handler"); for (int i = BASE; i < N; i++) SIM_CHECK(IDS[i] != IDS[N], "an id twice"); N++; c->SetHandlerDefault(on_request); mark("connected"); }
static void on_disconnected(Server*, Connection* c) { int i = 0; while (i < N && CONN[i] != c) i++; SIM_CHECK(i < N, "the connection was never announced"); CONN[i] = nullptr; GONE++; mark("gone"); }
static Server* mks() { N = GONE = BASE = 0; S = new Server(); shim::set_connected(S, on_connected); shim::set_disconnected(S, on_disconnected); return S; }
static bool start(int fam) { return fam == TCP ? S->StartTcp(IP, 6000) : S->StartUnix("/u", false); }
static int dial(int fam) { return fam == TCP ? p_connect(TCP, IP, 6000) : p_connect(UNIX, "/u", 0); }
static void served(int p, uint32_t id) { p_send(p, wf::req(id, "in")); EQ(p_recv_exact(p, wf::req(id, "re").size()), wf::req(id, "re"), "answer"); }
static void server_down(int fam) {
    EQ((int)S->GetType(), (int)SocketTypeUndefined, "type"); EQ(open_fds_of(1), 0, "listening sockets"); EQ(open_fds_of(0), 0, "sockets"); EQ(open_fds_of(3), 0, "timers"); SIM_CHECK(open_fds_of(2) <= 1, "%d events", open_fds_of(2)); 
    EQ(dial(fam), -1, "connecting to it"); if (fam == UNIX) EQ(file_exists("/u"), false, "socket file");
}
static void server_works(int fam) {         // runs, with limits, and stops
    int n = N, g = GONE; BASE = n; EQ((int)S->GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
    int p = dial(fam); served(p, 1); EQ(N, n + 1, "connections"); SafeConnection* r = S->GetConnection(IDS[n]); SIM_CHECK(r, "not found"); shim::drop(r);
    S->SetMaxConnections(1); int q = dial(fam); settle(); EQ(N, n + 1, "connections over the limit"); S->SetMaxConnections(2); served(q, 3); EQ(N, n + 2, "connections"); S->SetMaxConnections(-1);
    p_close(p); settle(); EQ(GONE, g + 1, "ends"); S->Stop(-1); EQ(p_recv(q), std::string(), "closed"); EQ(now_s(), 0.0, "time"); server_down(fam);
}

static int reg = [] {
    auto& a = add("refuse_connect", "C30", [] {
        int fam = family(); bool always = choose(2, "for good"); int l = lst(fam); start_refusing(always, 11);
        Client* c = new Client(); bool ok = conn(c, fam); int bad = refused();
        if (!bad) EQ(ok, true, "connected"); EQ(now_s(), 0.0, "time");
        if (choose(2, "twice") && !ok) { down(c); l = lst(fam, l); ok = conn(c, fam); }
        refuse(0); if (!ok) { down(c); l = lst(fam, l); EQ(conn(c, fam), true, "connected afterwards"); }
        works(c, l, fam); EQ(conn(c, fam), true, "connected again"); works(c, l, fam);
        delete c; p_close(l); EQ(open_fds(), 0, "descriptors left"); EQ(live_threads(), 0, "threads left"); outcome(num(bad) + (ok ? " connected" : " refused"));
    });
    a.bound_quick = 2; a.bound_thorough = 3; a.delay = true;
    // a client that has been connected before: the failure leaves it as it was, stopped
    auto& b = add("refuse_reconnect", "C30", [] {
        int fam = family(); bool always = choose(2, "for good"); int l = lst(fam); Client* c = new Client(); EQ(conn(c, fam), true, "connected"); int s = p_accept(l); p_send(s, wf::req(2, "old")); settle(); p_close(s); EQ(c->WaitForStop(5), true, "stopped");
        start_refusing(always, 9); bool ok = conn(c, fam); int bad = refused(); refuse(0);
        EQ(ok, !bad, "connected"); EQ(now_s(), 0.0, "time");
        if (!ok) { EQ(c->WaitForStop(0), true, "stopped"); EQ(readable(c->GetStoppedEvent(), 0), true, "stopped event"); EQ(open_fds_of(0), 0, "sockets"); EQ(open_fds_of(2), 1, "events"); EQ(open_fds_of(3), 0, "timers"); EQ(live_threads(), 0, "threads"); EQ(pull(c, -1), std::string("old#2"), "received before"); down(c); l = lst(fam, l); EQ(conn(c, fam), true, "connected afterwards"); }
        works(c, l, fam); delete c; p_close(l); EQ(open_fds(), 0, "descriptors left"); outcome(num(bad));
    });
    b.bound_quick = 3; b.bound_thorough = 4; b.delay = true;
    // meanwhile another thread uses the client
    auto& c = add("refuse_while_used", "C30 C25 C15", [] {
        int fam = family(); int what = choose(5, "meanwhile"); static Client* c; int l = lst(fam); c = new Client(); refuse(3);
        int t = spawn("user", [what] {
            if (what == 0) { c->Disconnect(true, true); c->Disconnect(false, true); }
            if (what == 1) { EQ(c->Push(mk("x"), false, 0) == nullptr, true, "pushed"); delete c->Pull(0); c->SetOurSaInterval(5); c->SetTheirNaIntervalLimit(50); }
            if (what == 2) { EQ(show(c->Push(mk("x"), false, 3)), std::string("null"), "answer"); }
            if (what == 3) { c->IsConnected(); c->IsDisconnecting(); c->GetType(); c->WaitForStop(0); c->GetStoppedEvent(); c->IsConnecting(); }
            if (what == 4) { c->WaitForStop(2); SIM_CHECK(now_s() <= 2.05, "time"); }
        });
        bool ok = conn(c, fam); int bad = refused(); refuse(0); if (!bad) SIM_CHECK(ok || what == 0, "not connected"); SIM_CHECK(now_s() <= 0.05, "time");
        join(t); if (what != 0) EQ(c->IsConnected(), ok, "connected"); delete c; p_close(l); EQ(open_fds(), 0, "descriptors left"); outcome(num(bad) + (ok ? " connected" : " refused"));
    });
    c.bound_quick = 2; c.bound_thorough = 3;
    auto& d = add("refuse_given", "C30", [] {
        int fam = family(); bool always = choose(2, "for good"); int fds[2]; pair(fam, fds); start_refusing(always, 7); Connection* c = new Connection(fds[0]); int bad = refused(); refuse(0);
        if (!bad) EQ(c->IsConnected(), true, "connected");
        if (!c->IsConnected()) { EQ(p_recv(fds[1]), std::string(), "the other side"); EQ(fd_open(fds[0]), false, "the socket"); c->Disconnect(true, true); EQ(pull(c, -1), std::string("null"), "pulled"); EQ(show(c->Push(mk("x"), false, -1)), std::string("null"), "answer"); EQ(open_fds_of(3), 0, "timers"); EQ(live_threads(), 0, "threads"); }
        else { c->Push(mk("hi"), false); EQ(p_recv_exact(fds[1], wf::req(2, "hi").size()), wf::req(2, "hi"), "sent"); p_send(fds[1], wf::req(1, "ho")); EQ(pull(c, -1), std::string("ho#1"), "pulled"); if (choose(2, "how")) p_close(fds[1]); else c->Disconnect(true, false); EQ(c->WaitForStop(5), true, "stopped"); EQ(readable(c->GetStoppedEvent(), 0), true, "stopped event"); }
        delete c; EQ(now_s(), 0.0, "time"); EQ(open_fds(), 0, "descriptors left"); outcome(num(bad));
    });
    d.bound_quick = 4; d.bound_thorough = 5; d.delay = true;
    auto& e = add("refuse_server_start", "C30", [] {
        int fam = family(); bool always = choose(2, "for good"); start_refusing(always, 6);
        mks(); bool ok = start(fam); int bad = refused(); if (!bad) EQ(ok, true, "started");
        if (!ok && choose(2, "twice")) ok = start(fam);
        refuse(0); EQ((int)S->GetType() != (int)SocketTypeUndefined, ok, "running"); if (!ok) { EQ(live_threads(), 0, "threads"); server_down(fam); S->Stop(-1); S->WaitForStop(-1); S->SetMaxConnections(1); S->SetMaxConnections(-1); EQ(start(fam), true, "started afterwards"); }
        server_works(fam); int f2 = family(); EQ(start(f2), true, "started again"); server_works(f2); delete S; EQ(now_s(), 0.0, "time"); EQ(open_fds(), 0, "descriptors left"); EQ(live_threads(), 0, "threads left"); outcome(num(bad) + (ok ? " started" : " refused"));
    });
    e.bound_quick = 1; e.bound_thorough = 3; e.delay = true;
    // a server that runs: others aren't affected, who is dropped sees it
    auto& f = add("refuse_accept", "C30 C21", [] {
        int fam = family(); int mode = choose(2, "for good"); mks(); S->SetMaxConnections(3); EQ(start(fam), true, "started"); int p = dial(fam); served(p, 1);
        // for good: everything after the accept itself
        if (mode) refuse(3, 1 + choose(6, "refused from")); else refuse(3);
        int q = dial(fam); SIM_CHECK(q >= 0, "cannot connect"); p_send(q, wf::req(1, "in")); if (mode) { served(p, 3); }
        settle(); int bad = refused(); refuse(0); std::string a = p_recv(q); if (!bad) EQ(a, wf::req(1, "re"), "answer"); SIM_CHECK(a.empty() || a == wf::req(1, "re"), "answer");
        bool in = !a.empty(); EQ(N, in ? 2 : 1, "announced"); EQ(GONE, 0, "ends"); served(p, 5);
        int x = dial(fam); served(x, 1); if (!in) { int y = dial(fam); served(y, 1); } EQ(N, 3, "connections"); int z = dial(fam); p_send(z, wf::req(1, "in")); settle(); EQ(N, 3, "connections over the limit"); 
        for (int i = 0; i < N; i++) { SafeConnection* r = S->GetConnection(IDS[i]); SIM_CHECK(r, "connection %d is not found", i); shim::drop(r); }
        EQ(now_s(), 0.0, "time"); S->Stop(-1); EQ(p_recv(p), std::string(), "closed"); server_down(fam); delete S; EQ(open_fds(), 0, "descriptors left"); EQ(live_threads(), 0, "threads left"); outcome(num(bad) + (in ? " served" : " dropped"));
    });
    f.bound_quick = 1; f.bound_thorough = 3; f.delay = true;
    // connections end, are held and let go, the server stops: nothing of that may depend on new descriptors
    auto& g = add("refuse_ending", "C30 C20 C22", [] {
        int fam = family(); int how = choose(3, "how"); bool always = choose(2, "for good"); mks(); EQ(start(fam), true, "started"); int p = dial(fam); served(p, 1); SafeConnection* r = choose(2, "held") ? S->GetConnection(IDS[0]) : nullptr;
        if (always) refuse(3, 0); else refuse(3);
        if (r) spawn("holder", [r] { sleep_s(2); shim::get(r).Push(mk("z"), false); shim::drop(r); mark("let go"); });
        if (how == 0) p_close(p); if (how == 1) S->Stop(-1); if (how == 2 && r) { shim::get(r).Disconnect(true, false); }
        if (how == 2 && !r) { delete S; } else if (how != 1) { EQ(wait_until_for([] { return GONE == 1; }, 4, "the end"), true, "the connection ends"); if (r) EQ(marked("let go"), true, "let go before the end"); else EQ(now_s(), 0.0, "time"); S->Stop(-1); delete S; } else { if (r) EQ(marked("let go"), true, "let go before the end"); delete S; }
        SIM_CHECK(now_s() <= (r ? 3.05 : 0), "time %g", now_s()); refuse(0); EQ(open_fds(), 0, "descriptors left"); EQ(live_threads(), 0, "threads left");
    });
    g.bound_quick = 2; g.bound_thorough = 3; g.delay = true;
    return 0;
}();
