// C23: connecting. C26: interrupted calls and failed accepts. Library clients against the library server.
#include "scen.hpp"
#include <algorithm>

static const char* IP = "127.0.0.1";
static bool conn(Client* c, int fam, int to = 5) { return fam == TCP ? c->ConnectTcp(IP, 5000, to) : c->ConnectUnix("/s", to); }
static int lst(int fam, int backlog = 16) { return fam == TCP ? p_listen(TCP, IP, 5000, backlog) : p_listen(UNIX, "/s", 0, backlog); }
static void check_unconnected(Client* c) {
    EQ(c->IsConnected(), false, "connected"); EQ(c->IsConnecting(), false, "connecting"); EQ((int)c->GetType(), (int)SocketTypeUndefined, "type"); EQ(c->IsDisconnecting(), false, "disconnecting");
    EQ(pull(c, -1), std::string("null"), "pulled"); EQ(show(c->Push(mk("x"), false, 5)), std::string("null"), "pushed");
    EQ(live_threads(), 0, "threads");
}
// a connection that works in both directions and has nothing of an earlier one
static void check_works(Client* c, int l, int fam, bool keep = false) {
    EQ(c->IsConnected(), true, "connected"); EQ(c->IsConnecting(), false, "connecting"); EQ((int)c->GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type"); EQ(c->IsDisconnecting(), false, "disconnecting");
    EQ(c->WaitForStop(0), false, "stopped"); EQ(readable(c->GetStoppedEvent(), 0), false, "stopped event"); EQ(pull(c), std::string("null"), "pulled");
    int s = p_accept(l); c->Push(mk("hi"), false); EQ(p_recv_exact(s, wf::req(1, "hi").size()), wf::req(1, "hi"), "received by the server");
    p_send(s, wf::req(2, "ho")); EQ(pull(c, -1), std::string("ho#2"), "pulled");
    if (!keep) { p_close(s); EQ(c->WaitForStop(5), true, "stopped"); }
}

static int reg = [] {
    auto& a = add("connect_ok", "C23 C15 C24 C12 C10", [] {
        int fam = family(); int to = std::vector<int>{-1, 0, 5}[choose(3, "timeout")]; bool def = choose(2, "default timeout");
        int l = lst(fam); Client* c = new Client();
        bool ok = def ? (fam == TCP ? c->ConnectTcp(IP, 5000) : c->ConnectUnix("/s")) : conn(c, fam, to);
        if (to == 0 && fam == TCP && !def && !ok) { outcome("nonblocking"); check_unconnected(c); delete c; p_close(l); return; }
        EQ(ok, true, "connected"); EQ(now_s(), 0.0, "time"); check_works(c, l, fam);
        delete c; p_close(l);
    });
    a.bound_quick = 3; a.bound_thorough = 4; a.async_connect = true;
    auto& b = add("connect_fails", "C23 C15 C24", [] {
        int what = choose(13, "what is wrong"); Client* c = new Client(); bool ok = true; int to = choose(2, "timeout") ? 30 : -1;
        static const char* BAD[] = {"300.1.1.1", "", "localhost.x", "1.2.3.4.5"};
        if (what < 4) ok = c->ConnectTcp(BAD[what], 5000, to);
        if (what == 4) ok = c->ConnectTcp(IP, 5000, to); if (what == 5) ok = c->ConnectUnix("/s", to); if (what == 6) { file_create("/s"); ok = c->ConnectUnix("/s", to); }
        if (what == 7) ok = c->ConnectUnix(std::string(108, 'x'), to); if (what == 8) ok = c->ConnectUnix(std::string(5000, 'x'), to);
        if (what >= 9) { int f = what & 1 ? TCP : UNIX; int l = what >= 11 ? lst(f) : -1; sys_fail(what >= 11 ? "connect" : "socket", what >= 11 ? EPERM : ENFILE); ok = conn(c, f, to); if (l >= 0) p_close(l); if (f == UNIX && l >= 0) { sys_unlink("/s"); } }
        EQ(ok, false, "connected"); EQ(now_s(), 0.0, "time"); check_unconnected(c); EQ(open_fds_of(0), 0, "sockets");
        int fam = what == 6 ? TCP : family(); int l = lst(fam); EQ(conn(c, fam), true, "connected afterwards"); check_works(c, l, fam);
        delete c; p_close(l);
    });
    b.bound_quick = 2; b.bound_thorough = 3; b.async_connect = true;
    add("connect_longest_path", "C23 C24", [] {
        int n = choose(3, "length") + 106; Client* c = new Client(); std::string path = "/" + std::string(n - 1, 'p'); int l = n < 108 ? p_listen(UNIX, path, 0) : -1;
        EQ(c->ConnectUnix(path, 5), n < 108, "connected"); if (n < 108) check_works(c, l, UNIX); else check_unconnected(c);
        delete c; if (l >= 0) p_close(l);
    }).bound_quick = 2;
    // no answer, or a late one
    auto& d = add("connect_times", "C23 C24", [] {
        int delay = choose(4, "answer after"); static const double D[] = {0.5, 2, 3, -1}; int to = choose(4, "timeout"); static const int T[] = {0, 1, 3, -1}; int err = choose(5, "refused"); static const int E[] = {0, ECONNREFUSED, ECONNRESET, EHOSTUNREACH, ETIMEDOUT}; bool refused = err > 0; if (err > 1 && D[delay] >= 0) net_error(IP, 5000, E[err]);
        if (D[delay] < 0) { net_blackhole(IP, 5000); if (refused) return; } else net_delay(IP, 5000, D[delay]);
        int l = refused ? -1 : lst(TCP); Client* c = new Client(); double t = T[to], dl = D[delay] < 0 ? 127 : D[delay]; if (D[delay] < 0) refused = true;
        bool ok = c->ConnectTcp(IP, 5000, T[to]);
        if (dl >= 0 && (t < 0 || dl < t)) { EQ(ok, !refused, "connected"); EQ(now_s(), dl, "returned at"); }
        else if (dl >= 0 && dl == t) { SIM_CHECK(now_s() >= t && now_s() <= t + 0.05, "returned at %g", now_s()); if (refused) EQ(ok, false, "connected"); }
        else { EQ(ok, false, "connected"); SIM_CHECK(now_s() >= t && now_s() <= t + 0.05, "returned at %g instead of %g", now_s(), t); }
        if (ok) check_works(c, l, TCP); else check_unconnected(c);
        int u = p_listen(UNIX, "/s", 0); EQ(c->ConnectUnix("/s", 3), true, "connected afterwards"); check_works(c, u, UNIX);
        delete c; if (l >= 0) p_close(l); p_close(u);
    });
    d.bound_quick = 2; d.bound_thorough = 3;
    auto& d2 = add("connect_full_backlog", "C23 C24", [] {
        int to = choose(4, "timeout"); static const int T[] = {0, 1, 3, -1}; int room = choose(3, "room after"); static const double R[] = {0.5, 2, -1};
        int l = p_listen(UNIX, "/s", 0, 0); int q = p_connect(UNIX, "/s", 0); SIM_CHECK(q >= 0, "peer");
        if (R[room] < 0 && T[to] < 0) return;
        double rt = R[room]; int t = rt < 0 ? -1 : spawn("server", [=] { sleep_s(rt); p_accept(l); });
        Client* c = new Client(); bool ok = c->ConnectUnix("/s", T[to]); double to_s = T[to];
        if (rt >= 0 && (to_s < 0 || rt < to_s)) { EQ(ok, true, "connected"); EQ(now_s(), rt, "returned at"); check_works(c, l, UNIX); }
        else { EQ(ok, false, "connected"); SIM_CHECK(now_s() >= to_s && now_s() <= to_s + 0.05, "returned at %g instead of %g", now_s(), to_s); check_unconnected(c); }
        if (t >= 0) join(t); 
        delete c; p_close(l);
    });
    d2.bound_quick = 2; d2.bound_thorough = 3;
    auto& e = add("connect_twice", "C23 C15 C24 C16", [] {
        int fam = family(); int fam2 = family(); int l = lst(fam); Client* c = new Client(); EQ(conn(c, fam), true, "connected"); int s = p_accept(l); int fd = connected_fds().back();
        p_send(s, wf::req(2, "in")); p_send(s, wf::req(4, "in2").substr(0, 6)); settle();
        EQ(conn(c, fam2), false, "connected while connected"); EQ(c->ConnectTcp("bad", 1, 2), false, "connected while connected"); EQ(c->ConnectUnix("/none", 2), false, "connected while connected");
        EQ(fd_open(fd), true, "the connection"); EQ(c->IsConnected(), true, "connected"); EQ(connected_fds().size(), (size_t)1, "connections");
        p_send(s, wf::req(4, "in2").substr(6)); EQ(pull(c, -1), std::string("in#2"), "pulled"); EQ(pull(c, -1), std::string("in2#4"), "pulled"); c->Push(mk("x"), false); EQ(p_recv(s), wf::req(1, "x"), "received");
        set_cap(fd, 3); c->Push(mk("y"), false); c->Disconnect(false, false); EQ(conn(c, fam), false, "connected while disconnecting"); set_cap(fd, 1000); std::string got; while (true) { std::string x = p_recv(s); if (x.empty()) break; got += x; } EQ(got, wf::req(3, "y"), "received");
        EQ(c->WaitForStop(5), true, "stopped"); EQ(conn(c, fam), true, "connected again"); check_works(c, l, fam);
        delete c; p_close(l); EQ(now_s(), 0.0, "time");
    });
    e.bound_quick = 2; e.bound_thorough = 3;
    auto& e2 = add("connect_concurrent", "C23 C25 C24 C15", [] {
        int fam = family(); int fam2 = family(); int l = lst(fam), l2 = fam2 != fam ? lst(fam2) : -1; Client* c = new Client(); bool second = false;
        int t = spawn("second", [&] { bool r = conn(c, fam2); Host h; second = r; }); bool first = conn(c, fam); join(t);
        EQ(first + second, 1, "successful connects"); EQ(now_s(), 0.0, "time"); settle(); EQ(connected_fds().size(), (size_t)1, "connections");
        check_works(c, first ? l : fam2 == fam ? l : l2, first ? fam : fam2);
        delete c; p_close(l); if (l2 >= 0) p_close(l2);
    });
    e2.bound_quick = 3; e2.bound_thorough = 4;
    // clean start, whatever the earlier connection left
    auto& f = add("reconnect_clean", "C23 C10 C12 C13 C15 C16 C18 C24 C14 C17 C19 C27", [] {
        int fam = family(), fam2 = family(); int left = choose(7, "left over"); int how = choose(3, "end");
        int l = lst(fam), l2 = fam2 != fam ? lst(fam2) : -1; Client* c = new Client(); EQ(conn(c, fam), true, "connected"); int s = p_accept(l); int fd = connected_fds().back();
        if (left == 1) p_send(s, wf::req(2, "in")); if (left == 2) p_send(s, wf::req(2, "in").substr(0, 2)); if (left == 3) p_send(s, mkw("in", 30, 2).substr(0, 20));
        if (left == 4) { set_cap(fd, 6); c->Push(mk("out"), false); c->Push(mk("out2"), false); } if (left == 5) { c->Push(mk("out"), false); p_recv(s); } if (left == 6) { p_send(s, wf::req(2, "in") + wf::req(4, "in").substr(0, 3)); c->Push(mk("out"), false); }
        settle();
        if (how == 0) c->Disconnect(true, true); else if (how == 1) { if (left == 4) set_cap(fd, 100); c->Disconnect(false, true); } else { p_close(s); EQ(c->WaitForStop(4), true, "stopped"); }
        EQ(conn(c, fam2), true, "connected again"); check_works(c, fam2 == fam ? l : l2, fam2);
        EQ(now_s(), 0.0, "time"); delete c; p_close(l); if (l2 >= 0) p_close(l2);
    });
    f.bound_quick = 1; f.bound_thorough = 2;
    // what was pushed while the connection ended is not sent by the next one
    auto& fa = add("reconnect_after_push_race", "C12 C23 C14 C13 C27 C24 C25", [] {
        int fam = family(); int end = choose(3, "end"); int kind = choose(4, "push"); int l = lst(fam); Client* c = new Client(); EQ(conn(c, fam), true, "connected"); int s = p_accept(l);
        int t = spawn("pusher", [=] { Request r("late"); if (kind == 0) c->Push(mk("late"), false); if (kind == 1) c->Push(r); if (kind == 2) EQ(show(c->Push(mk("late"), false, 5)), std::string("null"), "answer"); if (kind == 3) EQ(show(c->Push(&r, true, -1, false)), std::string("null"), "answer"); });
        if (end == 0) c->Disconnect(true, true); else if (end == 1) { c->Disconnect(false, false); EQ(c->WaitForStop(5), true, "stopped"); } else { p_close(s); EQ(c->WaitForStop(5), true, "stopped"); }
        join(t); EQ(conn(c, fam), true, "connected again"); check_works(c, l, fam); EQ(now_s(), 0.0, "time"); delete c; p_close(l);
    });
    fa.bound_quick = 2; fa.bound_thorough = 3; fa.delay = true;
    auto& f2 = add("reconnect_while_closing", "C23 C15 C25 C16 C24 C12", [] {
        // the peer closes; the client tries to connect until it succeeds
        int fam = family(); int l = lst(fam); Client* c = new Client(); EQ(conn(c, fam), true, "connected"); int s = p_accept(l); p_send(s, wf::req(2, "in"));
        p_close(s); bool ok = false; int n = 0;
        while (!(ok = conn(c, fam))) { SIM_CHECK(++n < 5, "cannot connect again"); settle(); }
        check_works(c, l, fam); EQ(now_s(), 0.0, "time"); delete c; p_close(l); outcome(std::to_string(n));
    });
    f2.bound_quick = 3; f2.bound_thorough = 4;
    auto& f3 = add("connect_and_gone", "C23 C15 C24 C25 C10 C16", [] {
        int fam = family(); int what = choose(4, "server"); int l = lst(fam); Client* c = new Client();
        int t = spawn("server", [=] { int s = p_accept(l); if (what == 0) p_close(s); if (what == 1) { p_send(s, wf::req(2, "in")); p_close(s); } if (what == 2) p_send(s, wf::req(2, "in")); if (what == 3) p_shutdown_wr(s); });
        bool ok = conn(c, fam); if (what == 2) EQ(ok, true, "connected");
        if (what == 1 || what == 2) EQ(pull(c, 5), std::string("in#2"), "pulled");
        delete c; join(t); p_close(l); EQ(now_s(), 0.0, "time"); EQ(live_threads(), 0, "threads");
    });
    f3.bound_quick = 3; f3.bound_thorough = 4; f3.async_connect = true;
    // ---------------------------------------------------------------- C26
    auto& g = add("eintr_connection", "C26 C10 C12 C14 C28 C15 C16 C17", [] {
        int fam = family(); Pair p(fam, 15); Connection* c = p.c; int peer = p.peer(); c->SetSendBlockSize(10);
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "in") + wf::req(3, "in2").substr(0, 5)); p_send(peer, wf::req(3, "in2").substr(5)); while (!p_recv(peer).empty()) {} });
        c->Push(mk("out"), false); c->Push(mk("out2"), false);
        EQ(pull(c, -1), std::string("in#1"), "pulled"); EQ(pull(c, 5), std::string("in2#3"), "pulled");
        EQ(c->IsConnected(), true, "connected");
        c->Disconnect(false, true); EQ(now_s(), 0.0, "time"); EQ(p.out(), wf::req(2, "out") + wf::req(4, "out2"), "sent"); join(t);
    });
    g.bound_quick = 2; g.bound_thorough = 3; g.eintr = true;
    auto& g2 = add("eintr_waits", "C26 C15 C16 C18 C19 C27", [] {
        int what = choose(6, "waits for"); Pair p(UNIX); Connection* c = p.c; c->SetOurSaInterval(2); c->SetTheirNaIntervalLimit(7);
        int t = spawn("stop", [=] { sleep_s(what == 5 ? 30 : 5); if (what != 5) c->Disconnect(true, false); });
        double t0 = 5;
        if (what == 0) EQ(c->WaitForStop(-1), true, "stopped"); if (what == 1) EQ(pull(c, -1), std::string("null"), "pulled"); if (what == 2) EQ(show(c->Push(mk("q"), false, -1)), std::string("null"), "pushed");
        if (what == 3) EQ((size_t)read_event(c->GetStoppedEvent(), -1), (size_t)1, "event"); if (what == 4) { EQ(readable(c->GetStoppedEvent(), 3), false, "event"); t0 = 3; } if (what == 5) { EQ(c->WaitForStop(-1), true, "stopped"); t0 = 7; }
        SIM_CHECK(now_s() >= t0 && now_s() <= t0 + 0.05, "returned at %g instead of %g", now_s(), t0); if (what == 5) { auto wt = wire_times(p.mine()); EQ(wt.size(), (size_t)3, "keep-alives"); }
        join(t);
    });
    g2.bound_quick = 3; g2.bound_thorough = 4; g2.eintr = true;
    auto& g3 = add("eintr_connect", "C26 C23", [] {
        int what = choose(7, "case"); int fam = what == 1 ? UNIX : TCP; int l = -1, t = -1; double due = 0; bool exp = true;
        if (what == 0) l = lst(TCP); if (what == 1) l = lst(UNIX); if (what == 2) { l = lst(TCP); net_delay(IP, 5000, 2); due = 2; } if (what == 3) { net_blackhole(IP, 5000); l = lst(TCP); due = 3; exp = false; }
        if (what == 4) { fam = UNIX; l = p_listen(UNIX, "/s", 0, 0); p_connect(UNIX, "/s", 0); t = spawn("server", [=] { sleep_s(1); p_accept(l); }); due = 1; }
        if (what >= 5) { fam = UNIX; l = p_listen(UNIX, "/s", 0, 0); p_connect(UNIX, "/s", 0); due = what == 5 ? 3 : 2.5; exp = what == 6; if (exp) t = spawn("server", [=] { sleep_s(2.5); p_accept(l); }); }    // nobody accepts within the limit, or just in time
        Client* c = new Client(); EQ(conn(c, fam, what == 4 ? -1 : 3), exp, "connected"); SIM_CHECK(now_s() >= due && now_s() <= due + 0.05, "returned at %g instead of %g", now_s(), due);
        if (exp) check_works(c, l, fam); else check_unconnected(c); if (t >= 0) join(t);
        delete c; p_close(l);
    });
    g3.bound_quick = 3; g3.bound_thorough = 4; g3.eintr = true; g3.async_connect = true;
    static int NC, NG;
    auto& g4 = add("eintr_server", "C26 C21 C22 C10 C12 C15 C17", [] {
        int fam = family(); NC = NG = 0; Server* s = new Server();
        shim::set_connected(s, [](Server*, Connection* c) { NC++; c->SetHandlerDefault([](Connection* k, Request* r) { mark("got " + r->GetName()); k->Push(mk("re"), false); delete r; }); });
        shim::set_disconnected(s, [](Server*, Connection*) { NG++; mark("gone"); });
        EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started");
        for (int i = 0; i < 2; i++) { int p = fam == TCP ? p_connect(TCP, IP, 5000) : p_connect(UNIX, "/s", 0); p_send(p, wf::req(1, "in")); EQ(p_recv_exact(p, wf::req(2, "re").size()), wf::req(2, "re"), "answer"); p_close(p); wait_mark("gone", i + 1); }
        EQ(now_s(), 0.0, "time"); EQ((int)s->GetType() != 0, true, "running"); s->Stop(-1); EQ(open_fds_of(1), 0, "listening sockets"); delete s;
    });
    g4.bound_quick = 3; g4.bound_thorough = 4; g4.delay = true; g4.eintr = true;
    auto& g5 = add("accept_fails", "C26 C21 C22 C24", [] {
        int fam = family(); NC = NG = 0; Server* s = new Server(); bool limit = choose(2, "limit"); if (limit) s->SetMaxConnections(1);
        shim::set_connected(s, [](Server*, Connection* c) { NC++; c->SetHandlerDefault([](Connection* k, Request* r) { k->Push(mk("re"), false); delete r; }); });
        shim::set_disconnected(s, [](Server*, Connection*) { NG++; mark("gone"); });
        EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started"); int served = 0;
        for (int i = 0; i < 3; i++) { int p = fam == TCP ? p_connect(TCP, IP, 5000) : p_connect(UNIX, "/s", 0); SIM_CHECK(p >= 0, "connect %d failed", i); p_send(p, wf::req(1, "in")); std::string a = p_recv(p); if (!a.empty()) { EQ(a, wf::req(2, "re"), "answer"); served++; } p_close(p); settle(); }
        EQ(NC, served, "announced"); EQ(NG, served, "gone"); EQ((int)s->GetType() != 0, true, "running");
        EQ(now_s(), 0.0, "time"); s->Stop(-1); EQ(open_fds_of(1), 0, "listening sockets"); delete s; outcome(std::to_string(served));
    });
    g5.bound_quick = 3; g5.bound_thorough = 4; g5.delay = true; g5.accept_fail = true; g5.eintr = true;
    // ---------------------------------------------------------------- both sides are the library
    static Server* S; static uint32_t ID;
    auto& h = add("e2e_chat", "C10 C12 C13 C14 C17 C21 C22 C23 C24 C25 C16 C15 C28", [] {
        int fam = family(); bool grace = choose(2, "graceful"); Server* s = new Server(); S = s; ID = 0;
        shim::set_connected(s, [](Server*, Connection* c) { track_read(&c->id, 4); ID = c->id; c->SetHandlerNamed("ask", [](Connection* k, Request* r) { Request* a = new Request("answer"); a->SetId(r->GetId()); a->Emplace<Value32U>("n", 5u); k->Push(a, false, 0, false); delete r; }); c->SetHandlerDefault([](Connection*, Request* r) { mark("S " + show(r)); delete r; }); });
        shim::set_disconnected(s, [](Server*, Connection*) { mark("gone"); });
        EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started"); Client* c = new Client(); EQ(conn(c, fam), true, "connected");
        Request q("ask"); Request* r = c->Push(q, 5); SIM_CHECK(r, "no answer"); EQ(enc(r), wf::req(1, "answer", {{"n", wf::vint(4, 5)}}), "answer"); delete r;
        c->Push(mk("bye"), false); 
        if (grace) c->Disconnect(false, true); else { wait_mark("S bye#3"); c->Disconnect(true, true); }
        wait_mark("gone"); EQ(count_marks("S bye#3"), 1, "received"); EQ(now_s(), 0.0, "time");
        delete c; delete s; EQ(live_threads(), 0, "threads");
    });
    h.bound_quick = 2; h.bound_thorough = 3; h.delay = true;
    auto& h2 = add("e2e_server_goes", "C22 C15 C23 C24 C20 C16 C21 C17", [] {
        int fam = family(); bool again = choose(2, "connects again"); Server* s = new Server(); EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started");
        Client* c = new Client(); Client* d = new Client(); EQ(conn(c, fam), true, "connected"); EQ(conn(d, fam), true, "connected");
        c->Push(mk("x"), false); int t = spawn("asker", [=] { EQ(show(d->Push(mk("q"), false, -1)), std::string("null"), "answer"); });
        if (again) s->Stop(-1); else { delete s; s = nullptr; }
        EQ(c->WaitForStop(3), true, "stopped"); EQ(d->WaitForStop(3), true, "stopped"); join(t); EQ(now_s(), 0.0, "time"); EQ(conn(c, fam, 2), false, "connected to nobody"); EQ(now_s(), 0.0, "time");
        if (again) { EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started again"); EQ(conn(c, fam), true, "connected"); EQ(conn(d, fam), true, "connected"); }
        delete c; delete d; if (s) delete s; EQ(live_threads(), 0, "threads"); EQ(now_s(), 0.0, "time");
    });
    h2.bound_quick = 1; h2.bound_thorough = 3; h2.delay = true;
    auto& h3 = add("e2e_idle", "C18 C19 C21 C20 C17 C10 C15 C12", [] {
        int fam = family(); Server* s = new Server(); EQ(fam == TCP ? s->StartTcp(IP, 5000) : s->StartUnix("/s"), true, "started"); Client* c = new Client(); EQ(conn(c, fam), true, "connected");
        sleep_s(150); EQ(c->IsConnected(), true, "connected"); Client* d = new Client(); d->SetOurSaInterval(100); EQ(conn(d, fam), true, "connected"); sleep_s(59.5); EQ(d->IsConnected(), true, "connected"); sleep_s(1); EQ(d->WaitForStop(0), true, "the silent client is dropped"); EQ(c->IsConnected(), true, "connected");
        delete d; delete c; delete s;
    });
    h3.bound_quick = 1; h3.bound_thorough = 2; h3.delay = true;
    return 0;
}();
