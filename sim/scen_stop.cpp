// C15: forced disconnection, the stopped condition, destruction.
#include "scen.hpp"

static bool stopped_event(Connection* c, int timeout = 0) { return readable(c->GetStoppedEvent(), timeout); }
// what must be true of a connection that has stopped
static void check_stopped(Connection* c, int fd) {
    EQ(c->WaitForStop(0), true, "WaitForStop(0) once stopped"); EQ(c->WaitForStop(-1), true, "WaitForStop(-1) once stopped");
    EQ(stopped_event(c), true, "stopped event"); EQ(stopped_event(c), true, "stopped event, again");
    EQ(c->IsConnected(), false, "connected"); EQ(c->IsDisconnecting(), false, "disconnecting"); EQ((int)c->GetType(), (int)SocketTypeUndefined, "type");
    EQ(fd_open(fd), false, "socket open");
}
static void check_alive(Connection* c, int fam) {
    EQ(c->IsConnected(), true, "connected"); EQ((int)c->GetType(), (int)(fam == TCP ? SocketTypeTcp : SocketTypeUnix), "type");
    EQ(c->WaitForStop(0), false, "WaitForStop(0) while alive"); EQ(stopped_event(c), false, "stopped event while alive");
}
static bool s_wait, s_forced;

static int reg = [] {
    // from another thread or the same one, with anything pending
    auto& a = add("stop_forced", "C15 C14 C28 C23 C16 C24 C27", [] {
        int fam = family(); int pend = choose(7, "pending"); bool wait = choose(2, "wait");
        Pair p(fam, 6, 100); Connection* c = p.c;
        check_alive(c, fam); EQ(c->IsDisconnecting(), false, "disconnecting");
        if (pend == 1) c->Push(mk("queued", 20), false);
        if (pend == 2) p.recv_from_peer(wf::req(1, "in"));
        if (pend == 3) p.recv_from_peer(wf::req(1, "in").substr(0, 7));
        if (pend == 4) { c->Push(mk("queued", 20), false); c->Disconnect(false, false); }
        if (pend == 5) { c->SetHandlerDefault(h_default); p.recv_from_peer(wf::req(1, "in") + wf::req(3, "in")); c->Push(mk("queued", 20), false); }
        if (pend == 6) p_close(p.peer());
        c->Disconnect(true, wait);
        if (!wait) { c->Disconnect(true, false); EQ(c->WaitForStop(1000), true, "stopped"); }
        EQ(now_s(), 0.0, "time to stop");
        check_stopped(c, p.mine());
        c->Disconnect(true, true); c->Disconnect(false, true);
        check_stopped(c, p.mine());
        if (pend != 6) EQ(peer_saw_eof(p.mine()), true, "closed");
        if (pend == 0) EQ(p.out(), std::string(), "sent");
        SIM_CHECK(prefix(p.out(), mkw("queued", 20, 2)), "sent something else");
        EQ(now_s(), 0.0, "time");
    });
    a.bound_quick = 3; a.bound_thorough = 4;
    auto& b = add("stop_concurrent", "C15 C14 C25 C16", [] {
        int kind = choose(4, "the others");
        Pair p(TCP, 10); Connection* c = p.c; int fd = p.mine(), peer = p.peer();
        c->Push(mk("queued", 20), false);
        int t = spawn("t1", [c, kind, peer] {
            if (kind == 0) { c->Disconnect(true, true); EQ(c->IsConnected(), false, "connected"); }
            else if (kind == 1) c->Disconnect(false, false);
            else if (kind == 2) { p_send(peer, wf::req(1, "in")); p_close(peer); }
            else { c->Disconnect(false, true); EQ(c->IsConnected(), false, "connected"); }
        });
        int u = spawn("t2", [c] { EQ(c->WaitForStop(-1), true, "waited"); EQ(c->IsConnected(), false, "connected"); EQ(stopped_event(c), true, "event"); });
        c->Disconnect(true, true);
        check_stopped(c, fd); EQ(now_s(), 0.0, "time");
        join(t); join(u);
        EQ(now_s(), 0.0, "time");
    });
    b.bound_quick = 2; b.bound_thorough = 3;
    // waiters of all kinds, woken when it stops and not before
    auto& d = add("stop_waiters", "C15 C16 C27", [] {
        int how = choose(5, "how it ends");
        Pair p(TCP); Connection* c = p.c; c->SetTheirNaIntervalLimit(how == 3 ? 2 : 1000);
        std::vector<int> ts;
        ts.push_back(spawn("inf", [c] { EQ(c->WaitForStop(-1), true, "WaitForStop(-1)"); EQ(now_s(), 2.0, "WaitForStop(-1) returned at"); }));
        ts.push_back(spawn("default", [c] { EQ(c->WaitForStop(), true, "WaitForStop()"); EQ(now_s(), 2.0, "WaitForStop() returned at"); }));
        ts.push_back(spawn("five", [c] { EQ(c->WaitForStop(5), true, "WaitForStop(5)"); EQ(now_s(), 2.0, "WaitForStop(5) returned at"); }));
        ts.push_back(spawn("one", [c] { EQ(c->WaitForStop(1), false, "WaitForStop(1)"); EQ(now_s(), 1.0, "WaitForStop(1) returned at"); }));
        ts.push_back(spawn("event", [c] { EQ(stopped_event(c, -1), true, "event"); EQ(now_s(), 2.0, "event at"); EQ(stopped_event(c, 0), true, "event"); }));
        ts.push_back(spawn("pull", [c] { EQ(pull(c, -1), std::string("null"), "Pull(-1)"); EQ(now_s(), 2.0, "Pull(-1) returned at"); EQ(pull(c, 5), std::string("null"), "Pull(5)"); }));
        ts.push_back(spawn("push", [c] { Request* r = c->Push(mk("ask"), false, -1); EQ(show(r), std::string("null"), "Push(-1)"); EQ(now_s(), 2.0, "Push(-1) returned at"); }));
        sleep_s(2);
        if (how == 0) c->Disconnect(true, false); else if (how == 1) c->Disconnect(true, true); else if (how == 2) p_close(p.peer()); else if (how == 4) c->Disconnect(false, false);
        for (int t : ts) join(t);
        EQ(now_s(), 2.0, "time");
        check_stopped(c, p.mine());
    });
    d.bound_quick = 2; d.bound_thorough = 3; d.delay = true;
    auto& d2 = add("stop_waiter_race", "C15 C16", [] {
        int how = choose(4, "how it ends"); int k = choose(5, "waiter");
        Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        int t = spawn("waiter", [c, k] {
            if (k == 0) EQ(c->WaitForStop(-1), true, "WaitForStop(-1)");
            if (k == 1) EQ(c->WaitForStop(7), true, "WaitForStop(7)");
            if (k == 2) EQ(stopped_event(c, -1), true, "event");
            if (k == 3) EQ(pull(c, -1), std::string("null"), "Pull(-1)");
            if (k == 4) { Request* r = c->Push(mk("ask"), false, -1); EQ(show(r), std::string("null"), "Push(-1)"); }
            if (k < 3) check_stopped(c, -1);
        });
        if (how == 0) c->Disconnect(true, false); else if (how == 1) c->Disconnect(false, false); else if (how == 2) p_close(peer); else { c->Disconnect(true, false); c->Disconnect(true, true); }
        join(t); 
        EQ(c->WaitForStop(9), true, "stopped");
        EQ(now_s(), 0.0, "time"); check_stopped(c, p.mine());
    });
    d2.bound_quick = 3; d2.bound_thorough = 4;
    auto& d3 = add("wait_seconds", "C15 C16 C27 C26", [] {
        int which = choose(6, "what is waited for"); int t = std::vector<int>{0, 1, 3, 59, 2200000, 3000000}[choose(6, "seconds")];
        Pair p(UNIX); Connection* c = p.c; c->SetOurSaInterval(10000000); c->SetTheirNaIntervalLimit(10000000);
        if (which == 0) EQ(c->WaitForStop(t), false, "WaitForStop");
        if (which == 1) EQ(pull(c, t), std::string("null"), "Pull");
        if (which == 2) { Request* r = c->Push(mk("q"), false, t); EQ(show(r), std::string("null"), "Push"); }
        if (which == 3) { Request* r = c->Push(Request("q"), t); EQ(show(r), std::string("null"), "Push"); }
        if (which == 4) EQ(readable(c->GetStoppedEvent(), t), false, "SelectRead");
        if (which == 5) EQ((size_t)read_event(c->GetStoppedEvent(), t), (size_t)0, "ReadEventFd");
        SIM_CHECK(now_s() >= t && now_s() <= t + 0.05, "waited for %g seconds instead of %d", now_s(), t);
        EQ(c->IsConnected(), true, "connected");
    });
    d3.bound_quick = 2; d3.bound_thorough = 3; d3.horizon_s = 9e6;
    // destroyed at any time
    auto& e = add("destroy_any_time", "C15 C24 C11 C14 C16 C25", [] {
        int fam = family(); bool hnd = choose(2, "handler set");
        Pair p(fam, 20); Connection* c = p.c; int peer = p.peer();
        if (hnd) c->SetHandlerDefault(h_default);
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "in") + wf::req(3, "in2").substr(0, 8)); p_send(peer, wf::req(3, "in2").substr(8)); p_close(peer); });
        c->Push(mk("out"), false); c->Push(mk("out2", 15), false);
        p.drop();
        EQ(now_s(), 0.0, "time"); EQ(fd_open(p.mine()), false, "socket open");
        int n = count_marks("D in2#3"); size_t k = history().size(); 
        join(t); settle();
        EQ(history().size(), k, "handlers run after the destruction"); EQ(live_threads(), 0, "threads left"); (void)n;
    });
    e.bound_quick = 3; e.bound_thorough = 4;
    auto& e2 = add("destroy_after", "C15 C24 C16 C23", [] {
        int how = choose(4, "how it ended"); bool pullit = choose(2, "pull");
        Pair p(TCP); Connection* c = p.c;
        p.recv_from_peer(wf::req(1, "in") + wf::req(3, "in2"));
        if (how == 1) { settle(); c->Disconnect(true, false); }
        if (how == 2) { p_close(p.peer()); EQ(c->WaitForStop(3), true, "stopped"); }
        if (how == 3) { settle(); c->Disconnect(false, true); }
        if (pullit && how) { EQ(pull(c), std::string("in#1"), "pulled"); }
        p.drop(); EQ(now_s(), 0.0, "time"); EQ(live_threads(), 0, "threads left"); EQ(open_fds() <= 1, true, "descriptors left");
    });
    e2.bound_quick = 3; e2.bound_thorough = 4;
    // handlers that disconnect their own connection, or another one
    auto& f = add("stop_from_handler", "C15 C17 C16 C14", [] {
        int fam = family(); s_forced = choose(2, "forced"); int n = 1 + choose(2, "requests");
        Pair p(fam); Connection* c = p.c;
        c->SetHandlerDefault([](Connection* k, Request* r) { mark("h"); k->Disconnect(s_forced, false); k->Disconnect(s_forced, false); EQ(k->IsConnected(), true, "connected in the handler"); EQ(k->WaitForStop(0), false, "stopped in the handler"); delete r; });
        std::string in; for (int i = 0; i < n; i++) in += wf::req(1 + 2 * i, "in");
        p.recv_from_peer(in);
        EQ(c->WaitForStop(20), true, "stopped"); EQ(now_s(), 0.0, "time");
        if (!s_forced) EQ(count_marks("h"), 1, "handled");
        check_stopped(c, p.mine());
    });
    f.bound_quick = 3; f.bound_thorough = 4;
    static Connection *X, *Y;
    auto& g = add("stop_cross_handlers", "C15 C17 C25", [] {
        s_forced = choose(2, "forced");
        Pair p(TCP), q(UNIX); X = p.c; Y = q.c;
        X->SetHandlerDefault([](Connection*, Request* r) { mark("x"); Y->Push(mk("from x"), false); Y->IsConnected(); Y->SetOurSaInterval(5); Y->Disconnect(s_forced, false); delete r; });
        Y->SetHandlerDefault([](Connection*, Request* r) { mark("y"); X->Push(mk("from y"), false); X->IsConnected(); X->SetTheirNaIntervalLimit(50); X->Disconnect(s_forced, false); delete r; });
        p.recv_from_peer(wf::req(1, "in")); q.recv_from_peer(wf::req(1, "in"));
        EQ(wait_until_for([] { return marked("x") || marked("y"); }, 1, "a handler"), true, "handled");
        if (s_forced == false) { X->WaitForStop(5); Y->WaitForStop(5); }
        SIM_CHECK(X->WaitForStop(5) || Y->WaitForStop(5), "none stopped"); SIM_CHECK(!marked("x") || Y->WaitForStop(5), "Y not stopped"); SIM_CHECK(!marked("y") || X->WaitForStop(5), "X not stopped");
    });
    g.bound_quick = 2; g.bound_thorough = 3;
    // waiters of a connection that is made anew right after it stopped
    auto& h = add("stop_then_reconnect", "C15 C23 C16 C27 C13 C24", [] {
        int k = choose(5, "waiter"); bool forced = choose(2, "forced");
        int l = p_listen(TCP, "127.0.0.1", 5000); Client* c = new Client();
        EQ(c->ConnectTcp("127.0.0.1", 5000, 3), true, "connected"); int s1 = p_accept(l);
        int t = spawn("waiter", [c, k] {
            if (k == 0) EQ(c->WaitForStop(-1), true, "WaitForStop(-1)");
            if (k == 1) EQ(c->WaitForStop(40), true, "WaitForStop(40)");
            if (k == 2) pull(c, -1);
            if (k == 3) { Request* r = c->Push(mk("ask"), false, -1); EQ(show(r), std::string("null"), "Push(-1)"); }
            if (k == 4) { c->Disconnect(true, true); }
            mark("waiter returned");
        });
        if (k != 4) settle();       // it waits for this connection, not for the next
        c->Disconnect(forced, true);
        bool again = c->ConnectTcp("127.0.0.1", 5000, 3); if (k != 4) EQ(again, true, "connected again");
        if (k != 4) { EQ(wait_until_for([] { return marked("waiter returned"); }, 5, "the waiter"), true, "the waiter returned"); EQ(now_s(), 0.0, "time");
            check_alive(c, TCP); }
        join(t); (void)s1; if (k == 4) { EQ(now_s(), 0.0, "time"); c->Disconnect(true, true); }
        delete c; p_close(l);
    });
    h.bound_quick = 2; h.bound_thorough = 3;
    auto& i = add("stop_again_and_again", "C15 C23 C13 C24 C14", [] {
        int fam = family(); int how = choose(3, "how"); const char* ip = "127.0.0.1";
        int l = p_listen(fam, fam == TCP ? ip : "/s", 5000); Client* c = new Client();
        EQ(c->IsConnected(), false, "connected"); EQ(c->WaitForStop(0), false, "WaitForStop before the first connection");
        for (int k = 0; k < 3; k++) {
            EQ(fam == TCP ? c->ConnectTcp(ip, 5000, 3) : c->ConnectUnix("/s", 3), true, "connected"); int s = p_accept(l); int fd = connected_fds().back();
            check_alive(c, fam); EQ(c->IsDisconnecting(), false, "disconnecting");
            if (how == 0) c->Disconnect(true, true); else if (how == 1) c->Disconnect(false, true); else { p_close(s); EQ(c->WaitForStop(9), true, "stopped"); }
            check_stopped(c, fd); EQ(now_s(), 0.0, "time");
            if (how != 2) { EQ(p_recv(s), std::string(), "the server end"); p_close(s); }
        }
        delete c; p_close(l);
    });
    i.bound_quick = 2; i.bound_thorough = 3;
    add("never_connected", "C15 C23 C16 C12 C27 C24", [] {
        int t = choose(4, "seconds") - 1; Client* c = new Client();
        EQ(c->IsConnected(), false, "connected"); EQ(c->IsDisconnecting(), false, "disconnecting"); EQ((int)c->GetType(), (int)SocketTypeUndefined, "type"); EQ(c->IsConnecting(), false, "connecting");
        c->Disconnect(true, true); c->Disconnect(false, true); c->Disconnect(); EQ(now_s(), 0.0, "time");
        EQ(pull(c, t), std::string("null"), "pulled"); EQ(now_s(), 0.0, "Pull waited");
        EQ(show(c->Push(mk("q"), false, t)), std::string("null"), "pushed"); EQ(show(c->Push(Request("q"), t)), std::string("null"), "pushed"); EQ(now_s(), 0.0, "Push waited");
        c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(4); c->SetHandlerDefault(h_default);
        if (t >= 0) { EQ(c->WaitForStop(t), false, "WaitForStop"); EQ(now_s(), (double)t, "waited"); EQ(stopped_event(c, t), false, "event"); EQ(now_s(), 2.0 * t, "waited"); }
        delete c; EQ(live_threads(), 0, "threads");
    }).bound_quick = 3;
    // wait for the first connection
    auto& j = add("wait_before_connect", "C15 C23", [] {
        int l = p_listen(TCP, "127.0.0.1", 5000); Client* c = new Client();
        int t = spawn("waiter", [c] { EQ(c->WaitForStop(-1), true, "WaitForStop(-1)"); mark("returned"); EQ(now_s(), 4.0, "returned at"); });
        settle(); sleep_s(1); EQ(c->ConnectTcp("127.0.0.1", 5000, 3), true, "connected"); int s = p_accept(l); settle(); EQ(marked("returned"), false, "returned before it stopped"); sleep_s(3);
        p_close(s); join(t); delete c; p_close(l);
    });
    j.bound_quick = 2; j.bound_thorough = 3;
    return 0;
}();
