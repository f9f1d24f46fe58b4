// C20, C21, C22: the server, its connections and the references to them.
#include "scen.hpp"
#include <algorithm>

static Server* S;
static Connection* CONN[64];
static uint32_t IDS[64];
static int NCONN, NGONE, BASE, ACT;       // BASE: first connection of this run of the server
static uint32_t idof(Connection* c) { track_read(&c->id, 4); return c->id; }
static void reset() { S = nullptr; NCONN = NGONE = BASE = 0; memset(CONN, 0, sizeof CONN); memset(IDS, 0, sizeof IDS); }
static bool start(Server* s, int fam, int k = 0) { return fam == TCP ? s->StartTcp("127.0.0.1", 6000 + k) : s->StartUnix(k ? "/u1" : "/u"); }
static int dial(int fam, int k = 0) { return fam == TCP ? p_connect(TCP, "127.0.0.1", 6000 + k) : p_connect(UNIX, k ? "/u1" : "/u", 0); }
static int slot(Connection* c) { for (int i = NCONN; i-- > 0;) if (CONN[i] == c) return i; return -1; }
static std::string num(long v) { return std::to_string(v); }
static std::string ref_state(SafeConnection* r) { return r ? "reference" : "null"; }
static SafeConnection* look(uint32_t id) { return S->GetConnection(id); }
static bool dead(uint32_t id) { SafeConnection* r = S->GetConnection(id); if (!r) return true; shim::drop(r); return false; }
static void on_request(Connection* c, Request* r) { mark("request " + num(slot(c)) + " " + show(r)); delete r; }
// the usual handlers: announce, check what must be true then
static void on_connected(Server* s, Connection* c) {
    int i = NCONN++; CONN[i] = c; IDS[i] = idof(c);
    SIM_CHECK(s == S, "another server"); SIM_CHECK(IDS[i] != 0, "the id is 0 in the connected handler");
    for (int k = BASE; k < i; k++) SIM_CHECK(IDS[k] != IDS[i], "id %u was used before", IDS[i]);
    c->SetHandlerDefault(on_request);
    mark("connected " + num(i));
}
static void on_disconnected(Server* s, Connection* c) {
    SIM_CHECK(s == S, "another server");
    int i = slot(c); SIM_CHECK(i >= 0, "the connection was never announced"); EQ(idof(c), IDS[i], "id in the disconnected handler");
    EQ(c->IsConnected(), false, "connected in the disconnected handler"); EQ(c->WaitForStop(0), true, "stopped in the disconnected handler");
    EQ(marked("disconnected " + num(i)), false, "the disconnected handler was called before");
    NGONE++; mark("disconnected " + num(i));
}
static Server* mks(bool handlers = true) {
    reset(); S = new Server();
    if (handlers) { shim::set_connected(S, on_connected); shim::set_disconnected(S, on_disconnected); }
    return S;
}
static void await_connected(int n) { EQ(wait_until_for([n] { return NCONN >= n && marked("connected " + num(n - 1)); }, 5, "the connected handler"), true, "connected handler called"); }
static void await_gone(int n) { EQ(wait_until_for([n] { return NGONE >= n; }, 1, "the disconnected handler"), true, "disconnected handler called"); }
// the connection in question can be looked up once its handler has returned; settle() makes sure it has
static SafeConnection* must_find(int i) { SafeConnection* r = look(IDS[i]); SIM_CHECK(r, "connection %d is not found by its id", i); EQ(idof(&shim::get(r)), IDS[i], "id of the connection found"); return r; }
static void all_closed() { for (int fd : accepted_fds()) EQ(fd_open(fd), false, "an accepted connection is open"); }
static void check_down(int fam, int k = 0) {
    all_closed(); EQ(open_fds_of(1), 0, "listening sockets"); EQ((int)S->GetType(), (int)SocketTypeUndefined, "type");
    if (fam == UNIX) EQ(file_exists(k ? "/u1" : "/u"), false, "socket file");
    EQ(dial(fam, k), -1, "connecting to the stopped server");
}
static void use_conn(Connection& c) {       // everything a holder of a reference may do
    c.IsConnected(); c.IsDisconnecting(); c.GetType(); c.Push(mk("held"), false); { Request r("held"); c.Push(r); } delete c.Pull(); c.SetOurSaInterval(9); c.SetTheirNaIntervalLimit(70);
    c.GetOurSaInterval(); c.SetHandlerNamed("x", h_a); c.GetHandlerNamed("x"); c.SetHandlerNamed("x", nullptr); c.SetSendBlockSize(100); c.SetRecvBlockSize(100); c.SetMaxRequestSize(1000); c.WaitForStop(0); c.GetRefs(); c.GetStoppedEvent(); c.Disconnect(false, false); c.Disconnect(true, false);
}
static void finish(Server* s, double at = -1) { delete s; S = nullptr; if (at >= 0) EQ(now_s(), at, "time"); all_closed(); EQ(open_fds_of(1), 0, "listening sockets"); EQ(live_threads(), 0, "threads left"); }

static int reg = [] {
    // ---------------------------------------------------------------- C21
    auto& a = add("server_serves", "C21 C20 C12 C17 C22 C24 C10 C13", [] {
        int fam = family(); int n = 1 + choose(2, "clients"); bool at_once = choose(2, "send at once");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p[2];
        for (int i = 0; i < n; i++) { p[i] = dial(fam); SIM_CHECK(p[i] >= 0, "cannot connect"); if (at_once) p_send(p[i], wf::req(1, "c" + num(i)) + wf::req(3, "d" + num(i))); }
        await_connected(n); settle();
        for (int i = 0; i < n; i++) {
            if (!at_once) p_send(p[i], wf::req(1, "c" + num(i)) + wf::req(3, "d" + num(i)));
            SafeConnection* r = must_find(i); EQ(&shim::get(r) == CONN[i], true, "the connection found"); EQ(shim::get(r).IsConnected(), true, "connected"); EQ((int)shim::get(r).GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
            shim::get(r).Push(mk("s"), false); shim::drop(r);
        }
        settle();
        for (int i = 0; i < n; i++) {
            std::string me = num(i);
            EQ(join_s(marks_with("request " + me)), "request " + me + " c" + me + "#1,request " + me + " d" + me + "#3", "requests");
            EQ(mark_pos("connected " + me) < mark_pos("request " + me + " c" + me + "#1"), true, "the handler came first");
            EQ(names_of(p_recv(p[i])), std::string("s"), "received by the client");
        }
        p_close(p[0]); await_gone(1); EQ(marked("disconnected 0"), true, "disconnected handler"); EQ(dead(IDS[0]), true, "the closed connection can be looked up");
        if (n == 2) { EQ(dead(IDS[1]), false, "the other connection is gone"); EQ(count_marks("disconnected 1"), 0, "disconnected handler"); }
        EQ(dead(12345), true, "an unknown id"); EQ(dead(0), true, "id 0");
        finish(s, 0); EQ(count_marks("connected 0"), 1, "connected handler");
    });
    a.bound_quick = 2; a.bound_thorough = 3; a.delay = true;
    // a client sends before the server has set the connection up; the handler takes its time
    auto& b = add("server_handler_first", "C21 C17 C10 C16 C12 C20", [] {
        int fam = family(); ACT = choose(8, "the handler");
        Server* s = mks(false); shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server*, Connection* c) {
            int i = NCONN++; CONN[i] = c; IDS[i] = idof(c); SIM_CHECK(IDS[i] != 0, "the id is 0 in the connected handler");
            EQ(c->IsConnected(), true, "connected in the handler"); EQ(count_marks("request 0 in#1"), 0, "requests before the handler has returned");
            if (ACT == 1) { sleep_s(1); } if (ACT == 2) { c->Push(mk("hello"), false); pause_point(); }
            if (ACT == 3) { Request* r = c->Pull(5); EQ(show(r), std::string("in#1"), "pulled in the handler"); delete r; }
            if (ACT == 4) { Request* r = c->Push(mk("ask"), false, 5); EQ(show(r), std::string("re#2"), "answer in the handler"); delete r; }
            if (ACT >= 6) { if (ACT == 7) wait_mark("sent"); EQ(show(c->Pull(0)), std::string("null"), "pulled in the handler"); EQ(show(c->Pull()), std::string("null"), "pulled in the handler"); settle(); EQ(show(c->Pull(0)), std::string("null"), "pulled in the handler"); }
            if (ACT == 5) { SafeConnection* r = look(IDS[i]); if (r) shim::drop(r); c->tag = "t"; }
            c->SetHandlerDefault(on_request); mark("connected 0");
        });
        EQ(start(s, fam), true, "started"); int p = dial(fam);
        if (ACT == 4) { std::string q = p_recv(p); p_send(p, wf::req(wf::rd(q, 4, 4), "re")); }
        p_send(p, ACT == 3 || ACT == 4 ? wf::req(1, "in") : wf::req(1, "in") + wf::req(3, "in")); mark("sent");
        await_connected(1); if (ACT == 4) { SafeConnection* r = nullptr; settle(); r = must_find(0); std::string q = pull(&shim::get(r)); if (q != "null") mark("request 0 " + q); shim::drop(r); }
        if (ACT == 3 || ACT == 4) p_send(p, wf::req(3, "in"));
        EQ(wait_until_for([] { return count_marks("request 0 in#3") == 1; }, 5, "requests"), true, "handled");
        EQ(join_s(marks_with("request")), std::string(ACT == 3 ? "request 0 in#3" : "request 0 in#1,request 0 in#3"), "handled");
        if (ACT != 1) EQ(now_s(), 0.0, "time");
        finish(s);
    });
    b.bound_quick = 2; b.bound_thorough = 3;
    auto& b2 = add("server_short_lived", "C21 C20 C24 C17 C15", [] {
        int fam = family(); bool data = choose(2, "sends something"); bool two = choose(2, "two clients");
        Server* s = mks(); EQ(start(s, fam), true, "started");
        auto go = [=] { int p = dial(fam); if (data) p_send(p, wf::req(1, "in")); p_close(p); };
        int t = two ? spawn("second", go) : -1;
        go(); if (two) join(t);
        await_gone(1 + two); EQ(NCONN, 1 + two, "announced");
        for (int i = 0; i < NCONN; i++) { EQ(count_marks("connected " + num(i)), 1, "connected handler"); EQ(count_marks("disconnected " + num(i)), 1, "disconnected handler"); SIM_CHECK(mark_pos("connected " + num(i)) < mark_pos("disconnected " + num(i)), "order");
            if (data) { EQ(count_marks("request " + num(i) + " in#1"), 1, "handled"); } EQ(dead(IDS[i]), true, "looked up"); }
        EQ(now_s(), 0.0, "time"); finish(s, 0);
    });
    b2.bound_quick = 2; b2.bound_thorough = 3; b2.delay = true;
    // a crowd comes at once, some of it goes at once, the rest is still served
    auto& b4 = add("server_crowd", "C21 C20 C24 C22 C15", [] {
        const int n = 4; int fam = family(); int gone = choose(5, "leaving"); bool back = choose(2, "the last ones"); bool now = choose(2, "at once");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p[n];
        for (int i = 0; i < n; i++) { p[i] = dial(fam); SIM_CHECK(p[i] >= 0, "cannot connect"); if (!now) await_connected(i + 1); }
        await_connected(n); settle(); auto leaves = [=](int i) { return back ? i >= n - gone : i < gone; };
        for (int i = 0; i < n; i++) if (leaves(i)) p_close(p[i]); else p_send(p[i], wf::req(1, "in"));
        await_gone(gone); settle();
        for (int i = 0; i < n; i++) { EQ(count_marks("disconnected " + num(i)), (int)leaves(i), "disconnected handler"); EQ(dead(IDS[i]), leaves(i), "gone"); EQ(count_marks("request " + num(i) + " in#1"), (int)!leaves(i), "handled"); EQ(fd_open(accepted_fds()[i]), !leaves(i), "socket open"); }
        int q = dial(fam); (void)q; await_connected(n + 1); settle(); shim::drop(must_find(n)); EQ(NGONE, gone, "gone");
        finish(s, 0);
    });
    b4.bound_quick = 1; b4.bound_thorough = 2; b4.delay = true;
    auto& b3 = add("server_no_handlers", "C21 C22 C16 C17 C10", [] {
        int fam = family(); int which = choose(4, "handlers set");
        Server* s = mks(false); if (which & 1) shim::set_connected(s, on_connected); if (which & 2) shim::set_disconnected(s, [](Server*, Connection*) { NGONE++; mark("gone"); });
        EQ(start(s, fam), true, "started");
        for (int i = 0; i < 2; i++) { int p = dial(fam); p_send(p, wf::req(1, "in")); settle(); EQ(accepted_fds().size(), (size_t)(i + 1), "accepted"); EQ(fd_open(accepted_fds().back()), true, "open"); p_close(p); settle(); EQ(fd_open(accepted_fds().back()), false, "open after the client left"); }
        EQ(NCONN, which & 1 ? 2 : 0, "announced"); EQ(NGONE, which & 2 ? 2 : 0, "gone");
        if (which == 0) { shim::set_connected(s, on_connected); shim::set_disconnected(s, on_disconnected); int p = dial(fam); await_connected(1); shim::set_connected(s, nullptr); p_close(p); await_gone(1); shim::set_disconnected(s, nullptr); p = dial(fam); settle(); EQ(NCONN, 1, "announced"); EQ(accepted_fds().size(), (size_t)4, "accepted"); p_close(p); settle(); EQ(fd_open(accepted_fds().back()), false, "open"); }
        finish(s, 0);
    });
    b3.bound_quick = 3; b3.bound_thorough = 4; b3.delay = true;
    // the limit
    static int MAXC; static bool OVER;
    auto& d = add("server_limit", "C21 C20 C22 C15", [] {
        int fam = family(); int lim = choose(4, "limit") - 1; int n = 3;
        Server* s = mks(false); MAXC = lim; OVER = false; shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); int o = 0; for (int fd : accepted_fds()) o += fd_open(fd); if (MAXC >= 0 && o > MAXC) OVER = true; });
        EQ((int)s->GetMaxConnections(), -1, "default limit"); s->SetMaxConnections(lim); EQ((int)s->GetMaxConnections(), lim, "limit");
        EQ(start(s, fam), true, "started"); int p[3];
        for (int i = 0; i < n; i++) { p[i] = dial(fam); SIM_CHECK(p[i] >= 0, "cannot connect"); }
        settle(); int open = lim < 0 ? n : std::min(lim, n); EQ(NCONN, open, "announced"); EQ((int)accepted_fds().size(), open, "accepted");
        if (lim >= 0) {
            int served = open, gone = 0;
            for (int i = 0; i < open && served < n; i++) { p_close(p[i]); gone++; settle(); served++; EQ(NCONN, served, "announced after a place was free"); EQ(NGONE, gone, "gone"); }
            if (lim == 0) { MAXC = 1; s->SetMaxConnections(1); settle(); EQ(NCONN, 1, "announced after the limit was raised"); MAXC = -5; s->SetMaxConnections(-5); settle(); EQ(NCONN, 3, "announced without a limit"); }
        } else {
            // lowered: nobody is thrown out, nobody comes in
            MAXC = 1; s->SetMaxConnections(1); int q = dial(fam); settle(); EQ(NCONN, 3, "announced"); EQ(NGONE, 0, "gone"); OVER = false;
            p_close(p[0]); p_close(p[1]); settle(); EQ(NCONN, 3, "announced"); p_close(p[2]); settle(); EQ(NCONN, 4, "announced after all left"); (void)q;
        }
        EQ(OVER, false, "more connections than allowed"); EQ(now_s(), 0.0, "time");
        finish(s, 0);
    });
    d.bound_quick = 2; d.bound_thorough = 3; d.delay = true;
    auto& d2 = add("server_limit_race", "C21 C25 C22", [] {
        int fam = family(); int what = choose(3, "what happens");
        Server* s = mks(false); MAXC = 1; OVER = false; shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); int o = 0; for (int fd : accepted_fds()) o += fd_open(fd); if (o > MAXC) OVER = true; });
        s->SetMaxConnections(what == 2 ? 0 : 1); EQ(start(s, fam), true, "started");
        int p = -1; if (what != 2) { p = dial(fam); }
        int t = spawn("second", [=] { int q = dial(fam); p_send(q, wf::req(1, "in")); EQ(wait_until_for([] { return count_marks("request 0 in#1") + count_marks("request 1 in#1") > 0; }, 3, "to be served"), true, "served"); p_close(q); });
        if (what == 0) p_close(p); else if (what == 1) { MAXC = 2; s->SetMaxConnections(2); s->SetMaxConnections(2); } else { s->SetMaxConnections(1); s->SetMaxConnections(1); EQ((int)s->GetMaxConnections(), 1, "limit"); }
        join(t); EQ(now_s(), 0.0, "time"); EQ(OVER, false, "more connections than allowed");
        finish(s, 0);
    });
    d2.bound_quick = 3; d2.bound_thorough = 4; d2.delay = true;
    auto& d3 = add("server_ids", "C21 C20", [] {
        int fam = family(); Server* s = mks(); EQ(start(s, fam), true, "started");
        int prev = -1; for (int i = 0; i < 5; i++) { int p = dial(fam); await_connected(i + 1); settle(); shim::drop(must_find(i)); if (i % 2 == 0) { if (prev >= 0) p_close(prev); prev = p; } else { p_close(p); } settle(); }
        EQ(NCONN, 5, "announced"); EQ(NGONE, 4, "gone"); for (int i = 0; i < 5; i++) EQ(dead(IDS[i]), i != 4, "closed");
        finish(s, 0);
    });
    d3.bound_quick = 2; d3.bound_thorough = 3; d3.delay = true;
    // ids stay different over many connections, of which a few stay
    static uint32_t SEEN[400]; static long DIFF;
    static auto many = [](int fam, int stay, int n) {
        DIFF = 0;
        Server* s = mks(false); shim::set_disconnected(s, [](Server*, Connection* c) { DIFF += idof(c) != SEEN[NCONN - 1]; NGONE++; });
        shim::set_connected(s, [](Server*, Connection* c) { SEEN[NCONN++] = idof(c); });
        EQ(start(s, fam), true, "started"); if (stay) { dial(fam); settle(); }
        uint32_t first = stay ? SEEN[0] : 0;
        for (int i = 0; i < n; i++) {
            int p = dial(fam); SIM_CHECK(p >= 0, "cannot connect"); settle(); EQ(NCONN, i + 1 + stay, "announced");
            SafeConnection* r = look(SEEN[NCONN - 1]); SIM_CHECK(r, "connection %d is not found by its id", i); EQ(idof(&shim::get(r)), SEEN[NCONN - 1], "id of the connection found"); shim::drop(r);
            if (stay) { EQ(SEEN[NCONN - 1] == first, false, "the id of another connection"); }
            p_close(p); settle(); EQ(NGONE, i + 1, "gone"); EQ(dead(SEEN[NCONN - 1]), true, "looked up");
        }
        std::vector<uint32_t> v(SEEN, SEEN + NCONN); std::sort(v.begin(), v.end()); EQ(std::unique(v.begin(), v.end()) == v.end(), true, "ids differ"); EQ(v[0] != 0, true, "no id is 0"); EQ(DIFF, 0L, "ids in the disconnected handler");
        if (stay) { SafeConnection* r = look(first); SIM_CHECK(r, "the first connection is not found"); EQ(idof(&shim::get(r)), first, "id of the connection found"); shim::drop(r); }
        finish(s, 0);
    };
    // many connections at once
    auto& d5 = add("server_many_at_once", "C21 C20 C22 C12 C17 C24", [] {
        int fam = family(); const int n = 18; int end = choose(5, "end"); bool at_once = choose(2, "connect at once");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p[n];
        for (int i = 0; i < n; i++) { p[i] = dial(fam); SIM_CHECK(p[i] >= 0, "cannot connect"); if (!at_once) { settle(); EQ(NCONN, i + 1, "announced"); } }
        settle(); EQ(NCONN, n, "announced");
        for (int i = 0; i < n; i++) p_send(p[i], wf::req(1, "q" + num(i)));
        settle();
        for (int i = 0; i < n; i++) { EQ(count_marks("request " + num(i) + " q" + num(i) + "#1"), 1, "requests"); SafeConnection* r = must_find(i); EQ(&shim::get(r) == CONN[i], true, "the connection found"); shim::get(r).Push(mk("s" + num(i)), false); shim::drop(r); }
        settle(); for (int i = 0; i < n; i++) EQ(names_of(p_recv(p[i])), "s" + num(i), "received by the client");
        if (end <= 1) for (int k = 0; k < n; k++) { int i = end ? n - 1 - k : (k * 5) % n; p_close(p[i]); settle(); EQ(NGONE, k + 1, "gone"); EQ(marked("disconnected " + num(i)), true, "disconnected handler"); EQ(dead(IDS[i]), true, "looked up"); }
        if (end == 2) { for (int i = 0; i < n; i++) p_close(p[i]); settle(); EQ(NGONE, n, "gone"); }
        if (end == 3) { for (int i = 0; i < n; i++) { SafeConnection* r = must_find(i); shim::get(r).Push(mk("last"), false); shim::drop(r); } s->Stop(-1); for (int i = 0; i < n; i++) { SIM_CHECK(prefix(p_recv(p[i]), wf::req(4, "last")), "received by the client"); EQ(p_recv(p[i]), std::string(), "received by the client"); } check_down(fam); }
        for (int i = 0; i < n; i++) if (end < 3) EQ(count_marks("disconnected " + num(i)), 1, "disconnected handler");
        finish(s, 0); for (int i = 0; i < n; i++) SIM_CHECK(count_marks("disconnected " + num(i)) <= 1, "the disconnected handler was called twice");
    });
    d5.bound_quick = 0; d5.bound_thorough = 0; d5.delay = true; d5.max_steps = 400000;
    // several end at the same time, while a handler keeps the server's thread from noticing
    auto& d6 = add("server_ends_together", "C21 C20 C24 C22", [] {
        int fam = family(); const int n = 4; int stays = choose(n + 1, "who stays"); ACT = choose(2, "slow handler");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p[n + 2];
        for (int i = 0; i < n; i++) { p[i] = dial(fam); settle(); EQ(NCONN, i + 1, "announced"); }
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); if (NCONN == n + 1) { mark("slow"); wait_mark("go"); } });
        p[n] = dial(fam); wait_mark("slow");
        for (int i = 0; i < n; i++) if (i != stays) p_close(p[i]);
        settle(); EQ(NGONE, 0, "gone during a handler"); mark("go"); settle();
        for (int i = 0; i <= n; i++) { bool here = i == stays || i == n; EQ(count_marks("disconnected " + num(i)), here ? 0 : 1, "disconnected handler"); EQ(dead(IDS[i]), !here, "looked up"); }
        p[n + 1] = dial(fam); settle(); EQ(NCONN, n + 2, "announced"); p_send(p[n + 1], wf::req(1, "in")); p_send(p[n], wf::req(1, "in")); settle();
        EQ(marked("request " + num(n + 1) + " in#1"), true, "handled"); EQ(marked("request " + num(n) + " in#1"), true, "handled");
        EQ(live_threads(), 1 + 2 + (stays < n), "threads");
        p_close(p[n]); p_close(p[n + 1]); settle(); EQ(NGONE, n + 2 - (stays < n), "gone"); finish(s, 0);
    });
    d6.bound_quick = 1; d6.bound_thorough = 2; d6.delay = true;
    // a tag passes to a new connection while the old one is about to go
    auto& d7 = add("tag_passed_on", "C20 C21", [] {
        int fam = family(); int how = choose(3, "the old one"); bool newer_first = choose(2, "tagged before the end"), busy = choose(2, "server busy");
        Server* s = mks(false); shim::set_connected(s, on_connected);
        shim::set_disconnected(s, [](Server* q, Connection* c) {
            on_disconnected(q, c); if (slot(c)) return;
            SafeConnection* r = q->GetConnection("t"); if (CONN[1]->tag != "t") { SIM_CHECK(!r, "found"); CONN[1]->tag = "t"; r = q->GetConnection("t"); }
            SIM_CHECK(r, "the connection with the tag is not found"); EQ(&shim::get(r) == CONN[1], true, "the connection found"); shim::drop(r); mark("looked up");
        });
        EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); int q = dial(fam); await_connected(2); settle();
        CONN[0]->tag = "t"; if (newer_first) CONN[1]->tag = "t"; (void)q;
        if (busy) { shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); mark("slow"); wait_mark("go"); }); dial(fam); wait_mark("slow"); }
        if (how == 0) p_close(p); if (how == 1) CONN[0]->Disconnect(true, false); if (how == 2) CONN[0]->Disconnect(false, false);
        if (busy) { settle(); EQ(dead(IDS[0]), true, "looked up"); SafeConnection* r = s->GetConnection("t"); if (newer_first) { SIM_CHECK(r, "the connection with the tag is not found"); EQ(&shim::get(r) == CONN[1], true, "the connection found"); shim::drop(r); } else SIM_CHECK(!r, "found"); mark("go"); }
        await_gone(1); settle(); EQ(marked("looked up"), true, "looked up"); SafeConnection* r = s->GetConnection("t"); SIM_CHECK(r, "the connection with the tag is not found"); EQ(&shim::get(r) == CONN[1], true, "the connection found"); shim::drop(r); finish(s, 0);
    });
    d7.bound_quick = 2; d7.bound_thorough = 3; d7.delay = true;
    // a connection that is kept does not keep the others from being closed by a stop
    auto& d8 = add("server_stop_kept", "C22 C20", [] {
        int fam = family(); const int n = 3; int kept = choose(n, "kept"); int how = choose(2, "by"); int waits = choose(2, "stop");
        Server* s = mks(); EQ(start(s, fam), true, "started"); static int P[n]; for (int i = 0; i < n; i++) { P[i] = dial(fam); await_connected(i + 1); settle(); }
        SafeConnection* r = nullptr; ACT = kept;
        if (how == 0) r = must_find(kept); else { CONN[kept]->SetHandlerDefault([](Connection*, Request* q) { delete q; mark("busy"); for (int i = 0; i < n; i++) if (i != ACT) EQ(p_recv(P[i]), std::string(), "received by a client"); mark("others closed"); }); p_send(P[kept], wf::req(1, "in")); wait_mark("busy"); }
        int t = how == 0 ? spawn("keeper", [r] { for (int i = 0; i < n; i++) if (i != ACT) EQ(p_recv(P[i]), std::string(), "received by a client"); mark("others closed"); shim::drop(r); }) : -1;
        if (waits) s->Stop(-1); else { s->Stop(); wait_mark("others closed"); }
        EQ(marked("others closed"), true, "the others were closed"); if (t >= 0) join(t); EQ(now_s(), 0.0, "time"); finish(s, 0); EQ(p_recv(P[kept]), std::string(), "received by the client");
    });
    d8.bound_quick = 1; d8.bound_thorough = 2; d8.delay = true;
    auto& d4 = add("server_many_ids", "C21 C20 C22", [] { int fam = family(); many(fam, choose(2, "one stays") ? 1 : 0, 300); });
    d4.bound_quick = 0; d4.bound_thorough = 0; d4.max_steps = 20000000;
    // ---------------------------------------------------------------- C20
    auto& e = add("ref_keeps", "C20 C24 C21 C15 C16 C14", [] {
        int fam = family(); int how = choose(6, "end"); bool two = choose(2, "two references");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle();
        SafeConnection* r = must_find(0); SafeConnection* r2 = two ? must_find(0) : nullptr; Connection& c = shim::get(r); c.SetHandlerDefault(nullptr);
        p_send(p, wf::req(1, "in")); settle();
        if (how == 0) p_close(p); else if (how == 1) c.Disconnect(true, false); else if (how == 2) c.Disconnect(false, false); else if (how == 3) { c.SetTheirNaIntervalLimit(2); sleep_s(3); } else if (how == 4) { p_send(p, std::string("\xff\xff\xff\xff", 4)); } else { p_close(p); c.Disconnect(false, false); }
        settle(); sleep_s(20); settle(); double t0 = now_s();
        EQ(NGONE, 0, "gone while referenced"); EQ(c.WaitForStop(0), false, "stopped while referenced"); EQ(c.GetRefs(), 1u + two, "references");
        EQ(c.IsConnected(), true, "connected while referenced"); EQ(idof(&c), IDS[0], "id"); EQ(c.IsDisconnecting(), true, "disconnecting");
        EQ(pull(&c, -1), std::string("in#1"), "pulled"); EQ(pull(&c, -1), std::string("null"), "pulled"); EQ(pull(&c, 7), std::string("null"), "pulled");
        EQ(show(c.Push(mk("x"), false, 7)), std::string("null"), "pushed"); EQ(show(c.Push(mk("x"), false, -1)), std::string("null"), "pushed");
        use_conn(c); EQ(now_s(), t0, "time");
        if (two) { shim::drop(r); settle(); EQ(NGONE, 0, "gone while referenced"); EQ(c.GetRefs(), 1u, "references"); use_conn(shim::get(r2)); r = r2; }
        shim::drop(r); await_gone(1); EQ(now_s(), t0, "time"); EQ(dead(IDS[0]), true, "looked up");
        EQ(count_marks("disconnected 0"), 1, "disconnected handler");
        finish(s, t0);
    });
    e.bound_quick = 2; e.bound_thorough = 3; e.delay = true;
    auto& ec = add("ref_copies", "C20 C24", [] {
        int fam = family(); int what = choose(4, "copied how"); bool orig_first = choose(2, "the original goes first");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam), q = dial(fam); await_connected(2); settle();
        SafeConnection *a = must_find(0), *b = nullptr, *o = nullptr; (void)q; Connection& c = shim::get(a); c.SetHandlerDefault(nullptr);
        if (what == 0) b = shim::copy(a);
        if (what == 1) { b = look(IDS[1]); shim::assign(b, a); EQ(CONN[1]->GetRefs(), 0u, "references"); EQ(c.GetRefs(), 2u, "references"); }
        if (what == 2) { shim::assign(a, a); EQ(c.GetRefs(), 1u, "references"); b = shim::copy(a); }
        if (what == 3) { o = shim::copy(a); b = shim::copy(o); shim::drop(o); }
        EQ(&shim::get(b) == &c, true, "the connection of the copy"); EQ(c.GetRefs(), 2u, "references");
        p_close(p); settle(); EQ(NGONE, 0, "gone"); shim::drop(orig_first ? a : b); settle(); sleep_s(1);
        EQ(NGONE, 0, "gone while a copy is held"); Connection& k = shim::get(orig_first ? b : a); EQ(k.GetRefs(), 1u, "references"); use_conn(k);
        shim::drop(orig_first ? b : a); await_gone(1); finish(s, 1);
    });
    ec.bound_quick = 2; ec.bound_thorough = 3; ec.delay = true;
    // the only reference is assigned to itself, or swapped through a copy, while the connection waits to be released
    auto& es = add("ref_self_assign", "C20 C24 C25", [] {
        int fam = family(); int how = choose(2, "assigned"); bool ended = choose(2, "ended before");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle();
        SafeConnection* a = must_find(0); Connection& c = shim::get(a); c.SetHandlerDefault(nullptr);
        if (ended) { p_close(p); settle(); } else p_close(p);
        for (int k = 0; k < 2; k++) {
            if (how == 0) shim::assign(a, a); else { SafeConnection* b = shim::copy(a); shim::assign(a, b); shim::drop(b); }
            EQ(NGONE, 0, "gone while referenced"); EQ(&shim::get(a) == &c, true, "the connection of the reference"); EQ(c.GetRefs(), 1u, "references"); EQ(c.IsConnected(), true, "connected while referenced");
        }
        use_conn(c); EQ(NGONE, 0, "gone while referenced"); shim::drop(a); await_gone(1); finish(s, 0);
    });
    es.bound_quick = 3; es.bound_thorough = 4; es.delay = true;
    auto& e2 = add("ref_race", "C20 C24 C25 C15", [] {
        int fam = family(); int how = choose(3, "end");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle();
        int t = spawn("holder", [] {
            for (int k = 0; k < 2; k++) { SafeConnection* r = look(IDS[0]); if (!r) { mark("null"); continue; } EQ(marked("null"), false, "found again after it was gone");
                EQ(NGONE, 0, "gone"); Connection& c = shim::get(r); c.Push(mk("h"), false); delete c.Pull(); EQ(c.IsConnected(), true, "connected while referenced"); EQ(NGONE, 0, "gone"); EQ(idof(&c), IDS[0], "id"); shim::drop(r); } });
        SafeConnection* r = nullptr;
        if (how == 0) p_close(p); else { r = look(IDS[0]); SIM_CHECK(r, "not found"); if (how == 2) p_close(p); shim::get(r).Disconnect(true, false); shim::get(r).Push(mk("late"), false); EQ(NGONE, 0, "gone"); shim::drop(r); }
        join(t); await_gone(1); EQ(now_s(), 0.0, "time"); EQ(dead(IDS[0]), true, "looked up");
        finish(s, 0);
    });
    e2.bound_quick = 3; e2.bound_thorough = 4; e2.delay = true;
    auto& e3 = add("ref_two_holders", "C20 C24 C25 C15 C16", [] {
        Server* s = mks(); EQ(start(s, UNIX), true, "started"); int p = dial(UNIX); await_connected(1); settle();
        auto hold = [](const char* n) { return [n] { SafeConnection* r = look(IDS[0]); if (!r) return; mark(n); Connection& c = shim::get(r); c.Disconnect(true, false); pause_point(); EQ(NGONE, 0, "gone"); c.Push(mk("x"), false); shim::drop(r); mark(std::string("dropped ") + n); }; };
        int t = spawn("a", hold("a")), u = spawn("b", hold("b"));
        p_send(p, wf::req(1, "in")); p_close(p);
        join(t); join(u); await_gone(1); 
        for (auto& m : marks_with("dropped ")) SIM_CHECK(mark_pos(m) >= 0, "order");
        EQ(now_s(), 0.0, "time"); EQ(dead(IDS[0]), true, "looked up"); finish(s, 0);
    });
    e3.bound_quick = 3; e3.bound_thorough = 4; e3.delay = true;
    // lookups from within every kind of handler, also of the connection that is going away
    auto& f = add("lookup_in_handlers", "C20 C21 C25 C17 C22", [] {
        int fam = family(); ACT = choose(2, "by");
        Server* s = mks(false);
        static auto find = [](int i) -> SafeConnection* { return ACT ? S->GetConnection(std::string("tag") + std::to_string(i)) : S->GetConnection(IDS[i]); };
        shim::set_connected(s, [](Server* q, Connection* c) {
            on_connected(q, c); int i = NCONN - 1; c->tag = "tag" + num(i);
            c->SetHandlerDefault([](Connection* k, Request* r) {
                int me = slot(k);
                for (int j = 0; j < NCONN; j++) { SafeConnection* x = find(j); if (j == me) SIM_CHECK(x, "a connection does not find itself"); if (x) { EQ(&shim::get(x) == CONN[j], true, "the connection found"); shim::get(x).Push(mk("from" + num(me)), false); shim::drop(x); } }
                mark("request " + num(me) + " " + show(r)); delete r; });
            for (int j = 0; j < i; j++) { SafeConnection* x = find(j); if (x) { shim::get(x).Push(mk("new"), false); shim::drop(x); } }
        });
        shim::set_disconnected(s, [](Server* q, Connection* c) {
            on_disconnected(q, c); int me = slot(c); SIM_CHECK(!find(me), "a connection that is being cleaned up can be looked up");
            for (int j = 0; j < NCONN; j++) if (j != me) { SafeConnection* x = find(j); if (x) { shim::get(x).Push(mk("left"), false); shim::drop(x); } }
        });
        EQ(start(s, fam), true, "started"); int p = dial(fam), q = dial(fam); await_connected(2);
        p_send(p, wf::req(1, "in")); p_send(q, wf::req(1, "in")); p_close(p);
        EQ(wait_until_for([] { return count_marks("request 1 in#1") == 1 && NGONE == 1; }, 1, "both"), true, "handled"); EQ(now_s(), 0.0, "time");
        settle(); std::string got = names_of(p_recv(q)); SIM_CHECK(got.find("left") != std::string::npos && got.find("from1") != std::string::npos, "received '%s'", got.c_str());
        SafeConnection* x = S->GetConnection("nobody"); EQ(ref_state(x), std::string("null"), "an unknown tag");
        finish(s, 0);
    });
    f.bound_quick = 2; f.bound_thorough = 3; f.delay = true;
    auto& f2 = add("lookup_coming_and_going", "C20 C21 C25", [] {
        int fam = family();
        Server* s = mks(); EQ(start(s, fam), true, "started");
        int t = spawn("lookups", [] { for (uint32_t id = 1; id <= 2; id++) for (int k = 0; k < 2; k++) { SafeConnection* r = look(id); if (!r) continue; Connection& c = shim::get(r); EQ(idof(&c), id, "id"); EQ(c.IsConnected(), true, "connected"); bool announced = false; for (int i = 0; i < NCONN; i++) if (CONN[i] == &c) announced = true; EQ(announced, true, "announced"); shim::drop(r); } });
        int p = dial(fam); int q = dial(fam); p_close(p);
        join(t); p_close(q); await_gone(2); EQ(now_s(), 0.0, "time"); finish(s, 0);
    });
    f2.bound_quick = 3; f2.bound_thorough = 4; f2.delay = true;
    auto& f3 = add("lookup_tags", "C20 C21 C25", [] {
        int fam = family(); ACT = choose(2, "same tag");
        Server* s = mks(false); shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); c->tag = ACT ? "t" : "t" + num(NCONN - 1); });
        shim::set_disconnected(s, [](Server* q, Connection* c) { EQ(c->tag, ACT ? std::string("t") : "t" + num(slot(c)), "tag in the disconnected handler"); on_disconnected(q, c); });
        EQ(start(s, fam), true, "started"); int p[2]; for (int i = 0; i < 2; i++) { p[i] = dial(fam); await_connected(i + 1); } settle();
        EQ(ref_state(s->GetConnection("")), std::string("null"), "the empty tag"); EQ(ref_state(s->GetConnection("zz")), std::string("null"), "an unknown tag");
        SafeConnection* r = s->GetConnection(ACT ? "t" : "t0"); SIM_CHECK(r, "not found"); if (!ACT) EQ(&shim::get(r) == CONN[0], true, "the one found"); EQ(shim::get(r).GetRefs(), 1u, "references"); shim::drop(r);
        p_close(p[0]); await_gone(1); r = s->GetConnection(ACT ? "t" : "t1"); SIM_CHECK(r, "not found"); EQ(&shim::get(r) == CONN[1], true, "the one found"); EQ(shim::get(r).GetRefs(), 1u, "references"); shim::drop(r);
        if (!ACT) EQ(ref_state(s->GetConnection("t0")), std::string("null"), "the tag of the closed one");
        p_close(p[1]); await_gone(2); EQ(ref_state(s->GetConnection(ACT ? "t" : "t1")), std::string("null"), "the tag of the closed one");
        finish(s, 0);
    });
    f3.bound_quick = 2; f3.bound_thorough = 3; f3.delay = true;
    // a reference that is held while the server stops; taken again while the last one is awaited
    auto& f4 = add("ref_vs_stop", "C20 C22 C24 C15 C16", [] {
        int fam = family(); int how = choose(6, "stopped by"); bool closes = choose(2, "peer closes first");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle();
        int t = spawn("holder", [] { SafeConnection* r = look(IDS[0]); if (!r) { mark("held"); return; } mark("held"); Connection& c = shim::get(r); c.Push(mk("x"), false); sleep_s(2); EQ(NGONE, 0, "gone"); c.Push(mk("y"), false); EQ(pull(&c, 5), std::string("null"), "pulled"); EQ(now_s(), 2.0, "time"); EQ(dead(77), true, "lookup"); c.IsConnected(); mark("released"); shim::drop(r); });
        wait_mark("held"); if (closes) p_close(p);
        if (how == 0) s->Stop(-1); else if (how == 1) { s->Stop(); s->WaitForStop(); } else if (how == 2) { finish(s); } else if (how == 3) s->Stop(5); else if (how == 4) { s->Stop(1); EQ(now_s(), 1.0, "Stop(1) returned at"); EQ(marked("released"), false, "released"); s->WaitForStop(90); } else { s->Stop(0); s->WaitForStop(1); EQ(now_s(), 1.0, "WaitForStop(1) returned at"); s->Stop(90); }
        EQ(now_s(), 2.0, "stopped at"); EQ(marked("released"), true, "released"); all_closed();
        join(t); if (how != 2) finish(s, 2.0);
    });
    f4.bound_quick = 3; f4.bound_thorough = 4; f4.delay = true;
    auto& f5 = add("ref_released_late", "C20 C15 C25", [] {
        // the thread that awaits the release against references that come and go
        Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        c->IncreaseRefs();
        int t = spawn("second", [=] { c->IncreaseRefs(); c->Push(mk("x"), false); EQ(c->WaitForStop(0), false, "stopped"); mark("second drops"); c->DecreaseRefs(); });
        p_close(peer); c->Push(mk("y"), false); EQ(c->WaitForStop(0), false, "stopped"); EQ(c->GetRefs() >= 1u, true, "references"); 
        wait_mark("second drops"); mark("first drops"); c->DecreaseRefs();
        EQ(c->WaitForStop(50), true, "stopped"); EQ(now_s(), 0.0, "time"); join(t);
    });
    f5.bound_quick = 3; f5.bound_thorough = 4;
    // ---------------------------------------------------------------- C22
    auto& g = add("server_stop", "C22 C24 C15 C21 C20", [] {
        int fam = family(); int n = choose(3, "clients"); int how = choose(5, "how"); bool settled = choose(2, "settled");
        Server* s = mks(); EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); EQ(start(s, fam), true, "started"); EQ((int)s->GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
        EQ(open_fds_of(1), 1, "listening sockets"); if (fam == UNIX) { EQ(file_exists("/u"), true, "socket file"); EQ(s->GetUnixPath(), std::string("/u"), "path"); } else { EQ((int)s->GetTcpPort(), 6000, "port"); EQ(s->GetTcpIp(), 0x7f000001u, "ip"); }
        int p[2]; for (int i = 0; i < n; i++) { p[i] = dial(fam); p_send(p[i], wf::req(1, "in")); }
        if (settled) settle();
        if (how == 0) s->Stop(-1); else if (how == 1) { s->Stop(); s->Stop(0); s->WaitForStop(); } else if (how == 2) { s->Stop(5); } else if (how == 3) { s->Stop(-1); s->Stop(-1); s->Stop(); s->WaitForStop(-1); s->WaitForStop(0); }
        if (how == 4) { finish(s, 0); }
        EQ(now_s(), 0.0, "time"); for (int fd : accepted_fds()) EQ(peer_saw_eof(fd), true, "closed"); size_t k = history().size();
        if (how == 4) { all_closed(); if (fam == UNIX) EQ(file_exists("/u"), false, "socket file"); EQ(dial(fam), -1, "connecting"); }
        else { check_down(fam); for (int i = 0; i < NCONN; i++) EQ(dead(IDS[i]), true, "looked up"); finish(s, 0); }
        settle(); EQ(history().size(), k, "handlers run after the stop");
    });
    g.bound_quick = 2; g.bound_thorough = 3; g.delay = true;
    auto& g2 = add("server_stop_concurrent", "C22 C25 C15 C20 C24", [] {
        int fam = family(); int what = choose(3, "the others");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam);
        int t = spawn("a", [=] { if (what == 0) { s->Stop(-1); EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); } else if (what == 1) { s->WaitForStop(); EQ(open_fds_of(1), 0, "listening sockets"); } else { s->Stop(); s->WaitForStop(30); EQ(open_fds_of(1), 0, "listening sockets"); } });
        int u = spawn("b", [=] { p_send(p, wf::req(1, "in")); p_close(p); });
        s->Stop(-1); check_down(fam); join(t); join(u); EQ(now_s(), 0.0, "time");
        finish(s, 0);
    });
    g2.bound_quick = 3; g2.bound_thorough = 4; g2.delay = true;
    // clients that do not read, with something left to send to them
    auto& gs = add("server_stop_stalled", "C22 C15 C28 C24 C20 C21", [] {
        int fam = family(); int how = choose(4, "how"); bool grace = choose(2, "already disconnecting");
        static bool GR; GR = grace;
        Server* s = mks(false); shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); set_cap(accepted_fds().back(), 6); c->Push(mk("big", 30), false); c->Push(mk("more"), false); if (GR) c->Disconnect(false, false); });
        EQ(start(s, fam), true, "started"); int p = dial(fam), p2 = dial(fam); (void)p2; await_connected(2); settle(); EQ(NGONE, 0, "gone");
        p_send(p, wf::req(1, "in")); if (choose(2, "settled")) settle();
        if (how == 0) s->Stop(-1); else if (how == 1) { s->Stop(); s->WaitForStop(); } else if (how == 2) { s->Stop(20); } else { finish(s, 0); }
        EQ(now_s(), 0.0, "stopped at"); all_closed(); for (int fd : accepted_fds()) EQ(peer_saw_eof(fd), true, "closed"); if (how != 3) { check_down(fam); finish(s, 0); }
    });
    gs.bound_quick = 2; gs.bound_thorough = 3; gs.delay = true;
    // queries and lookups while the server starts, stops and is destroyed
    auto& gq = add("server_query_race", "C25 C22 C20 C21", [] {
        int fam = family(); int what = choose(3, "meanwhile");
        Server* s = mks(); 
        auto query = [=] { for (int i = 0; i < 2; i++) { s->GetType(); s->GetTcpPort(); s->GetUnixPath(); s->GetTcpIp(); s->GetMaxConnections(); SafeConnection* r = s->GetConnection(1u); if (r) { shim::get(r).Push(mk("x"), false); shim::get(r).IsConnected(); shim::drop(r); } s->GetConnection("none"); } };
        if (what == 0) { int t = spawn("queries", query); EQ(start(s, fam), true, "started"); join(t); int p = dial(fam); await_connected(1); (void)p; finish(s, 0); return; }
        EQ(start(s, fam), true, "started"); int p = dial(fam); (void)p; await_connected(1); settle();
        int t = spawn("queries", query); if (what == 1) s->Stop(-1); else { s->Stop(); start(s, 3 - fam); }
        join(t); s->Stop(-1); EQ(now_s(), 0.0, "time"); finish(s, 0);
    });
    gq.bound_quick = 3; gq.bound_thorough = 4; gq.delay = true;
    auto& gx = add("spurious_server", "C26 C21 C22 C17 C15 C16", [] {
        int fam = family(); Server* s = mks(); EQ(start(s, fam), true, "started");
        for (int i = 0; i < 2; i++) { int p = dial(fam); await_connected(i + 1); p_send(p, wf::req(1, "in")); wait_mark("request " + num(i) + " in#1"); p_close(p); await_gone(i + 1); }
        EQ(now_s(), 0.0, "time"); EQ(NCONN, 2, "announced"); EQ((int)s->GetType() != 0, true, "running"); s->WaitForStop(2); EQ(now_s(), 2.0, "WaitForStop(2) returned at"); s->Stop(-1); check_down(fam); finish(s, 2);
    });
    gx.bound_quick = 3; gx.bound_thorough = 4; gx.delay = true; gx.spurious = true;
    // from handlers
    auto& g3 = add("server_stop_in_handler", "C22 C21 C20 C17 C15 C24", [] {
        int fam = family(); ACT = choose(4, "which"); 
        Server* s = mks(false);
        shim::set_connected(s, [](Server* q, Connection* c) { on_connected(q, c); if (ACT == 0) { q->Stop(); q->Stop(0); mark("stop called"); } c->SetHandlerDefault([](Connection*, Request* r) { if (ACT >= 2) { S->Stop(ACT == 2 ? 0 : 1); mark("stop called"); } delete r; }); });
        shim::set_disconnected(s, [](Server* q, Connection* c) { on_disconnected(q, c); if (ACT == 1) { q->Stop(); mark("stop called"); } });
        EQ(start(s, fam), true, "started"); int p = dial(fam), p2 = dial(fam); (void)p2;
        p_send(p, wf::req(1, "in")); if (ACT == 1) p_close(p);
        wait_mark("stop called"); s->WaitForStop(-1); EQ(now_s() <= 2.0, true, "time"); check_down(fam); double t = now_s();
        EQ(start(s, fam), true, "started again"); finish(s, t);
    });
    g3.bound_quick = 2; g3.bound_thorough = 3; g3.delay = true;
    auto& g4 = add("server_restart", "C22 C21 C24 C13 C20 C23 C15", [] {
        int fam = family(), fam2 = family(); int same = choose(2, "the same address"); int how = choose(2, "how");
        Server* s = mks(); int k = 0;
        for (int i = 0; i < 3; i++) {
            int f = i == 1 ? fam2 : fam; k = same ? 0 : i & 1; EQ(start(s, f, k), true, "started"); EQ((int)s->GetType(), f == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
            EQ(start(s, fam2, 1 - k), false, "started while running"); EQ(start(s, fam, k), false, "started while running"); EQ(s->StartUnix("/other"), false, "started while running"); EQ((int)s->GetType(), f == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type"); EQ(file_exists("/other"), false, "another socket file"); EQ(open_fds_of(1), 1, "listening sockets");
            if (f == TCP) EQ((int)s->GetTcpPort(), 6000 + k, "port"); else EQ(s->GetUnixPath(), std::string(k ? "/u1" : "/u"), "path");
            int p = dial(f, k); p_send(p, wf::req(1, "in")); int n = NCONN;
            EQ(wait_until_for([n, i] { return NCONN > i && count_marks("request " + num(i) + " in#1") == 1; }, 1, "the client"), true, "served"); (void)n;
            settle(); shim::drop(must_find(i)); 
            if (how) s->Stop(-1); else { s->Stop(); s->WaitForStop(); }
            EQ(now_s(), 0.0, "time"); EQ(p_recv(p), std::string(), "closed"); check_down(f, k); BASE = NCONN;
        }
        finish(s, 0);
    });
    g4.bound_quick = 2; g4.bound_thorough = 3; g4.delay = true;
    auto& g5 = add("server_start_fails", "C22 C24 C23 C21", [] {
        int what = choose(12, "what is wrong"); Server* s = mks(); bool ok = false; int l = -1; std::string longp(108, 'x'), fits(107, 'y');
        if (what == 0) ok = s->StartTcp("300.1.1.1", 6000); if (what == 1) ok = s->StartTcp("", 6000); if (what == 2) ok = s->StartTcp("localhost.x", 6000);
        if (what == 3) { l = p_listen(TCP, "127.0.0.1", 6000); ok = s->StartTcp("127.0.0.1", 6000); }
        if (what == 4) ok = s->StartUnix(longp); if (what == 5) { file_create("/u"); ok = s->StartUnix("/u", false); EQ(file_exists("/u"), true, "the file"); }
        if (what == 6) ok = s->StartUnix(std::string(5000, 'z')); if (what == 7) ok = s->StartUnix("/nodir/u");
        if (what >= 8) { static const char* CALL[] = {"socket", "bind", "listen", "listen"}; static const int ERR[] = {EMFILE, EACCES, EADDRINUSE, ENOBUFS}; int f = family(); sys_fail(CALL[what - 8], ERR[what - 8]); ok = start(s, f); }
        EQ(ok, false, "started"); EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); EQ(open_fds_of(1), 0, "listening sockets"); EQ(open_fds_of(0), 0, "sockets"); EQ(live_threads(), 0, "threads");
        s->Stop(-1); s->Stop(); EQ(now_s(), 0.0, "time"); if (l >= 0) p_close(l);
        int fam = family(); if (what == 6) { EQ(s->StartUnix(fits), true, "started with the longest path"); EQ(s->GetUnixPath(), fits, "path"); s->Stop(-1); EQ(file_exists(fits), false, "the file"); }
        EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle(); shim::drop(must_find(0)); (void)p;
        s->Stop(-1); check_down(fam); finish(s, 0);
    });
    g5.bound_quick = 2; g5.bound_thorough = 3; g5.delay = true;
    auto& g6 = add("server_destroy", "C22 C24 C25 C15 C21 C20", [] {
        int fam = family(); int what = choose(4, "what");
        Server* s = mks();
        if (what == 0) { finish(s, 0); return; }
        EQ(start(s, fam), true, "started");
        int t = -1; if (what > 1) t = spawn("client", [=] { int p = dial(fam); if (p < 0) return; p_send(p, wf::req(1, "in")); if (what == 3) p_close(p); else while (!p_recv(p).empty()) {} });
        finish(s, 0); size_t k = history().size(); if (t >= 0) join(t); settle(); EQ(history().size(), k, "handlers run after the destruction"); EQ(now_s(), 0.0, "time");
        if (fam == UNIX) EQ(file_exists("/u"), false, "socket file");
    });
    g6.bound_quick = 4; g6.bound_thorough = 5; g6.delay = true;
    auto& g7 = add("server_wait", "C22 C26 C24", [] {
        int fam = family(); int to = choose(6, "timeout"); static const int T[] = {0, 1, 3, -1, 90, 2200000};
        Server* s = mks(); EQ(start(s, fam), true, "started"); dial(fam); settle();
        if (T[to] >= 0) { s->WaitForStop(T[to]); SIM_CHECK(now_s() >= T[to] && now_s() <= T[to] + 0.05, "waited %g", now_s()); EQ((int)s->GetType() != (int)SocketTypeUndefined, true, "running"); }
        double t0 = now_s(); int t = spawn("waiter", [=] { s->WaitForStop(T[to] ? T[to] * 2 : 10); mark("returned"); EQ(now_s(), t0 + 1, "returned at"); EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); });
        sleep_s(1); EQ(marked("returned"), false, "returned before"); s->Stop(-1); join(t); check_down(fam);
        s->WaitForStop(-1); s->WaitForStop(5); s->WaitForStop(); EQ(now_s(), t0 + 1, "time");
        // waiting for the second run
        EQ(start(s, fam), true, "started"); int u = spawn("waiter2", [=] { s->WaitForStop(-1); mark("returned2"); }); sleep_s(2); EQ(marked("returned2"), false, "returned before"); s->Stop(); join(u); EQ(now_s(), t0 + 3, "time"); finish(s, t0 + 3);
    });
    g7.bound_quick = 3; g7.bound_thorough = 4; g7.delay = true; g7.horizon_s = 9e6;
    auto& g8 = add("server_old_file", "C22", [] {
        Server* s = mks(); int what = choose(3, "file"); if (what) file_create("/u"); if (what == 2) { EQ(s->StartUnix("/u", false), false, "started"); EQ(file_exists("/u"), true, "the file"); }
        EQ(s->StartUnix("/u", what != 0), true, "started"); int p = dial(UNIX); await_connected(1); (void)p;
        Server* s2 = new Server(); EQ(s2->StartUnix("/u", false), false, "a second server"); EQ(file_exists("/u"), true, "the file"); delete s2; EQ(file_exists("/u"), true, "the file"); 
        s->Stop(-1); check_down(UNIX); finish(s, 0);
    });
    g8.bound_quick = 2; g8.bound_thorough = 3;
    // one address after the other, with leftover files and without
    auto& gu = add("server_unix_paths", "C22 C24", [] {
        Server* s = mks(); static const char* P[] = {"/u", "/u1", "/a longer path/than the others"};
        for (int i = 0; i < 3; i++) {
            std::string f = P[choose(3, "path")]; bool dof = choose(2, "replace an old file"); int left = choose(3, "an old file, a directory"); bool tcp = i == 1 && choose(2, "TCP in between");
            if (tcp) { EQ(s->StartTcp("127.0.0.1", 6001), true, "started"); file_create("/u"); s->Stop(-1); EQ(file_exists("/u"), true, "a file of somebody else"); sys_unlink("/u"); }
            if (left) file_create(f, left == 2);
            bool ok = s->StartUnix(f, dof); EQ(ok, (dof && left < 2) || !left, "started"); EQ(file_exists(f), true, "file");
            if (!ok) { EQ((int)s->GetType(), (int)SocketTypeUndefined, "type"); EQ(p_connect(UNIX, f, 0), -1, "connecting"); s->Stop(-1); EQ(file_exists(f), true, "the file of somebody else"); sys_unlink(f); continue; }
            EQ(s->GetUnixPath(), f, "path"); int n = NCONN; EQ(p_connect(UNIX, f, 0) >= 0, true, "connecting"); await_connected(n + 1);
            s->Stop(-1); for (auto q : P) EQ(file_exists(q), false, "files left"); BASE = NCONN;
        }
        finish(s, 0);
    });
    gu.bound_quick = 0; gu.bound_thorough = 1; gu.delay = true;
    // what came before the peer went is delivered, although greeting it fails, and although the handlers are set up late
    auto& ha = add("server_early_close", "C21 C17 C10 C15", [] {
        int fam = family(); int n = choose(3, "requests"); static int greet; greet = choose(3, "greetings"); int gone = choose(3, "peer goes"); static int slow; slow = choose(3, "slow handler"); bool stay = choose(2, "accepted at once");
        Server* s = mks();
        shim::set_connected(s, [](Server* s, Connection* c) {
            for (int i = 0; i < greet; i++) c->Push(mk("hello", i ? 2000 : 1), false);
            if (slow == 1) pause_point(); if (slow == 2) sleep_s(2);
            on_connected(s, c);
        });
        if (!stay) s->SetMaxConnections(0);
        EQ(start(s, fam), true, "started"); int p = dial(fam); for (int i = 0; i < n; i++) p_send(p, wf::req(i + 1, "r"));
        if (stay) settle();
        if (gone == 0) p_close(p); if (gone == 1) p_shutdown_wr(p); if (gone == 2) { p_send(p, wf::req(9, "cut").substr(0, 7)); p_close(p); }
        if (!stay) s->SetMaxConnections(-1);
        // greeting and closing TCP ends make the peer answer with a reset, which does not take back what has arrived
        EQ(wait_until_for([=] { return NGONE == 1; }, 5, "the disconnected handler"), true, "disconnected"); EQ(now_s(), slow == 2 ? 2.0 : 0.0, "time");
        for (int i = 0; i < n; i++) EQ(count_marks("request 0 r#" + num(i + 1)), 1, "handled"); EQ((int)marks_with("request").size(), n, "requests");
        finish(s, slow == 2 ? 2.0 : 0.0);
    });
    ha.bound_quick = 1; ha.bound_thorough = 2; ha.delay = true;
    // a connected handler that takes longer than the limit: a peer that sends is not dropped, a silent one is
    auto& hd = add("server_slow_handler", "C19 C21 C17 C18", [] {
        int fam = family(); static int lim; lim = choose(2, "limit") ? 7 : 2; int kind = choose(7, "peer sends"); static double end; end = -1;
        Server* s = mks(); shim::set_connected(s, [](Server* s, Connection* c) { c->SetTheirNaIntervalLimit(lim); c->SetOurSaInterval(3); c->Push(mk("hello"), false); sleep_s(5.5); on_connected(s, c); });
        EQ(start(s, fam), true, "started"); int p = dial(fam); settle(); int r = kind < 6 ? spawn("reader", [=] { while (!p_recv(p).empty()) {} end = now_s(); }) : -1;
        std::string m = wf::req(1, "in"); double last = 0; int n = 0;
        if (kind == 1) { p_send(p, m); n = 1; } if (kind == 2) { sleep_s(last = 1); p_send(p, m); n = 1; } if (kind == 3) { sleep_s(last = 1.5); p_send(p, wf::req(2, "_")); } if (kind == 4) { sleep_s(last = 1); p_send(p, m.substr(0, 3)); }
        if (kind == 5) for (int i = 0; i < 8; i++) { sleep_s(1); p_send(p, m); last = now_s(); n++; } if (kind == 6) { sleep_s(1); p_send(p, m); n = 1; sleep_s(0.5); p_close(p); }
        EQ(wait_until_for([] { return NGONE > 0; }, 100, "the disconnected handler"), true, "disconnected handler called"); double gone = now_s(); if (r >= 0) join(r);
        if (kind == 0) { EQ(end, (double)lim, "a silent peer was dropped at"); } else if (kind < 6) SIM_CHECK(end >= last + lim && end <= std::max(5.5, last) + lim, "heard at %g, dropped at %g (limit %d)", last, end, lim);
        else if (lim == 7) EQ(gone, 5.5, "closed at");
        if (gone > 5.5 || (kind == 6 && lim == 7)) EQ((int)marks_with("request 0").size(), n, "requests");
        finish(s, gone);
    });
    hd.bound_quick = 2; hd.bound_thorough = 3; hd.delay = true;
    // one client sends rubbish, the others do not notice
    auto& hc = add("hostile_client_among_others", "C11 C21 C10 C17 C22 C15", [] {
        int fam = family(); int what = choose(10, "rubbish"); int when = choose(3, "cut"); bool reset = choose(2, "closes at the end");
        std::string ok = wf::req(5, "fine"), e; bool dies = true; int fine = 1;
        if (what == 0) e = wf::le(5, 4) + std::string(9, 'x'); if (what == 1) e = wf::le(0xffffffffu, 4) + std::string(20, 'x'); if (what == 2) e = wf::le(0x80000000u, 4); if (what == 3) e = std::string(64, '\0');
        if (what == 4) { e = wf::le(16, 4) + wf::le(9, 4) + wf::le(60000, 2) + "abcdef" + ok; dies = false; fine = 2; }
        if (what == 5) { e = wf::le(18, 4) + wf::le(9, 4) + wf::le(2, 2) + "ab" + std::string(6, '\xff') + ok; dies = false; fine = 2; }
        if (what == 6) { e = ok.substr(0, 6); dies = false; } if (what == 7) { e = ok.substr(0, 3); dies = false; }
        if (what == 8) e = ok + ok + wf::le(9, 4) + ok, fine = 3; if (what == 9) { e = std::string(3, '\0'); dies = false; }
        Server* s = mks(); EQ(start(s, fam), true, "started"); int a = dial(fam), b = dial(fam); await_connected(2); settle();
        size_t cut = when == 0 ? e.size() : when == 1 ? 1 : std::min<size_t>(5, e.size()); p_send(b, ok + e.substr(0, cut)); p_send(a, wf::req(1, "a")); if (cut < e.size()) { settle(); p_send(b, e.substr(cut)); } p_send(a, wf::req(2, "b"));
        settle(); EQ(count_marks("request 0 a#1"), 1, "handled"); EQ(count_marks("request 0 b#2"), 1, "handled"); EQ(count_marks("request 1 fine#5"), fine, "handled"); EQ((int)marks_with("request 1").size(), fine, "requests of the hostile one");
        EQ(NGONE, dies ? 1 : 0, "gone"); if (dies) { EQ(p_recv(b), std::string(), "closed"); EQ(dead(IDS[1]), true, "lookup"); } else if (reset) { p_close(b); await_gone(1); } EQ(marked("disconnected 0"), false, "the other one is gone");
        int d = dial(fam); await_connected(3); p_send(d, wf::req(1, "d")); p_send(a, wf::req(3, "c")); settle(); EQ(count_marks("request 2 d#1"), 1, "handled"); EQ(count_marks("request 0 c#3"), 1, "handled"); shim::drop(must_find(0)); finish(s, 0);
    });
    hc.bound_quick = 1; hc.bound_thorough = 2; hc.delay = true;
    // a peer that reads nothing, output pending, a reference held: Stop still ends with the release of the reference
    auto& hb = add("server_stop_clogged", "C22 C28 C20 C15", [] {
        int fam = family(); int how = choose(3, "stopped by"); int when = choose(3, "output pending"); bool grace = choose(2, "graceful disconnect requested before");
        Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); await_connected(1); settle(); set_cap(accepted_fds()[0], 8); (void)p;
        SafeConnection* r = must_find(0); if (when) for (int i = 0; i < 3; i++) shim::get(r).Push(mk("clogged", 3000), false);
        if (when == 2) settle(); if (grace) shim::get(r).Disconnect(false, false);
        int t = spawn("stopper", [=] { if (how == 0) s->Stop(-1); else if (how == 1) { s->Stop(0); s->WaitForStop(-1); } else s->Stop(90); mark("stopped"); });
        settle(); EQ(marked("stopped"), false, "stopped while referenced"); shim::get(r).Push(mk("more"), false); sleep_s(1); EQ(marked("stopped"), false, "stopped while referenced"); shim::drop(r);
        join(t); EQ(now_s(), 1.0, "stopped at"); finish(s, 1.0);
    });
    hb.bound_quick = 2; hb.bound_thorough = 3; hb.delay = true;
    auto& g9 = add("server_stop_restart_race", "C22 C25 C20", [] {
        int fam = family(); Server* s = mks(); EQ(start(s, fam), true, "started"); int p = dial(fam); (void)p;
        int t = spawn("waiter", [=] { s->WaitForStop(-1); mark("returned"); });
        int u = spawn("lookups", [] { for (int i = 0; i < 2; i++) { SafeConnection* r = look(1); if (r) { shim::get(r).Push(mk("x"), false); shim::drop(r); } S->GetType(); S->GetTcpPort(); S->GetUnixPath(); S->GetMaxConnections(); } });
        settle(); s->Stop(-1); BASE = NCONN; EQ(start(s, fam), true, "started again");
        EQ(wait_until_for([] { return marked("returned"); }, 1, "the waiter"), true, "the waiter of the first run returned"); EQ(now_s(), 0.0, "time");
        join(t); join(u); int q = dial(fam); SIM_CHECK(q >= 0, "cannot connect"); finish(s, 0);
    });
    g9.bound_quick = 3; g9.bound_thorough = 4; g9.delay = true;
    auto& ga = add("two_servers", "C22 C21 C20 C15 C24", [] {
        Server* s = mks(); Server* s2 = new Server(); EQ(start(s, TCP), true, "started"); EQ(s2->StartTcp("127.0.0.1", 6000), false, "the same address"); EQ(s2->StartTcp("127.0.0.1", 6001), true, "another address");
        int q = p_connect(TCP, "127.0.0.1", 6001); int p = dial(TCP); await_connected(1); settle(); EQ(NCONN, 1, "announced"); shim::drop(must_find(0));
        s2->Stop(-1); settle(); EQ(p_recv(q), std::string(), "closed"); EQ(NGONE, 0, "gone"); p_send(p, wf::req(1, "in")); settle(); EQ(count_marks("request 0 in#1"), 1, "handled"); delete s2; finish(s, 0);
    });
    ga.bound_quick = 2; ga.bound_thorough = 3; ga.delay = true;
    // ---------------------------------------------------------------- connections that talk to each other through the server
    auto& r1 = add("relay", "C20 C21 C12 C17 C22 C10 C24 C25", [] {
        int fam = family(); int end = choose(3, "end");      // one of them leaves / the server is stopped / nothing
        Server* s = mks(false);
        shim::set_connected(s, [](Server* q, Connection* c) {
            on_connected(q, c);
            c->SetHandlerDefault([](Connection* k, Request* r) {
                int me = slot(k), n = NCONN;
                for (int j = 0; j < n; j++) if (j != me) { SafeConnection* x = look(IDS[j]); if (x) { Request* y = new Request(); y->CopyFrom(r); y->Emplace<Value32U>("from", (uint32_t)me); shim::get(x).Push(y, false, 0, false); shim::drop(x); } }
                delete r; });
        });
        shim::set_disconnected(s, [](Server* q, Connection* c) {
            on_disconnected(q, c); int me = slot(c);
            for (int j = 0; j < NCONN; j++) if (j != me) { SafeConnection* x = look(IDS[j]); if (x) { Request* y = new Request("left"); y->SetId(99); y->Emplace<Value32U>("from", (uint32_t)me); shim::get(x).Push(y, false, 0, false); shim::drop(x); } }
        });
        EQ(start(s, fam), true, "started"); int p[3]; for (int i = 0; i < 3; i++) { p[i] = dial(fam); await_connected(i + 1); } settle();
        auto m = [](const char* n, uint32_t id, uint32_t from) { return wf::req(id, n, {{"from", wf::vint(4, from)}}); };
        p_send(p[0], wf::req(1, "a") + wf::req(3, "b")); p_send(p[1], wf::req(5, "c"));
        if (end == 0) p_close(p[0]); else if (end == 1) s->Stop(-1);
        std::string from0 = m("a", 1, 0) + m("b", 3, 0), from1 = m("c", 5, 1), left0 = m("left", 99, 0);
        if (end != 1) {
            // everybody gets the others' requests, each sender's in order
            std::string one = from0 + (end == 0 ? left0 : ""), got1 = p_recv_exact(p[1], one.size()), got2 = p_recv_exact(p[2], one.size() + from1.size());
            EQ(got1, one, "received by the second"); size_t at = got2.find(from1); SIM_CHECK(at != std::string::npos, "the second's request is missing"); EQ(got2.substr(0, at) + got2.substr(at + from1.size()), one, "the first's requests at the third");
            if (end == 2) EQ(p_recv_exact(p[0], from1.size()), from1, "received by the first");
        } else {
            // what arrives is whole, in order, and nothing twice
            for (int i = 0; i < 3; i++) {
                std::string g, x; while (!(x = p_recv(p[i])).empty()) g += x;
                std::string rest; std::vector<std::string> seen; size_t a = std::string::npos, b = a, k = 0;
                for (auto& w : wf::payload(g, &rest)) { SIM_CHECK(std::find(seen.begin(), seen.end(), w.raw) == seen.end(), "a request arrives twice"); seen.push_back(w.raw); if (w.raw == m("a", 1, 0)) a = k; if (w.raw == m("b", 3, 0)) b = k; k++; }
                SIM_CHECK(b == std::string::npos || a < b, "the second request without or before the first"); SIM_CHECK(rest.size() < 50, "%zu bytes of an unfinished request", rest.size());
            }
        }
        EQ(now_s(), 0.0, "time"); finish(s, 0);
    });
    r1.bound_quick = 1; r1.bound_thorough = 2; r1.delay = true;
    // a handler asks another client and passes the answer on
    auto& r2 = add("relay_ask", "C27 C20 C17 C21 C22 C15 C24", [] {
        int fam = family(), what = choose(6, "the one asked");      // answers / never does / leaves / is asked while the asking one leaves / the server stops / answers late
        Server* s = mks(false); shim::set_disconnected(s, on_disconnected);
        shim::set_connected(s, [](Server* q, Connection* c) {
            on_connected(q, c);
            if (NCONN == 1) c->SetHandlerNamed("ask", [](Connection* k, Request* r) {
                SafeConnection* x = look(IDS[1]); SIM_CHECK(x, "the one to be asked is not found");
                Request* q = mk("question"); Request* a = shim::get(x).Push(q, false, 3); shim::drop(x);
                Request* y = new Request(a ? "passed on" : "no answer"); y->SetId(r->GetId()); k->Push(y, false, 0, false); mark(a ? "answered " + show(a) : "not answered"); delete a; delete r; });
        });
        EQ(start(s, fam), true, "started"); int p[2]; for (int i = 0; i < 2; i++) { p[i] = dial(fam); await_connected(i + 1); } settle();
        p_send(p[0], wf::req(7, "ask")); std::string q = wf::req(2, "question"); EQ(p_recv_exact(p[1], q.size()), q, "the question"); p_send(p[1], wf::req(9, "other"));
        double at = 0; std::string name = "passed on";
        if (what == 0) p_send(p[1], wf::req(2, "answer"));
        else if (what == 1) { at = 3; name = "no answer"; }
        else if (what == 2) { p_close(p[1]); name = "no answer"; }
        else if (what == 3) { p_close(p[0]); p_send(p[1], wf::req(2, "answer")); }
        else if (what == 4) { int t = spawn("stopper", [s] { s->Stop(-1); }); EQ(p_recv(p[1]), std::string(), "closed"); join(t); }
        else { sleep_s(2); p_send(p[1], wf::req(2, "answer")); at = 2; }
        if (what == 0 || what == 1 || what == 2 || what == 5) { std::string exp = wf::req(7, name); EQ(p_recv_exact(p[0], exp.size()), exp, "passed on"); EQ(now_s(), at, "time"); }
        EQ(wait_until_for([] { return count_marks("answered answer#2") + count_marks("not answered") == 1; }, 1, "the handler"), true, "the handler returned");
        EQ(count_marks("not answered") == 1, what == 1 || what == 2 || what == 4, "unanswered");
        if (what == 0) EQ(count_marks("request 1 other#9"), 1, "the other request");
        EQ(now_s(), at, "time"); finish(s, at);
    });
    r2.bound_quick = 2; r2.bound_thorough = 3; r2.delay = true;
    return 0;
}();
