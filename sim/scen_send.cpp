// C12, C13, C14, C28: sending, request ids, graceful disconnection, peers that do not read.
#include "scen.hpp"
#include <set>

static const int BLK[] = {1024, 1, 2, 7, 13, 0};      // 0 is raised to 1
// reads everything the connection sends until it ends
static int reader(int fd, size_t chunk = 1 << 20) { return spawn("reader", [fd, chunk] { while (!p_recv(fd, chunk).empty()) {} }); }

static int reg = [] {
    // three requests, every block size, partial writes, a peer with a small window
    auto& a = add("send_sequence", "C12 C13 C28 C14 C15", [] {
        int fam = family(); int bs = BLK[choose(6, "send block size")]; int cap = std::vector<int>{100000, 1, 5}[choose(3, "window")];
        Pair p(fam, cap); uint32_t rb = p.c->GetRecvBlockSize(); p.c->SetSendBlockSize(bs); EQ(p.c->GetSendBlockSize(), bs ? bs : 1u, "send block size"); EQ(p.c->GetRecvBlockSize(), rb, "receive block size");
        int t = reader(p.peer(), 1000);
        p.c->Push(mk("one"), false); Request r("two"); r.Emplace<Value32U>("n", 77u); p.c->Push(r); Request* q = mk("three", 2, 40); p.c->Push(q, true, 0, false); delete q;
        settle();
        EQ(p.out(), wf::req(2, "one") + wf::req(4, "two", {{"n", wf::vint(4, 77)}}) + mkw("three", 2, 40), "sent");
        p.c->Disconnect(false, true);
        EQ(p.out().size(), wf::req(2, "one").size() + wf::req(4, "two", {{"n", wf::vint(4, 77)}}).size() + mkw("three", 2, 40).size(), "sent at the end");
        EQ(peer_saw_eof(p.mine()), true, "closed");
        p.drop(); join(t);
    });
    a.bound_quick = 1; a.bound_thorough = 2;
    auto& a2 = add("send_short_writes", "C12 C28 C13 C10", [] {
        int fam = family(); int bs = std::vector<int>{1024, 7}[choose(2, "send block size")];
        Pair p(fam); p.c->SetSendBlockSize(bs);
        p.c->Push(mk("one"), false); p.c->Push(mk("two", 3), false);
        settle();
        EQ(p.out(), wf::req(2, "one") + mkw("two", 3, 4), "sent");
    });
    a2.bound_quick = 4; a2.bound_thorough = 5; a2.short_io = true;
    // two threads push, mixing copies and originals
    auto& b = add("send_concurrent", "C12 C13 C25 C28 C14", [] {
        Pair p(TCP, 16); p.c->SetSendBlockSize(5);
        int r = reader(p.peer(), 7); Connection* c = p.c;
        int t = spawn("pusher", [c] { Request q("x1"); c->Push(q); c->Push(mk("x2", 1), false); });
        c->Push(mk("y1"), false); Request* y = mk("y2"); c->Push(y); delete y;
        join(t); settle();
        std::string rest; auto v = wf::payload(p.out(), &rest);
        EQ(rest, std::string(), "incomplete message");
        EQ(v.size(), (size_t)4, "messages");
        std::string xs, ys; std::vector<int> seen;
        for (auto& m : v) {
            (m.name[0] == 'x' ? xs : ys) += m.name;
            SIM_CHECK(m.id && m.id % 2 == 0, "id %u", m.id);
            for (int k : seen) SIM_CHECK(k != (int)m.id, "id %u used twice", m.id);
            seen.push_back(m.id);
            SIM_CHECK(m.raw == mkw(m.name, m.name == "x2" ? 1 : -1, m.id), "request %s is damaged", m.name.c_str());
        }
        EQ(xs, std::string("x1x2"), "order"); EQ(ys, std::string("y1y2"), "order");
        p.drop(); join(r);
    });
    b.bound_quick = 2; b.bound_thorough = 3;
    // pushing against a disconnection
    auto& d = add("send_vs_disconnect", "C12 C14 C15 C24 C25 C28 C13", [] {
        int fam = family(); bool forced = choose(2, "forced");
        Pair p(fam, 20); int r = reader(p.peer()); Connection* c = p.c;
        c->Push(mk("one", 9), false);
        int t = spawn("pusher", [c] { c->Push(mk("x1"), false); Request q("x2"); c->Push(q); });
        c->Disconnect(forced, false);
        bool xdone = false; (void)xdone;
        c->Push(mk("late"), false);
        EQ(c->WaitForStop(30), true, "stopped");
        EQ(now_s(), 0.0, "time");
        join(t);
        std::string out = p.out(), rest; auto v = wf::payload(out, &rest);
        std::string n = wf::names(v);
        SIM_CHECK(n.find("late") == std::string::npos, "a request pushed after the disconnection went out");
        if (!forced) {
            EQ(rest, std::string(), "incomplete message");
            SIM_CHECK(n == "one" || n == "one x1" || n == "one x1 x2" || n == "one x2" || n == "x1 one" || n == "x1 x2 one" || n == "x1 one x2", "sent '%s'", n.c_str());
        } else SIM_CHECK(prefix(n, "one x1 x2") || prefix(n, "x1 one x2") || prefix(n, "x1 x2 one") || prefix(n, "one x2"), "sent '%s'", n.c_str());
        for (auto& m : v) SIM_CHECK(m.raw == mkw(m.name, m.name == "one" ? 9 : -1, m.id), "request %s is damaged", m.name.c_str());
        outcome(n);
        p.drop(); join(r);
    });
    d.bound_quick = 2; d.bound_thorough = 3;
    // nothing accepted while not connected appears later
    auto& e = add("send_reconnect", "C12 C13 C23 C14", [] {
        int fam = family(); int forced = choose(3, "how it ends");      // graceful, forced, peer closes
        int l = p_listen(fam, fam == TCP ? "127.0.0.1" : "/s", 5000);
        Client* c = new Client();
        c->Push(mk("never"), false); c->Push(Request("never"));
        auto conn = [&] { return fam == TCP ? c->ConnectTcp("127.0.0.1", 5000, 5) : c->ConnectUnix("/s", 5); };
        std::string all;
        for (int i = 0; i < 2; i++) {
            EQ(conn(), true, "connected");
            int s = p_accept(l);
            if (i) { c->Push(mk("b1"), false); settle(); EQ(names_of(p_recv(s)), std::string("b1"), "second connection"); }
            else {
                set_cap(connected_fds().back(), 6);
                c->Push(mk("a1", 9), false); c->Push(mk("a2"), false);
                settle();
                if (forced == 1) c->Disconnect(true, true);
                else if (forced == 0) { c->Disconnect(false, false); c->Push(mk("while"), false); int r = reader(s); EQ(c->WaitForStop(9), true, "stopped"); join(r); }
                else { p_close(s); EQ(c->WaitForStop(9), true, "stopped"); }
                c->Push(mk("between"), false); Request q("between2"); c->Push(q);
            }
            std::string rest, w = wire(connected_fds().back());
            for (auto& m : wf::payload(w, &rest)) SIM_CHECK(m.id % 2 == 1 && m.id, "id %u on connection %d", m.id, i);
            if (i) { auto v = wf::payload(w); EQ(wf::names(v), std::string("b1"), "second connection"); }
            else if (!forced) EQ(names_of(w), std::string("a1 a2"), "first connection");
            else SIM_CHECK(prefix(names_of(w), "a1 a2"), "first connection sent '%s'", names_of(w).c_str());
        }
        c->Disconnect(true, true);
        delete c; p_close(l);
    });
    e.bound_quick = 1; e.bound_thorough = 2;
    // a peer that closes while the connection has a lot to send
    auto& f = add("send_peer_closes", "C12 C15 C24 C28 C14 C10", [] {
        int fam = family();
        Pair p(fam, 8); int peer = p.peer(); Connection* c = p.c; c->SetSendBlockSize(5);
        std::string exp = mkw("one", 9, 2) + mkw("two", -1, 4);
        c->Push(mk("one", 9), false); c->Push(mk("two"), false);
        int t = spawn("peer", [peer] { p_recv(peer, 6); p_recv(peer, 6); p_close(peer); });
        EQ(c->WaitForStop(30), true, "stopped"); EQ(now_s(), 0.0, "time");
        SIM_CHECK(prefix(p.out(), exp), "sent something else");
        EQ(c->IsConnected(), false, "connected");
        join(t);
    });
    f.bound_quick = 3; f.bound_thorough = 4;
    // ---------------------------------------------------------------- C13
    auto& i = add("ids_two_sides", "C13 C12 C21 C15", [] {
        int fam = family(); bool re = choose(2, "reconnect"); Server* s = new Server(); Client* c = new Client();
        static int fam_; fam_ = fam;
        s->SetConnectedHandler([](Server*, Connection* k) { k->Push(mk("hello"), false); mark("connected"); });
        s->SetDisconnectedHandler([](Server*, Connection*) { mark("disconnected"); });
        EQ(fam == TCP ? s->StartTcp("127.0.0.1", 6000) : s->StartUnix("/u"), true, "started");
        for (int k = 0; k <= re; k++) {
            EQ(fam == TCP ? c->ConnectTcp("127.0.0.1", 6000, 5) : c->ConnectUnix("/u", 5), true, "connected");
            c->Push(mk("c1"), false);
            Connection* cc = c; int t = spawn("second", [cc] { cc->Push(mk("c2"), false); });
            c->Push(mk("kept", -1, 1234), false, 0, false);
            c->Push(mk("c3"), false);
            join(t);
            wait_mark("connected", k + 1); settle();
            int sf = accepted_fds().back(), cf = connected_fds().back();
            auto a = wf::payload(wire(cf)), b = wf::payload(wire(sf));
            EQ(a.size(), (size_t)4, "client messages"); EQ(b.size(), (size_t)1, "server messages");
            int par = -1, n = 0;
            for (auto& m : a) {
                if (m.name == "kept") { EQ((int)m.id, 1234, "kept id"); continue; }
                SIM_CHECK(m.id != 0, "id 0"); if (par < 0) par = m.id % 2; EQ((int)(m.id % 2), par, "parity of the client's ids");
                for (auto& o : a) if (&o != &m && o.id == m.id) n++;
            }
            EQ(n, 0, "ids used twice");
            SIM_CHECK(b[0].id && (int)(b[0].id % 2) != par, "both sides use ids of the same half (server id %u)", b[0].id);
            c->Disconnect(true, true);
            wait_mark("disconnected", k + 1);
        }
        delete c; delete s;
    });
    i.bound_quick = 2; i.bound_thorough = 3; i.delay = true;
    // requests that carry an id already, also the one that is next
    auto& ip = add("ids_preset", "C13 C12", [] {
        static const uint32_t IDS[] = {0, 1, 2, 3, 4, 5, 6, 0x7fffffffu, 0xfffffffeu, 0xffffffffu};
        bool cl = choose(2, "initiating side"); Pair* p = nullptr; Client* k = nullptr; Connection* c; int l = -1, fd;
        if (cl) { l = p_listen(TCP, "127.0.0.1", 5000); k = new Client(); EQ(k->ConnectTcp("127.0.0.1", 5000, 3), true, "connected"); c = k; fd = connected_fds().back(); } else { p = new Pair(UNIX); c = p->c; fd = p->mine(); }
        std::vector<uint32_t> kept(4, 0); std::vector<bool> keeps(4, false);
        for (int i = 0; i < 3; i++) {
            int how = i < 2 ? choose(4, "how it is pushed") : 0; uint32_t id = i < 2 ? IDS[choose(10, "id it has")] : 0;
            if (how == 0) c->Push(mk("r" + std::to_string(i), -1, id), false);
            if (how == 1) { Request q("r" + std::to_string(i)); q.SetId(id); c->Push(q); EQ(q.GetId(), id, "id of the original"); }
            if (how == 2) { Request q("r" + std::to_string(i)); q.SetId(id); c->Push(&q, true); EQ(q.GetId(), id, "id of the original"); }
            if (how == 3) { Request q("r" + std::to_string(i)); q.SetId(id); c->Push(q, 0, false); kept[i] = id; keeps[i] = true; }
        }
        settle(); std::string rest; auto v = wf::payload(wire(fd), &rest); EQ(v.size(), (size_t)3, "messages"); std::vector<uint32_t> used;
        for (int i = 0; i < 3; i++) {
            EQ(v[i].name, "r" + std::to_string(i), "order");
            if (keeps[i]) { EQ(v[i].id, kept[i], "kept id"); continue; }
            SIM_CHECK(v[i].id && (int)(v[i].id % 2) == (cl ? 1 : 0), "id %u", v[i].id); for (auto o : used) SIM_CHECK(o != v[i].id, "id %u used twice", o); used.push_back(v[i].id);
        }
        delete p; delete k; if (l >= 0) p_close(l);
    });
    ip.bound_quick = 0; ip.bound_thorough = 1;
    auto& i2 = add("ids_concurrent", "C13 C25", [] {
        Pair p(TCP); Connection* c = p.c;
        int t = spawn("t1", [c] { c->Push(mk("a"), false); Request q("b"); q.SetId(77); c->Push(q); });
        int u = spawn("t2", [c] { c->Push(mk("c", -1, 9), false, 0, false); c->Push(mk("d"), false); });
        c->Push(mk("e"), false);
        join(t); join(u); settle();
        auto v = wf::payload(p.out()); EQ(v.size(), (size_t)5, "messages");
        std::vector<uint32_t> ids;
        for (auto& m : v) { if (m.name == "c") { EQ((int)m.id, 9, "kept id"); continue; } SIM_CHECK(m.id && m.id % 2 == 0, "id %u", m.id); for (auto k : ids) SIM_CHECK(k != m.id, "id %u twice", m.id); ids.push_back(m.id); }
    });
    i2.bound_quick = 2; i2.bound_thorough = 3;
    // many requests on one connection: no id comes up again
    auto& im = add("ids_many", "C13 C12 C28", [] {
        bool cl = choose(2, "initiating side"); int n = choose(2, "how many") ? 33500 : 300; Pair* p = nullptr; Client* k = nullptr; Connection* c; int l = -1, fd, peer;
        if (cl) { l = p_listen(TCP, "127.0.0.1", 5000); k = new Client(); EQ(k->ConnectTcp("127.0.0.1", 5000, 3), true, "connected"); c = k; fd = connected_fds().back(); peer = p_accept(l); } else { p = new Pair(UNIX); c = p->c; fd = p->mine(); peer = p->peer(); }
        Request q("r"); set_cap(fd, 1 << 22);
        for (int i = 0; i < n; i++) c->Push(q);
        settle(); { Host h; auto v = wf::payload(wire(fd)); EQ(v.size(), (size_t)n, "messages"); std::set<uint32_t> used;
            for (auto& m : v) SIM_CHECK(m.id && (int)(m.id % 2) == (cl ? 1 : 0) && used.insert(m.id).second, "id %u (message %zu)", m.id, used.size()); }
        (void)peer; delete p; delete k; if (l >= 0) p_close(l);
    });
    im.bound_quick = 0; im.bound_thorough = 0; im.max_steps = 2000000; im.delay = true;
    // after 2^31 requests: the state is reached by setting the counter, which is found by how it moves (nothing is claimed if there is none)
    auto& iw = add("ids_wrap", "C13", [] {
        bool cl = choose(2, "initiating side"); uint32_t before = choose(4, "requests before"); Pair* p = nullptr; Client* k = nullptr; Connection* c; int l = -1, fd;
        if (cl) { l = p_listen(TCP, "127.0.0.1", 5000); k = new Client(); EQ(k->ConnectTcp("127.0.0.1", 5000, 3), true, "connected"); c = k; fd = connected_fds().back(); } else { p = new Pair(UNIX); c = p->c; fd = p->mine(); }
        auto last = [fd] { settle(); return wf::payload(wire(fd)).back().id; };
        uint32_t* at = nullptr; int found = 0;
        { static bool was[sizeof(Connection) / 4]; uint32_t* w = (uint32_t*)c; const size_t n = sizeof(Connection) / 4;
          c->Push(mk("a"), false); uint32_t id = last(); { Host h; for (size_t i = 0; i < n; i++) was[i] = w[i] == id + 2; }
          c->Push(mk("b"), false); last(); { Host h; for (size_t i = 0; i < n; i++) if (was[i] && w[i] == id + 4) { at = w + i; found++; } } }
        if (found == 1) { { Host h; *at = 0u - 2 * before - (cl ? 1 : 2); }
            uint32_t first = 0; for (int i = 0; i < 8; i++) { c->Push(mk("r"), false); uint32_t id = last(); if (!i) first = id; else SIM_CHECK(id != first, "id %u comes up again", id); SIM_CHECK(id && (int)(id % 2) == (cl ? 1 : 0), "id %u", id); } }
        outcome(found == 1 ? "wrapped" : "no counter"); delete p; delete k; if (l >= 0) p_close(l);
    });
    iw.bound_quick = 0; iw.bound_thorough = 1;
    // ---------------------------------------------------------------- C14
    auto& g = add("graceful_flush", "C14 C12 C15", [] {
        int fam = family(); int n = choose(4, "requests"); int cap = std::vector<int>{100000, 1, 17}[choose(3, "window")]; bool wait = choose(2, "wait"); bool hnd = choose(2, "handler set");
        Pair p(fam, cap); p.c->SetSendBlockSize(16); if (hnd) p.c->SetHandlerDefault(h_default);
        int r = reader(p.peer(), 9); std::string exp;
        for (int k = 0; k < n; k++) { p.c->Push(mk("r", k * 7), false); exp += mkw("r", k * 7, 2 + 2 * k); }
        p.c->Disconnect(false, wait);
        if (!wait) { p.c->Disconnect(false, false); EQ(p.c->WaitForStop(60), true, "stopped"); }
        EQ(now_s(), 0.0, "time to disconnect");
        EQ(p.c->IsConnected(), false, "connected"); EQ(p.c->IsDisconnecting(), false, "disconnecting");
        EQ(p.out(), exp, "sent"); EQ(peer_saw_eof(p.mine()), true, "closed"); EQ(fd_open(p.mine()), false, "socket open");
        p.c->Disconnect(false, true);      // harmless
        join(r);
    });
    g.bound_quick = 1; g.bound_thorough = 2;
    auto& g2 = add("graceful_drops_input", "C14 C16 C17 C15 C12", [] {
        int fam = family(); bool hnd = choose(2, "handler set"); int part = choose(3, "earlier input");  // none, part of a message, a message
        Pair p(fam, 10); Connection* c = p.c; if (hnd) c->SetHandlerDefault(h_default);
        std::string in = wf::req(1, "in");
        c->Push(mk("out", 30), false);
        if (part) { p.recv_from_peer(part == 1 ? in.substr(0, 6) : in); settle(); }
        c->Disconnect(false, false);
        EQ(c->IsDisconnecting(), true, "disconnecting"); EQ(c->IsConnected(), true, "connected");
        p.recv_from_peer((part == 1 ? in.substr(6) : in) + wf::req(2, "in2")); 
        c->Push(mk("late"), false); c->Disconnect(false, false);
        settle();
        EQ(c->IsConnected(), true, "connected while there is something to send");
        std::string got; while (c->WaitForStop(0) == false) { std::string x = p_recv(p.peer()); if (x.empty()) break; got += x; settle(); }
        EQ(c->WaitForStop(10), true, "stopped"); EQ(now_s(), 0.0, "time");
        EQ(p.out(), mkw("out", 30, 2), "sent");
        EQ(join_s(history()), std::string(part == 2 && hnd ? "D in#1" : ""), "handled");
        EQ(pull(c), std::string(part == 2 && !hnd ? "in#1" : "null"), "pulled"); EQ(pull(c), std::string("null"), "pulled");
    });
    g2.bound_quick = 2; g2.bound_thorough = 3;
    // an incoming message of which a part has arrived does not hold up the disconnection
    auto& gp = add("graceful_partial_input", "C14 C15 C10", [] {
        int fam = family(); std::string in = mkw("in", 5, 1); int part = choose((int)in.size() + 1, "bytes of a message that have arrived"); int n = choose(2, "requests queued"); bool late = choose(2, "the rest arrives"), hnd = choose(2, "handler set");
        Pair p(fam); Connection* c = p.c; if (hnd) c->SetHandlerDefault(h_default);
        p.recv_from_peer(in.substr(0, part)); settle(); if (part == (int)in.size() && !hnd) EQ(pull(c), std::string("in#1"), "pulled");
        if (n) c->Push(mk("out", 30), false);
        c->Disconnect(false, false); if (late) p_send(p.peer(), in.substr(part));
        EQ(c->WaitForStop(9), true, "stopped"); EQ(now_s(), 0.0, "time to disconnect");
        EQ(p.out(), n ? mkw("out", 30, 2) : std::string(), "sent"); EQ(fd_open(p.mine()), false, "socket open");
        EQ(join_s(history()), std::string(hnd && part == (int)in.size() ? "D in#1" : ""), "handled"); EQ(pull(c, -1), std::string("null"), "pulled");
    });
    gp.bound_quick = 2; gp.bound_thorough = 3;
    // the peer sends a lot and only reads when it is done with that
    auto& g3 = add("graceful_vs_busy_peer", "C14 C28 C15 C12 C10", [] {
        int fam = family();
        Pair p(fam, 12, 12); Connection* c = p.c; int peer = p.peer();
        c->Push(mk("out", 30), false);
        int t = spawn("peer", [peer] { std::string s; for (int k = 0; k < 4; k++) s += wf::req(k, "in"); p_send(peer, s); while (!p_recv(peer).empty()) {} });
        c->Disconnect(false, true);
        EQ(now_s(), 0.0, "time"); EQ(p.out(), mkw("out", 30, 2), "sent");
        join(t);
    });
    g3.bound_quick = 2; g3.bound_thorough = 3;
    auto& g4 = add("graceful_from_handler", "C14 C15 C17 C24", [] {
        int fam = family(); bool forced = choose(2, "forced");
        Pair p(fam); Connection* c = p.c; int peer = p.peer();
        static bool forced_; forced_ = forced;
        c->SetHandlerNamed("bye", [](Connection* k, Request* r) { mark("bye"); k->Push(mk("stop"), false); k->Disconnect(forced_, false); k->Push(mk("late"), false); delete r; });
        c->SetHandlerDefault(h_default);
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "x") + wf::req(3, "bye") + wf::req(5, "y")); while (!p_recv(peer).empty()) {} });
        EQ(c->WaitForStop(10), true, "stopped"); EQ(now_s(), 0.0, "time");
        EQ(join_s(history()), std::string("D x#1,bye"), "handled");
        if (!forced) EQ(p.out(), wf::req(2, "stop"), "sent"); else SIM_CHECK(prefix(p.out(), wf::req(2, "stop") + wf::req(4, "late")), "sent something else");
        EQ(pull(c), std::string("null"), "pulled");
        join(t);
    });
    g4.bound_quick = 3; g4.bound_thorough = 4;
    auto& g5 = add("graceful_then_forced", "C14 C15 C12", [] {
        int fam = family();
        Pair p(fam, 6); Connection* c = p.c;      // nobody reads
        c->Push(mk("out", 30), false); settle();
        c->Disconnect(false, false); settle();
        EQ(c->IsConnected(), true, "connected"); EQ(c->IsDisconnecting(), true, "disconnecting");
        EQ(c->WaitForStop(3), false, "stopped"); 
        int t = spawn("other", [c] { c->Disconnect(true, true); mark("other returned"); });
        c->Disconnect(true, true);
        EQ(c->IsConnected(), false, "connected"); EQ(now_s(), 3.0, "time");
        join(t);
        SIM_CHECK(prefix(p.out(), mkw("out", 30, 2)), "sent something else");
    });
    g5.bound_quick = 3; g5.bound_thorough = 4;
    // ---------------------------------------------------------------- C28
    auto& k = add("stalled_peer", "C28 C15 C16 C12 C14 C10", [] {
        int fam = family(); int bs = std::vector<int>{1024, 1, 1000000}[choose(3, "send block size")]; bool hnd = choose(2, "handler set");
        Pair p(fam, 8); Connection* c = p.c; c->SetSendBlockSize(bs); if (hnd) c->SetHandlerDefault(h_default);
        c->Push(mk("big", 60), false); c->Push(mk("two"), false);
        settle();
        EQ(c->IsConnected(), true, "connected"); EQ(c->IsDisconnecting(), false, "disconnecting"); EQ((int)c->GetType(), fam == TCP ? (int)SocketTypeTcp : (int)SocketTypeUnix, "type");
        c->SetOurSaInterval(7); c->SetTheirNaIntervalLimit(70);
        EQ(pull(c), std::string("null"), "pulled"); EQ(c->WaitForStop(0), false, "stopped");
        p.recv_from_peer(wf::req(1, "in")); settle();
        if (hnd) EQ(join_s(history()), std::string("D in#1"), "handled"); else EQ(pull(c), std::string("in#1"), "pulled");
        c->Push(mk("three"), false);
        EQ(now_s(), 0.0, "time");
        if (choose(2, "resumes")) {
            set_cap(p.mine(), 100);
            std::string exp = mkw("big", 60, 2) + wf::req(4, "two") + wf::req(6, "three");
            std::string g = p_recv_exact(p.peer(), exp.size());
            EQ(no_ka(g) == exp, true, "transmission resumed correctly");
            EQ(now_s(), 0.0, "time");
        }
        c->Disconnect(true, true);
        EQ(now_s(), 0.0, "time"); EQ(c->IsConnected(), false, "connected");
    });
    k.bound_quick = 1; k.bound_thorough = 2;
    auto& k1 = add("sluggish_peer", "C28 C15 C16 C12 C14", [] {
        int fam = family(); int bs = std::vector<int>{1024, 3, 1}[choose(3, "send block size")]; int r = 1 + choose(3, "bytes the peer reads at a time"), cap = 4 + choose(6, "window");
        Pair p(fam, cap); Connection* c = p.c; c->SetSendBlockSize(bs);
        std::string exp = mkw("one", 5, 2) + wf::req(4, "two"), got; size_t stop = choose((int)exp.size() + 1, "bytes read before the peer stops");
        c->Push(mk("one", 5), false); c->Push(mk("two"), false); settle();
        while (got.size() < stop) { got += p_recv(p.peer(), std::min<size_t>(r, stop - got.size())); settle(); }
        EQ(pull(c), std::string("null"), "pulled"); c->SetOurSaInterval(9); c->SetTheirNaIntervalLimit(80); EQ(c->IsConnected(), true, "connected"); EQ(c->WaitForStop(0), false, "stopped");
        p.recv_from_peer(wf::req(1, "in")); EQ(pull(c, 3), std::string("in#1"), "pulled"); c->Push(mk("three"), false);
        EQ(now_s(), 0.0, "time"); exp += wf::req(6, "three"); SIM_CHECK(prefix(p.out(), exp), "sent something else");
        if (choose(2, "resumes")) { got += p_recv_exact(p.peer(), exp.size() - got.size()); EQ(got, exp, "sent"); }
        c->Disconnect(true, true); EQ(now_s(), 0.0, "time"); EQ(c->IsConnected(), false, "connected");
    });
    k1.bound_quick = 0; k1.bound_thorough = 1;
    auto& k2 = add("stalled_peer_race", "C28 C15 C25", [] {
        int fam = family(); int bs = std::vector<int>{5, 100000}[choose(2, "send block size")];
        Pair p(fam, 8); Connection* c = p.c; int peer = p.peer(); c->SetSendBlockSize(bs);
        c->Push(mk("big", 30), false);
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "in")); p_recv(peer, 4); p_send(peer, wf::req(2, "in")); });
        c->Push(mk("two"), false);
        EQ(pull(c, -1), std::string("in#1"), "pulled"); EQ(pull(c, -1), std::string("in#2"), "pulled");
        EQ(now_s(), 0.0, "time");
        join(t);
        c->Disconnect(true, true);
        SIM_CHECK(prefix(p.out(), mkw("big", 30, 2) + wf::req(4, "two")), "sent something else");
    });
    k2.bound_quick = 2; k2.bound_thorough = 3;
    // sockets that are reported ready and are not, waits that return for no reason
    auto& kx = add("spurious_connection", "C26 C28 C12 C10 C14 C16", [] {
        int fam = family(); Pair p(fam, choose(2, "window filled by the first") ? 13 : 15); Connection* c = p.c; int peer = p.peer();
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "in") + wf::req(3, "in2").substr(0, 5)); p_send(peer, wf::req(3, "in2").substr(5)); while (!p_recv(peer).empty()) {} });
        c->Push(mk("out"), false); c->Push(mk("out2"), false);
        EQ(pull(c, -1), std::string("in#1"), "pulled"); EQ(pull(c, 5), std::string("in2#3"), "pulled");
        EQ(c->IsConnected(), true, "connected"); EQ(c->WaitForStop(0), false, "stopped");
        c->Disconnect(false, true); EQ(now_s(), 0.0, "time"); EQ(p.out(), wf::req(2, "out") + wf::req(4, "out2"), "sent"); join(t);
    });
    kx.bound_quick = 2; kx.bound_thorough = 4; kx.spurious = true; kx.delay = true;
    auto& ky = add("spurious_waits", "C26 C15 C16 C27", [] {
        int what = choose(5, "waits for"); Pair p(UNIX); Connection* c = p.c; int peer = p.peer();
        int t = spawn("stop", [=] { sleep_s(2); if (what == 3) { std::string q = p_recv(peer); p_send(peer, wf::req(wf::rd(q, 4, 4), "answer")); } else if (what == 4) p_send(peer, wf::req(1, "in")); else c->Disconnect(true, false); });
        if (what == 0) { EQ(c->WaitForStop(-1), true, "stopped"); } if (what == 1) { EQ(pull(c, -1), std::string("null"), "pulled"); } if (what == 2) EQ(show(c->Push(mk("q"), false, -1)), std::string("null"), "pushed");
        if (what == 3) { Request* r = c->Push(mk("q"), false, 9); EQ(show(r), std::string("answer#2"), "answer"); delete r; } if (what == 4) EQ(pull(c, 9), std::string("in#1"), "pulled");
        EQ(now_s(), 2.0, "returned at"); join(t);
    });
    ky.bound_quick = 3; ky.bound_thorough = 4; ky.spurious = true;
    // two endpoints that both send a lot
    auto& k3 = add("both_send_a_lot", "C28 C12 C10 C14 C13 C16 C17", [] {
        int fam = family(); int fds[2]; int bs = std::vector<int>{100000, 9}[choose(2, "send block size")];
        pair(fam, fds, 16, 16);
        // the second end is a library connection as well
        int g[2]; (void)g;
        Connection* a = new Connection(fds[0]); Connection* b = new Connection(fds[1]);
        a->SetSendBlockSize(bs); b->SetSendBlockSize(bs);
        for (int i = 0; i < 2; i++) { a->Push(mk("a" + std::to_string(i), 20), false); b->Push(mk("b" + std::to_string(i), 20), false); }
        for (int i = 0; i < 2; i++) {
            EQ(pull(b, 5), "a" + std::to_string(i) + "#" + std::to_string(2 + 2 * i), "pulled");
            EQ(pull(a, 5), "b" + std::to_string(i) + "#" + std::to_string(2 + 2 * i), "pulled");
        }
        EQ(now_s(), 0.0, "time");
        a->Disconnect(false, true); EQ(b->WaitForStop(5), true, "other end stopped"); EQ(now_s(), 0.0, "time");
        delete a; delete b;
    });
    k3.bound_quick = 2; k3.bound_thorough = 4; k3.delay = true;
    return 0;
}();
