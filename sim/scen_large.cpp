// Sizes and amounts at which a narrower counter, a fixed table or a single system call would give way. The interleavings
// are those of the other scenarios; here the sizes are enumerated, mostly in one schedule.
#include "scen.hpp"
#include <algorithm>

static const uint32_t SIZES[] = {32768, 65535, 65536, 65537, 300000};
static const uint32_t BLOCKS[] = {1024, 65536, 0x80000000u, 0xffffffffu};
// a request of exactly this encoded size: header 10, name "big" 3, datum header 6 + name "p" 1, value header 5 + length 4
static const uint32_t OVERHEAD = 10 + 3 + 6 + 1 + 5 + 4;
static char patch(uint32_t i) { return (char)('a' + (i * 7 + i / 251) % 26); }
static std::string filler(uint32_t n) { std::string s(n, 0); for (uint32_t i = 0; i < n; i++) s[i] = patch(i); return s; }
static std::string bigw(uint32_t size, uint32_t id) { return wf::req(id, "big", {{"p", wf::vstr(filler(size - OVERHEAD))}}); }
static void same_bytes(const std::string& got, const std::string& exp, const char* what) {
    SIM_CHECK(got.size() == exp.size(), "%s: %zu bytes instead of %zu", what, got.size(), exp.size());
    for (size_t i = 0; i < got.size(); i++) if (got[i] != exp[i]) { fail("%s: byte %zu differs", what, i); break; }
}
static Connection* X;
static int NDONE;

static int reg = [] {
    // ---------------------------------------------------------------- one large message, sent
    auto& a = add("large_sent", "C12 C14 C13 C28", [] {
        int fam = family(); uint32_t size = SIZES[choose(5, "size")], block = BLOCKS[choose(4, "block size")];
        size_t window = std::vector<size_t>{4096, 65536, 1u << 22}[choose(3, "window")]; bool end = choose(2, "ended behind it");
        Pair p(fam, window); Connection* c = p.c; c->SetSendBlockSize(block);
        { Request* r = new Request("big"); r->Emplace<ValueStr>("p", filler(size - OVERHEAD)); EQ((uint32_t)r->GetSize(), size, "size"); c->Push(r, false); }
        c->Push(mk("after"), false);
        if (end) c->Disconnect(false, false);
        std::string exp = bigw(size, 2) + wf::req(4, "after"), got;
        while (got.size() < exp.size()) { std::string s = p_recv(p.peer()); if (s.empty()) break; got += s; }
        same_bytes(got, exp, "received by the peer");
        if (end) { EQ(c->WaitForStop(3), true, "stopped"); EQ(p_recv(p.peer()), std::string(), "received by the peer after the end"); }
        EQ(now_s(), 0.0, "time");
    });
    a.bound_quick = 0; a.bound_thorough = 0; a.delay = true; a.max_steps = 400000;
    // ---------------------------------------------------------------- one large message, received
    auto& b = add("large_received", "C10 C11 C16 C28", [] {
        int fam = family(); uint32_t size = SIZES[choose(5, "size")], block = BLOCKS[choose(4, "block size")];
        uint32_t limit = choose(4, "limit"); limit = limit == 0 ? size : limit == 1 ? size - 1 : limit == 2 ? 0x80000000u : 0xffffffffu; int split = choose(3, "split");
        Pair p(fam); Connection* c = p.c; c->SetRecvBlockSize(block); c->SetMaxRequestSize(limit); EQ(c->GetMaxRequestSize(), limit, "limit");
        std::string in = wf::req(1, "before") + bigw(size, 3) + wf::req(5, "after"); size_t at = split == 0 ? in.size() : split == 1 ? 18 + 32768 : 18 + 65536; at = std::min(at, in.size());
        p.recv_from_peer(in.substr(0, at)); settle(); if (at < in.size()) { p.recv_from_peer(in.substr(at)); settle(); }
        EQ(pull(c), std::string("before#1"), "pulled");
        if (limit < size) {
            EQ(pull(c), std::string("null"), "pulled"); EQ(c->WaitForStop(3), true, "stopped by what exceeds the limit");
        } else {
            Request* r = c->Pull(); EQ(show(r), std::string("big#3"), "pulled"); EQ((uint32_t)r->GetSize(), size, "size"); same_bytes(enc(r), bigw(size, 3), "pulled"); delete r;
            EQ(pull(c), std::string("after#5"), "pulled"); EQ(c->IsConnected(), true, "connected");
        }
        EQ(now_s(), 0.0, "time");
    });
    b.bound_quick = 0; b.bound_thorough = 0; b.delay = true; b.max_steps = 400000;
    // a length just above the limit, without a body: nothing is awaited
    auto& b2 = add("large_announced", "C10 C11", [] {
        int fam = family(); uint32_t len = std::vector<uint32_t>{16385, 16384 + 65536, 0x7fffffff, 0x80000000u, 0x80000010u, 0xfffffff0u, 0xffffffffu}[choose(7, "length")];
        uint32_t limit = std::vector<uint32_t>{16384, 10, len - 1}[choose(3, "limit")];
        Pair p(fam); Connection* c = p.c; c->SetMaxRequestSize(limit); p.recv_from_peer(wf::le(len, 4) + wf::le(7, 4)); settle();
        EQ(c->WaitForStop(0), true, "stopped"); EQ(pull(c), std::string("null"), "pulled"); EQ(now_s(), 0.0, "time");
    });
    b2.bound_quick = 2; b2.bound_thorough = 3;
    // ---------------------------------------------------------------- both at once, between two connections of the library
    auto& d = add("large_both_ways", "C10 C12 C16 C14", [] {
        int fam = family(); uint32_t size = SIZES[choose(5, "size")]; size_t window = choose(2, "window") ? 4096 : 65536; uint32_t block = choose(2, "block size") ? 1024 : 1u << 20;
        int fds[2]; pair(fam, fds, window, window); Connection* c[2] = {new Connection(fds[0]), new Connection(fds[1])};
        for (auto k : c) { k->SetMaxRequestSize(size); k->SetSendBlockSize(block); k->SetRecvBlockSize(block); }
        for (int n = 0; n < 2; n++) for (auto k : c) { Request* r = new Request("big"); r->Emplace<ValueStr>("p", filler(size - OVERHEAD)); k->Push(r, false); }
        for (int n = 0; n < 2; n++) for (auto k : c) { Request* r = k->Pull(20); SIM_CHECK(r, "nothing pulled"); same_bytes(enc(r), bigw(size, 2 * n + 2), "pulled"); delete r; }
        EQ(now_s(), 0.0, "time"); delete c[0]; delete c[1];
    });
    d.bound_quick = 0; d.bound_thorough = 0; d.delay = true; d.max_steps = 1000000;
    // ---------------------------------------------------------------- many requests
    auto& e = add("many_queued", "C12 C13 C14 C28", [] {
        int fam = family(); int n = choose(2, "amount") ? 1500 : 300; int end = choose(4, "end"); bool pads = choose(2, "pads");
        Pair p(fam, 64); Connection* c = p.c; std::string exp;
        for (int i = 0; i < n; i++) { int pad = pads ? (i * 37) % 400 : -1; c->Push(mk("m", pad), false); exp += mkw("m", pad, 2 + 2 * i); }
        if (end == 1) c->Disconnect(false, false);
        if (end == 2) { c->Disconnect(true, false); EQ(c->WaitForStop(3), true, "stopped"); SIM_CHECK(prefix(p.out(), exp), "what was sent is not a beginning of what was pushed"); EQ(now_s(), 0.0, "time"); return; }
        if (end == 3) { p_close(p.peer()); EQ(c->WaitForStop(3), true, "stopped"); SIM_CHECK(prefix(p.out(), exp), "what was sent is not a beginning of what was pushed"); EQ(now_s(), 0.0, "time"); return; }
        std::string got; set_cap(p.mine(), 1 << 16); while (got.size() < exp.size()) { std::string s = p_recv(p.peer()); if (s.empty()) break; got += s; }
        same_bytes(got, exp, "received by the peer");
        if (end == 1) { EQ(c->WaitForStop(3), true, "stopped"); } else EQ(c->IsConnected(), true, "connected");
        EQ(now_s(), 0.0, "time");
    });
    e.bound_quick = 0; e.bound_thorough = 0; e.delay = true; e.max_steps = 400000;
    auto& f = add("many_received", "C10 C16 C28 C17", [] {
        int fam = family(); int n = choose(2, "amount") ? 1500 : 300; int end = choose(3, "end"); int how = choose(3, "delivered to");
        Pair p(fam); Connection* c = p.c; std::string in; NDONE = 0;
        if (how == 1) c->SetHandlerDefault([](Connection*, Request* r) { EQ(show(r), "m#" + std::to_string(1 + 2 * NDONE), "handled"); NDONE++; delete r; });
        if (how == 2) c->SetHandlerNamed("m", [](Connection*, Request* r) { EQ(show(r), "m#" + std::to_string(1 + 2 * NDONE), "handled"); NDONE++; delete r; });
        for (int i = 0; i < n; i++) in += wf::req(1 + 2 * i, "m");
        p.recv_from_peer(in); settle(); if (end == 1) { p_close(p.peer()); settle(); } if (end == 2) c->Disconnect(true, false);
        if (how) EQ(NDONE, n, "handled");
        else for (int i = 0; i < n; i++) EQ(pull(c, end ? -1 : 5), "m#" + std::to_string(1 + 2 * i), "pulled");
        EQ(pull(c, end ? -1 : 0), std::string("null"), "pulled at the end"); EQ(now_s(), 0.0, "time");
    });
    f.bound_quick = 0; f.bound_thorough = 0; f.delay = true; f.max_steps = 400000;
    // nobody pulls: what is left is released with the connection
    auto& f2 = add("many_left", "C28 C16", [] {
        int fam = family(); int n = choose(2, "amount") ? 1100 : 260; Pair p(fam); std::string in; for (int i = 0; i < n; i++) in += wf::req(1 + 2 * i, "m", {{"p", wf::vstr("x")}});
        p.recv_from_peer(in); settle(); for (int i = 0; i < 3; i++) EQ(pull(p.c), "m#" + std::to_string(1 + 2 * i), "pulled"); if (choose(2, "end")) p_close(p.peer()); p.drop(); EQ(now_s(), 0.0, "time");
    });
    f2.bound_quick = 1; f2.bound_thorough = 2; f2.delay = true; f2.max_steps = 400000;
    // ---------------------------------------------------------------- many handlers
    auto& g = add("many_handlers", "C17", [] {
        int fam = family(); int n = 300, gone = choose(4, "removed"); bool dflt = choose(2, "default");
        Pair p(fam); Connection* c = p.c; if (dflt) c->SetHandlerDefault(h_default);
        auto removed = [gone](int i) { return gone == 0 ? false : gone == 1 ? i % 2 == 0 : gone == 2 ? i < 256 : i != 299; };
        for (int i = 0; i < n; i++) c->SetHandlerNamed("h" + std::to_string(i), i % 3 ? h_a : h_b);
        for (int i = 0; i < n; i++) if (removed(i)) c->SetHandlerNamed("h" + std::to_string(i), nullptr);
        for (int i = 0; i < n; i++) SIM_CHECK(c->GetHandlerNamed("h" + std::to_string(i)) == (removed(i) ? nullptr : i % 3 ? h_a : h_b), "handler %d", i);
        std::string in; for (int i = 0; i < n; i++) in += wf::req(1 + 2 * i, "h" + std::to_string(i)); p.recv_from_peer(in); settle(); size_t at = 0;
        for (int i = 0; i < n; i++) {
            std::string nm = "h" + std::to_string(i) + "#" + std::to_string(1 + 2 * i);
            if (removed(i) && !dflt) EQ(pull(c), nm, "pulled");
            else { SIM_CHECK(at < history().size(), "request %d was not handled", i); EQ(history()[at++], (removed(i) ? "D " : i % 3 ? "A " : "B ") + nm, "handled"); }
        }
        EQ(pull(c), std::string("null"), "pulled at the end"); EQ(at, history().size(), "handled");
    });
    g.bound_quick = 0; g.bound_thorough = 0; g.delay = true; g.max_steps = 400000;
    // ---------------------------------------------------------------- many that wait for a response
    auto& h = add("many_waiting", "C27 C16", [] {
        int fam = family(); const int n = 12; int order = choose(4, "order of the responses"); Pair p(fam); X = p.c; NDONE = 0; int t[n];
        for (int i = 0; i < n; i++) { t[i] = spawn("asker", [i] { Request* q = mk("q", -1, 100 + i); Request* r = X->Push(q, false, 50, false); EQ(show(r), "a" + std::to_string(i) + "#" + std::to_string(100 + i), "response"); delete r; NDONE++; }); settle(); }
        p_recv_exact(p.peer(), n * wf::req(1, "q").size());
        for (int k = 0; k < n; k++) { int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 5) % n : (k * 7 + 3) % n; p_send(p.peer(), wf::req(100 + i, "a" + std::to_string(i)) + wf::req(1, "other")); }
        for (int i = 0; i < n; i++) join(t[i]);
        EQ(now_s(), 0.0, "time"); for (int i = 0; i < n; i++) EQ(pull(X), std::string("other#1"), "pulled"); EQ(pull(X), std::string("null"), "pulled at the end");
    });
    h.bound_quick = 0; h.bound_thorough = 1; h.delay = true; h.max_steps = 100000;
    // ---------------------------------------------------------------- intervals that do not fit in 32 bits of milliseconds or seconds
    auto& w = add("long_times", "C18 C19 C26", [] {
        int fam = family(); int what = choose(3, "what"); long v = std::vector<long>{2147484L, 4294968L, 2147483648L, 4294967298L}[choose(4, "interval")];
        Pair p(fam); Connection* c = p.c;
        if (what == 0) { c->SetTheirNaIntervalLimit(4500000000L); c->SetOurSaInterval(v); EQ((long)c->GetOurSaInterval(), v, "interval");
            sleep_s(v - 1.0); EQ(p.out().size(), (size_t)0, "sent"); sleep_s(2); EQ(p.out() == wf::keepalive(), true, "sent after the interval"); }
        if (what == 1) { c->SetOurSaInterval(4500000000L); c->SetTheirNaIntervalLimit(v); EQ((long)c->GetTheirNaIntervalLimit(), v, "interval"); EQ(c->WaitForStop(0), false, "stopped");
            sleep_s(v - 1.0); EQ(c->WaitForStop(0), false, "stopped"); EQ(c->IsDisconnecting(), false, "disconnecting"); sleep_s(2); EQ(c->WaitForStop(0), true, "stopped after the interval"); }
        if (what == 2) { c->SetOurSaInterval(v); c->SetTheirNaIntervalLimit(v); p.recv_from_peer(wf::keepalive()); c->Push(mk("x"), false); sleep_s(v - 1.0); EQ(c->WaitForStop(0), false, "stopped"); EQ(names_of(p.out()), std::string("x"), "sent"); EQ(p.out().size(), wf::req(1, "x").size(), "sent"); 
            p.recv_from_peer(wf::keepalive()); c->Push(mk("y"), false); sleep_s(v - 1.0); EQ(c->WaitForStop(0), false, "stopped"); EQ(p.out().size(), 2 * wf::req(1, "x").size(), "sent"); }
    });
    w.bound_quick = 2; w.bound_thorough = 3; w.horizon_s = 9e9;
    // waits of a length that does not fit in 32 bits of milliseconds
    auto& w2 = add("long_waits", "C16 C26 C27", [] {
        int fam = family(); int what = choose(3, "what"); int v = std::vector<int>{2147483, 2147484, 4294968, 2147483647}[choose(4, "timeout")]; bool comes = choose(2, "it comes");
        Pair p(fam); X = p.c; X->SetOurSaInterval(4500000000L); X->SetTheirNaIntervalLimit(4500000000L); int peer = p.peer();
        int t = comes ? spawn("peer", [peer, v, what] { sleep_s(v - 1.0); if (what == 2) p_close(peer); else p_send(peer, wf::req(what == 1 ? 2 : 1, "in")); }) : -1;
        double due = comes ? v - 1.0 : v;
        if (what == 0) EQ(pull(X, v), std::string(comes ? "in#1" : "null"), "pulled");
        if (what == 1) { Request* r = X->Push(mk("q"), false, v); EQ(show(r), std::string(comes ? "in#2" : "null"), "response"); delete r; }
        if (what == 2) EQ(X->WaitForStop(v), comes, "stopped");
        SIM_CHECK(now_s() >= due && now_s() <= due + 0.05, "returned at %.9g instead of %.9g", now_s(), due); if (t >= 0) join(t);
    });
    w2.bound_quick = 2; w2.bound_thorough = 3; w2.horizon_s = 9e9;
    // ---------------------------------------------------------------- descriptors beyond 1023 (they count from 1000 here), where select() would be at an end
    auto& y = add("high_descriptors", "C23 C21 C16 C27 C22 C26", [] {
        int fam = family(); for (int i = 0; i < 20; i++) { int d[2]; pair(UNIX, d); p_close(d[0]); p_close(d[1]); }
        Server* s = new Server(); shim::set_connected(s, [](Server*, Connection* c) { X = c; c->SetHandlerDefault([](Connection* k, Request* r) { Request* a = mk("re", -1, r->GetId()); delete r; k->Push(a, false, 0, false); }); });
        EQ(fam == TCP ? s->StartTcp("127.0.0.1", 6000) : s->StartUnix("/u"), true, "started"); Client* c = new Client();
        EQ(fam == TCP ? c->ConnectTcp("127.0.0.1", 6000, 5) : c->ConnectUnix("/u", 5), true, "connected"); EQ(c->WaitForStop(0), false, "stopped"); EQ(readable(c->GetStoppedEvent(), 0), false, "stopped event"); EQ(readable(c->GetStoppedEvent(), 1), false, "stopped event");
        double t0 = now_s(); Request* r = c->Push(mk("q"), false, 5); EQ(show(r), std::string("re#1"), "response"); delete r; EQ(pull(c, 2), std::string("null"), "pulled"); EQ(now_s(), t0 + 2, "time");
        if (choose(2, "end")) { s->Stop(0); EQ(c->WaitForStop(5), true, "stopped"); EQ(readable(c->GetStoppedEvent(), -1), true, "stopped event"); } else { c->Disconnect(false, true); EQ(readable(c->GetStoppedEvent(), 3), true, "stopped event"); }
        EQ(now_s(), t0 + 2, "time"); delete c; delete s;
    });
    y.bound_quick = 2; y.bound_thorough = 3; y.delay = true; y.async_connect = true;
    return 0;
}();
