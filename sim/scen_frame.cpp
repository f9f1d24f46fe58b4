// C10, C11: framing, hostile streams.
#include "scen.hpp"

static std::vector<std::string> MSGS() {
    return {wf::req(1, "a"), wf::keepalive(7), wf::req(0x01020304, "", {{"n", wf::vint(4, 0x11223344)}})};
}
static std::string cat(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; }
// what has to be delivered of the first n bytes
static std::vector<std::string> complete(const std::string& s, size_t n) {
    std::vector<std::string> r; for (auto& m : wf::payload(s.substr(0, n))) r.push_back(m.raw); return r;
}
static std::vector<std::string>* got;
static Connection* from;
static void h_collect(Connection* c, Request* r) { SIM_CHECK(c == from, "handler called with another connection"); Host h; got->push_back(enc(r)); delete r; }
static void drain(Connection* c) { while (Request* r = c->Pull(0)) { Host h; got->push_back(enc(r)); delete r; } }
struct Col { std::vector<std::string> v; Col() { got = &v; } ~Col() { got = nullptr; } };
static void same(const std::vector<std::string>& exp, const char* when) {
    SIM_CHECK(*got == exp, "%s: %zu requests delivered, %zu expected%s", when, got->size(), exp.size(), got->size() == exp.size() ? " (contents or order differ)" : "");
}
static void closed(Pair& p, double t = 0) {
    SIM_CHECK(!p.c->IsConnected(), "still connected");
    SIM_CHECK(p.c->WaitForStop(0), "no stop reported");
    SIM_CHECK(now_s() == t, "closed at %.3f s", now_s());
    SIM_CHECK(!fd_open(p.mine()), "socket is not closed");
}
static const int BLOCKS[] = {1024, 1, 2, 3, 7, 0};      // 0 is raised to 1

static int reg = [] {
    add("frame_basic", "C10 C16 C18 C19 C13 C15 C17", [] {
        Pair p(family());
        EQ(p.c->IsConnected(), true, "IsConnected");
        p.recv_from_peer(wf::req(1, "hello"));
        settle();
        EQ(pull(p.c), std::string("hello#1"), "pulled");
        EQ(pull(p.c), std::string("null"), "pulled");
    }).bound_quick = 3;
    // up to two cuts anywhere, or byte by byte
    auto& s1 = add("frame_cuts", "C10 C11 C17 C16 C15", [] {
        Col col; int fam = family(); int bs = BLOCKS[choose(6, "receive block size")]; bool byh = choose(2, "by handler");
        auto msgs = MSGS(); std::string s = cat(msgs); size_t n = s.size();
        Pair p(fam); from = p.c; uint32_t sb = p.c->GetSendBlockSize();
        p.c->SetRecvBlockSize(bs); EQ(p.c->GetRecvBlockSize(), bs ? bs : 1u, "receive block size"); EQ(p.c->GetSendBlockSize(), sb, "send block size");
        if (byh) p.c->SetHandlerDefault(h_collect);
        std::vector<size_t> cuts;
        size_t a = choose(n + 1, "first cut");
        if (a == n) { for (size_t i = 1; i < n; i++) cuts.push_back(i); }
        else if (a) { cuts.push_back(a); size_t b = choose(n - a, "second cut"); if (b) cuts.push_back(a + b); }
        cuts.push_back(n);
        size_t at = 0;
        for (size_t c : cuts) {
            p.recv_from_peer(s.substr(at, c - at)); at = c;
            settle();
            drain(p.c);
            same(complete(s, at), "after a piece");
        }
        p_close(p.peer());
        settle(); drain(p.c);
        same(complete(s, n), "at the end");
        closed(p);
    });
    s1.bound_quick = 0; s1.bound_thorough = 0;
    // the pieces of two connections arrive in turns
    auto& s1b = add("frame_two_connections", "C10 C17 C16 C25", [] {
        int fam = family(); int bs = BLOCKS[choose(2, "receive block size")]; bool many = choose(2, "whole messages");
        Pair p(fam), q(fam); p.c->SetRecvBlockSize(bs); q.c->SetRecvBlockSize(bs);
        std::string a = wf::req(1, "first", {{"n", wf::vint(4, 77)}}), b = wf::req(0x01020304, "a different one"); if (many) { a += wf::req(3, "a2"); b += wf::req(5, "b2"); }
        size_t i = choose(a.size() + 1, "cut of the first"), j = choose(b.size() + 1, "cut of the second");
        p.recv_from_peer(a.substr(0, i)); settle(); q.recv_from_peer(b.substr(0, j)); settle(); p.recv_from_peer(a.substr(i)); settle(); q.recv_from_peer(b.substr(j)); settle();
        for (auto m : {&p, &q}) { std::string s, e = m == &p ? a : b; while (Request* r = m->c->Pull(0)) { s += enc(r); delete r; } EQ(s, e, "received"); EQ(m->c->IsConnected(), true, "connected"); }
    });
    s1b.bound_quick = 0; s1b.bound_thorough = 0;
    auto& s2 = add("frame_short_reads", "C10 C11 C28", [] {
        Col col; int fam = family(); int bs = BLOCKS[choose(3, "receive block size")];
        std::string s = cat({wf::req(5, "ab"), wf::req(6, "c", {{"s", wf::vstr("xyz")}})});
        Pair p(fam); p.c->SetRecvBlockSize(bs);
        p.recv_from_peer(s);
        settle(); drain(p.c);
        same(complete(s, s.size()), "after everything");
    });
    s2.bound_quick = 3; s2.bound_thorough = 5; s2.short_io = true;
    auto& s3 = add("frame_truncated", "C10 C15 C16 C17 C11", [] {
        Col col; int fam = family(); int bs = BLOCKS[choose(3, "receive block size")]; int how = choose(2, "close or shutdown");
        int busy = choose(3, "something to send");     // 0 no, 1 fits, 2 the peer does not read
        std::string s = cat({wf::req(1, "a"), wf::req(2, "b", {{"n", wf::vint(8, 9)}})}); size_t n = s.size();
        size_t cut = choose(n + 1, "stream ends after");
        Pair p(fam, busy == 2 ? 4 : (size_t)-1); p.c->SetRecvBlockSize(bs);
        if (busy) { p.c->Push(mk("out", 20), false); p.c->Push(mk("out", 20), false); }
        if (busy == 2) settle();
        if (cut) p.recv_from_peer(s.substr(0, cut));
        if (how) p_shutdown_wr(p.peer()); else p_close(p.peer());
        settle(); drain(p.c);
        same(complete(s, cut), "after the end of the stream");
        closed(p);
        SIM_CHECK(p.c->Pull(-1) == nullptr, "Pull after the end");
    });
    s3.bound_quick = 1; s3.bound_thorough = 2;
    // the same with every schedule between peer and connection
    auto& s4 = add("frame_race_close", "C10 C16 C24 C25", [] {
        Col col; int fam = family(); int busy = choose(2, "something to send");
        Pair p(fam);
        std::string s = cat({wf::req(1, "a"), wf::req(2, "b")});
        if (busy) p.c->Push(mk("out", 3), false);
        int peer = p.peer();
        int t = spawn("peer", [&] { p_send(peer, s.substr(0, 5)); p_send(peer, s.substr(5)); p_close(peer); });
        for (;;) { Request* r = p.c->Pull(-1); if (!r) break; Host h; got->push_back(enc(r)); delete r; }
        same(complete(s, s.size()), "before the end");
        EQ(p.c->WaitForStop(-1), true, "WaitForStop");
        closed(p);
        join(t);
    });
    s4.bound_quick = 3; s4.bound_thorough = 4;
    auto& s5 = add("frame_sizes", "C10 C11 C28", [] {
        Col col; static const int pads[] = {0, 1, 226, 227, 228, 229, 230, 240, 1000, 1001, 1002, 1003, 1004, 1005, 2030, 4070, 16357};
        int pad = pads[choose(17, "size")]; int bs = std::vector<int>{1024, 1000, 16384, 1}[choose(4, "block")];
        Pair p(family()); p.c->SetRecvBlockSize(bs); set_cap(p.peer(), 1 << 20);
        std::string s = mkw("r", pad, 3) + wf::req(4, "z");
        p.recv_from_peer(s); settle(); drain(p.c);
        same(complete(s, s.size()), "big request");
    });
    s5.bound_quick = 1; s5.bound_thorough = 2; s5.max_steps = 200000;

    // ---------------------------------------------------------------- C11
    auto& h1 = add("hostile_length", "C11 C15 C10 C16", [] {
        Col col; int fam = family(); int bs = BLOCKS[choose(3, "receive block size")];
        static const unsigned maxs[] = {16384, 10, 11, 20, 300, 0, 9}; unsigned set = maxs[choose(7, "maximum")], mx = set < 10 ? 10 : set;
        static const uint32_t lens[] = {0, 1, 4, 5, 9, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x01000000, 10, 0x100, 0xfffffff0u, 8, 3, 2, 6, 7};
        unsigned which = choose(18 + 3, "announced length");
        uint32_t len = which < 18 ? lens[which] : which == 18 ? mx : which == 19 ? mx + 1 : mx - 1;
        int body = choose(3, "body follows");          // 0 nothing, 1 whole, 2 zeros
        Pair p(fam); p.c->SetRecvBlockSize(bs); p.c->SetMaxRequestSize(set); EQ(p.c->GetMaxRequestSize(), (uint32_t)mx, "maximum size");
        std::string first = wf::req(1, ""), s;
        bool ok = len >= 10 && len <= mx;
        if (ok || len <= 4096) {
            uint32_t nl = len >= 10 ? len - 10 : 0;
            std::string m = wf::le(len, 4) + wf::le(9, 4) + wf::le(nl, 2) + std::string(nl, 'q');
            s = body == 1 ? m : body == 2 ? wf::le(len, 4) + std::string(len > 4 ? len - 4 : 8, '\0') : wf::le(len, 4);
        } else s = wf::le(len, 4) + (body ? std::string(64, body == 1 ? 'q' : '\0') : "");
        p.recv_from_peer(first); settle(); drain(p.c);
        same({first}, "request before");
        p.recv_from_peer(s); settle(); drain(p.c);
        if (!ok) {
            same({first}, "after a bad length");
            closed(p);
            SIM_CHECK(unread(p.peer()) + 4 >= s.size() || p.c->IsConnected() == false, "reads on");
        } else {
            EQ(p.c->IsConnected(), true, "connected after an acceptable length");
            std::vector<std::string> e = {first};
            if (s.size() == len && well_formed(s)) e.push_back(s);
            same(e, "after an acceptable length");
            if (s.size() == len) {       // still in step
                p.recv_from_peer(first); settle(); drain(p.c); e.push_back(first); same(e, "request after");
            }
        }
    });
    h1.bound_quick = 0; h1.bound_thorough = 0; h1.max_steps = 400000;
    // every byte of a message replaced: it is dropped or delivered as what it says, its neighbours are untouched
    auto& h2 = add("hostile_bytes", "C11 C10 C15 C16 C17", [] {
        Col col; bool byh = choose(2, "by handler");
        std::string good = wf::req(0x0a0b, "n", {{"x", wf::vint(8, 5)}, {"ys", wf::vstr("ab")}, {"z", wf::varr({wf::vint(3, 7), wf::vundef()})}});
        static const int vals[] = {0, 1, 2, 3, 5, 9, 10, 11, 0x7f, 0x80, 0xfe, 0xff};
        size_t at = 4 + choose(good.size() - 4, "byte"); good[at] = (char)vals[choose(12, "value")];
        Pair p(TCP); from = p.c; if (byh) p.c->SetHandlerDefault(h_collect);
        std::string a = wf::req(1, "before"), b = wf::req(2, "after");
        p.recv_from_peer(a + good + b); settle(); drain(p.c);
        EQ(p.c->IsConnected(), true, "connected");
        // argument names may collide: then the request is judged by its name only
        std::vector<std::string> e = {a}; if (well_formed(good) && good.substr(10, 1) != "_") e.push_back(good); e.push_back(b);
        SIM_CHECK(got->size() == e.size(), "%zu requests delivered, %zu expected", got->size(), e.size());
        SIM_CHECK((*got)[0] == a && got->back() == b, "a neighbour was harmed");
        if (e.size() == 3) SIM_CHECK((*got)[1].substr(4, 6) == good.substr(4, 6), "delivered request differs in id or name length");
    });
    h2.bound_quick = 1; h2.bound_thorough = 2;
    auto& h3 = add("hostile_close_race", "C11 C15 C24 C25 C10", [] {
        Pair p(family()); p.c->SetHandlerDefault(h_default);
        int peer = p.peer();
        int t = spawn("peer", [&] { p_send(peer, wf::req(1, "a") + wf::le(5, 4)); p_send(peer, "xxxxxxxx"); p_close(peer); });
        EQ(p.c->WaitForStop(5), true, "stopped");
        EQ(join_s(history()), std::string("D a#1"), "delivered");
        EQ(p.c->IsConnected(), false, "connected");
        join(t);
    });
    h3.bound_quick = 3; h3.bound_thorough = 4;
    auto& h4 = add("max_size_setting", "C11", [] {
        static const unsigned v[] = {0, 1, 9, 10, 11, 1000000, 0xffffffffu}; unsigned x = v[choose(7, "setting")];
        Col col; Pair p(TCP); p.c->SetMaxRequestSize(x);
        unsigned eff = x < 10 ? 10 : x;
        EQ(p.c->GetMaxRequestSize() == eff, true, "effective maximum");
        std::string m = wf::req(3, ""); p.recv_from_peer(m); settle(); drain(p.c); same({m}, "ten bytes");
        static const unsigned big[] = {11, 60, 20000}; unsigned n = big[choose(3, "size")];
        set_cap(p.peer(), 1 << 20);
        std::string g = wf::req(4, std::string(n - 10, 'w')); p.recv_from_peer(g); settle(); drain(p.c);
        if (n <= eff) { same({m, g}, "within the limit"); EQ(p.c->IsConnected(), true, "connected"); }
        else { same({m}, "above the limit"); EQ(p.c->IsConnected(), false, "connected"); }
    });
    h4.bound_quick = 1; h4.bound_thorough = 2; h4.max_steps = 100000;
    return 0;
}();
