// C16, C17, C27: Pull, dispatch, Push that waits for the response.
#include "scen.hpp"
#include <algorithm>

static Connection *X, *Y;
static const std::string NAMES[] = {"a", "b", "aa", "", "A", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "a ", std::string(300, 'a'), "_a", "__"};
// asserts that a and b are the same multiset
static void same_set(std::vector<std::string> a, std::vector<std::string> b, const char* what) {
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); EQ(join_s(a), join_s(b), what);
}

static int reg = [] {
    // ---------------------------------------------------------------- C16
    auto& a = add("pull_order", "C16 C10 C15 C17", [] {
        int fam = family(); int n = choose(4, "requests"); int end = choose(4, "end"); int to = std::vector<int>{0, -1, 5}[choose(3, "timeout")];
        Pair p(fam); Connection* c = p.c; std::string in;
        for (int i = 0; i < n; i++) in += mkw("r", i, 1 + 2 * i) + wf::req(0, "_");
        p.recv_from_peer(in); settle();
        int k = choose(n + 1, "pulled before the end");
        for (int i = 0; i < k; i++) EQ(pull(c, to), "r#" + std::to_string(1 + 2 * i), "pulled");
        settle();
        if (end == 1) p_close(p.peer()); else if (end == 2) c->Disconnect(true, false); else if (end == 3) c->Disconnect(false, false);
        if (end) { EQ(c->WaitForStop(3), true, "stopped"); }
        for (int i = k; i < n; i++) { Request* r = c->Pull(to); EQ(show(r), "r#" + std::to_string(1 + 2 * i), "pulled"); EQ(enc(r) == mkw("r", i, 1 + 2 * i), true, "contents"); delete r; }
        EQ(now_s(), 0.0, "time");
        if (end) { for (int t : {0, -1, 5}) EQ(pull(c, t), std::string("null"), "pulled at the end"); EQ(now_s(), 0.0, "time"); }
        else { EQ(pull(c, 0), std::string("null"), "pulled at the end"); EQ(pull(c, 3), std::string("null"), "pulled at the end"); EQ(now_s(), 3.0, "time"); }
    });
    a.bound_quick = 2; a.bound_thorough = 3;
    auto& b = add("pull_times", "C16 C15 C26", [] {
        int fam = family(); int at = choose(5, "arrival"); int to = choose(4, "timeout") * 2 - 1;     // -1 1 3 5; at 0 1.5 3 4.5 never
        Pair p(fam); Connection* c = p.c; int peer = p.peer();
        int t = at == 4 ? -1 : spawn("peer", [at, peer] { sleep_s(at * 1.5); p_send(peer, wf::req(1, "in")); });
        std::string r; double due = at * 1.5;
        if (at == 4 && to < 0) { int t2 = spawn("closer", [c] { sleep_s(7); c->Disconnect(true, false); }); r = pull(c, to); EQ(r, std::string("null"), "pulled"); EQ(now_s(), 7.0, "returned at"); join(t2); return; }
        r = pull(c, to);
        if (at != 4 && (to < 0 || due < to)) { EQ(r, std::string("in#1"), "pulled"); EQ(now_s(), due, "returned at"); }
        else if (at != 4 && due == to) { SIM_CHECK(r == "in#1" || r == "null", "pulled %s", r.c_str()); EQ(now_s(), due, "returned at"); }
        else { EQ(r, std::string("null"), "pulled"); SIM_CHECK(now_s() >= to && now_s() <= to + 0.05, "returned at %g instead of %d", now_s(), to); }
        if (t >= 0) { join(t); settle(); if (r == "null") EQ(pull(c), std::string("in#1"), "pulled later"); }
        EQ(pull(c), std::string("null"), "pulled twice");
    });
    b.bound_quick = 3; b.bound_thorough = 4;
    auto& d = add("pull_concurrent", "C16 C25", [] {
        int fam = family(); int n = choose(3, "requests"); int how = choose(3, "end");
        Pair p(fam); Connection* c = p.c; int peer = p.peer(); auto got = new std::vector<std::string>;
        std::vector<int> ts; 
        for (int i = 0; i < 2; i++) ts.push_back(spawn("puller", [c, got] { for (;;) { std::string r = pull(c, -1); if (r == "null") break; Host h; got->push_back(r); } }));
        std::string in; std::vector<std::string> exp; for (int i = 0; i < n; i++) { in += wf::req(i + 1, "in"); exp.push_back("in#" + std::to_string(i + 1)); }
        p_send(peer, in);
        if (how == 0) p_close(peer); else { wait_until([got, n] { return (int)got->size() == n; }, "all to be pulled"); c->Disconnect(how == 1, false); }
        for (int t : ts) join(t);
        EQ(now_s(), 0.0, "time");
        same_set(*got, exp, "pulled"); delete got;
        EQ(pull(c, -1), std::string("null"), "pulled at the end");
    });
    d.bound_quick = 2; d.bound_thorough = 3;
    // a bounded wait of one does not delay the other, one arrival wakes the right ones
    auto& d2 = add("pull_two_timeouts", "C16", [] {
        int at = choose(3, "arrival");     // 0 1 3
        static const double AT[] = {0, 1, 3};
        Pair p(UNIX); Connection* c = p.c; int peer = p.peer();
        auto got = new std::vector<std::string>;
        int t = spawn("bounded", [c, got] { std::string r = pull(c, 2); if (r == "null") EQ(now_s(), 2.0, "Pull(2) returned at"); Host h; got->push_back(r); });
        int u = spawn("peer", [peer, at] { sleep_s(AT[at]); p_send(peer, wf::req(1, "one")); sleep_s(3 - AT[at] + 1); p_send(peer, wf::req(2, "two")); });
        std::string r = pull(c, -1); double w = now_s();
        join(t); EQ(now_s() <= 4.0, true, "time"); join(u); settle();
        if ((*got)[0] == "null") { EQ(r, std::string("one#1"), "pulled"); EQ(w, AT[at], "returned at"); EQ(pull(c, 0), std::string("two#2"), "left"); }
        else { EQ(w <= 4.0, true, "returned at"); same_set({r, (*got)[0]}, {"one#1", "two#2"}, "pulled"); }
        delete got;
    });
    d2.bound_quick = 3; d2.bound_thorough = 4;
    auto& e = add("pull_vs_end", "C16 C15", [] {
        int fam = family(); int how = choose(4, "end"); int to = choose(2, "timeout") ? -1 : 30; bool data = choose(2, "data");
        Pair p(fam); Connection* c = p.c; int peer = p.peer(); if (how == 3) c->SetTheirNaIntervalLimit(2);
        int t = spawn("end", [=] { if (data) p_send(peer, wf::req(1, "in")); if (how == 0) c->Disconnect(true, false); else if (how == 1) c->Disconnect(false, false); else if (how == 2) p_close(peer); });
        double end = how == 3 ? 2.0 : 0.0;
        std::string r = pull(c, to);
        if (r != "null") { EQ(r, std::string("in#1"), "pulled"); EQ(now_s(), 0.0, "time"); r = pull(c, to); }
        EQ(r, std::string("null"), "pulled at the end"); EQ(now_s(), end, "returned at");
        join(t); EQ(c->WaitForStop(5), true, "stopped"); EQ(now_s(), end, "stopped at");
        if (data && how == 2) EQ(pull(c, -1), std::string("null"), "pulled twice");
    });
    e.bound_quick = 3; e.bound_thorough = 4;
    // what was not pulled is still there after the end, and gone with the next connection
    auto& f = add("pull_reconnect", "C16 C23 C24 C10 C15", [] {
        int fam = family(); int how = choose(3, "end"); int n = choose(3, "pulled between");
        int l = p_listen(fam, fam == TCP ? "127.0.0.1" : "/s", 5000); Client* c = new Client();
        auto conn = [&] { return fam == TCP ? c->ConnectTcp("127.0.0.1", 5000, 5) : c->ConnectUnix("/s", 5); };
        EQ(conn(), true, "connected"); int s = p_accept(l);
        p_send(s, wf::req(2, "a") + wf::req(4, "b") + wf::req(6, "part").substr(0, 5)); settle();
        if (how == 0) c->Disconnect(true, true); else if (how == 1) c->Disconnect(false, true); else { p_close(s); EQ(c->WaitForStop(2), true, "stopped"); }
        for (int i = 0; i < n; i++) EQ(pull(c, -1), std::string(i ? "b#4" : "a#2"), "pulled between");
        EQ(conn(), true, "connected again"); int s2 = p_accept(l);
        EQ(pull(c), std::string("null"), "pulled on the new connection");
        p_send(s2, wf::req(8, "new")); EQ(pull(c, -1), std::string("new#8"), "pulled on the new connection"); EQ(pull(c, 1), std::string("null"), "pulled on the new connection");
        EQ(now_s(), 1.0, "time");
        delete c; p_close(l);
    });
    f.bound_quick = 2; f.bound_thorough = 3;
    // ---------------------------------------------------------------- C17
    auto& g = add("dispatch_table", "C17 C16 C10", [] {
        int fam = family(); bool na = choose(2, "handler of a"), ne = choose(2, "handler of the empty name"), def = choose(2, "default handler"), ka = choose(2, "handler of keep-alives"), rem = choose(2, "removed again");
        Pair p(fam); X = p.c; Connection* c = p.c;
        auto h = [](Connection* k, Request* r) { EQ(k == X, true, "the connection it arrived on"); mark("A " + show(r)); delete r; };
        auto hd = [](Connection* k, Request* r) { EQ(k == X, true, "the connection it arrived on"); mark("D " + show(r)); delete r; };
        if (na) c->SetHandlerNamed("a", h); if (ne) c->SetHandlerNamed("", h); if (def) c->SetHandlerDefault(hd); if (ka) c->SetHandlerNamed("_", h);
        if (rem) { c->SetHandlerNamed("b", h); c->SetHandlerNamed("b", nullptr); c->SetHandlerNamed("zz", nullptr); if (!def) { c->SetHandlerDefault(hd); c->SetHandlerDefault(nullptr); } if (na) { c->SetHandlerNamed("a", nullptr); na = false; } }
        EQ(c->GetHandlerNamed("a") == (na ? (RequestHandler)h : nullptr), true, "GetHandlerNamed"); EQ(c->GetHandlerDefault() == (def ? (RequestHandler)hd : nullptr), true, "GetHandlerDefault");
        std::string in, eh, eq; int id = 1;
        for (const std::string& n : NAMES) for (int k = 0; k < 2; k++) {
            in += wf::req(id, n) + (id % 4 == 1 ? wf::req(id, "_") : wf::req(id, "_", {{"k", wf::vstr("v")}})); std::string sh = n + "#" + std::to_string(id); id += 2;
            bool named = (na && n == "a") || (ne && n.empty());
            if (named) eh += (eh.empty() ? "" : ",") + ("A " + sh); else if (def) eh += (eh.empty() ? "" : ",") + ("D " + sh); else eq += (eq.empty() ? "" : ",") + sh;
        }
        p.recv_from_peer(in); settle();
        EQ(join_s(history()), eh, "handled");
        std::vector<std::string> q; for (;;) { std::string r = pull(c); if (r == "null") break; q.push_back(r); }
        EQ(join_s(q), eq, "pulled");
    });
    g.bound_quick = 1; g.bound_thorough = 2;
    // handlers for names that differ in little
    auto& gn = add("dispatch_names", "C17 C10 C11", [] {
        int fam = family(); int k = choose((int)(sizeof NAMES / sizeof *NAMES), "the name that has a handler"); int k2 = choose((int)(sizeof NAMES / sizeof *NAMES), "another one"); bool rem = choose(2, "the second one is removed");
        Pair p(fam); Connection* c = p.c; c->SetHandlerNamed(NAMES[k2], h_b); c->SetHandlerNamed(NAMES[k], h_a); if (rem) c->SetHandlerNamed(NAMES[k2], nullptr);
        std::string in; std::vector<std::string> eh, eq; int id = 1;
        for (auto& n : NAMES) { in += wf::req(id, n); std::string sh = n + "#" + std::to_string(id++); if (n == NAMES[k2] && (rem || k != k2)) { if (rem) eq.push_back(sh); else eh.push_back("B " + sh); } else if (n == NAMES[k]) eh.push_back("A " + sh); else eq.push_back(sh); 
            EQ(c->GetHandlerNamed(n) == (n == NAMES[k2] && rem ? nullptr : n == NAMES[k] ? (RequestHandler)h_a : n == NAMES[k2] ? (RequestHandler)h_b : nullptr), true, "GetHandlerNamed"); }
        p.recv_from_peer(in); settle(); EQ(join_s(history()), join_s(eh), "handled");
        std::vector<std::string> q; for (;;) { std::string r = pull(c); if (r == "null") break; q.push_back(r); }
        EQ(join_s(q), join_s(eq), "pulled");
    });
    gn.bound_quick = 1; gn.bound_thorough = 2;
    // handlers stay over the end of a connection, whatever it was, and may be changed between two of them
    auto& gr = add("dispatch_reconnect", "C17 C23 C29 C21", [] {
        int fam = family(), how = choose(4, "end"), change = choose(4, "changed between"); int l = p_listen(fam, fam == TCP ? "127.0.0.1" : "/s", 5000); Client* c = new Client();
        c->SetHandlerNamed("a", h_a); c->SetHandlerNamed("b", h_b); c->SetHandlerDefault(h_default); std::string e; RequestHandler a = h_a, b = h_b, d = h_default;
        for (int i = 0; i < 3; i++) {
            EQ(fam == TCP ? c->ConnectTcp("127.0.0.1", 5000, 5) : c->ConnectUnix("/s", 5), true, "connected"); int s = p_accept(l);
            p_send(s, wf::req(2, "a") + wf::req(4, "c") + wf::req(6, "b") + wf::req(8, "a").substr(0, 5)); settle();
            auto one = [&](RequestHandler h, const char* r) { if (!h) h = d; if (h) { if (!e.empty()) e += ","; e += std::string(h == h_a ? "A " : h == h_b ? "B " : "D ") + r; } else EQ(pull(c), std::string(r), "pulled"); };
            one(a, "a#2"); one(nullptr, "c#4"); one(b, "b#6"); EQ(join_s(history()), e, "handled"); EQ(pull(c), std::string("null"), "pulled");
            if (how == 0) c->Disconnect(true, true); else if (how == 1) c->Disconnect(false, true); else if (how == 2) { p_close(s); EQ(c->WaitForStop(2), true, "stopped"); } else { p_send(s, "\xff\xff\xff\xff\xff\xff\xff"); p_close(s); EQ(c->WaitForStop(2), true, "stopped"); }
            EQ(join_s(history()), e, "handled");
            if (change == 1) c->SetHandlerNamed("a", a = i ? h_a : h_b); if (change == 2) c->SetHandlerNamed("b", b = nullptr); if (change == 3) c->SetHandlerDefault(d = nullptr);
        }
        EQ(now_s(), 0.0, "time"); delete c; p_close(l);
    });
    gr.bound_quick = 1; gr.bound_thorough = 2; gr.delay = true;
    // handlers are changed while requests arrive
    auto& g2 = add("dispatch_change", "C17 C16 C25", [] {
        int what = choose(5, "change");
        Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        if (what == 1 || what == 4) c->SetHandlerDefault(h_a); if (what == 2) c->SetHandlerNamed("in", h_a); if (what == 3) { c->SetHandlerDefault(h_b); c->SetHandlerNamed("in", h_a); }
        int t = spawn("peer", [peer] { for (int i = 0; i < 3; i++) p_send(peer, wf::req(i, "in")); });
        std::string first = what == 0 ? "" : "A ", second = what == 1 ? "" : "B ";
        if (what == 0) c->SetHandlerNamed("in", h_b); if (what == 1) c->SetHandlerDefault(nullptr); if (what == 2) c->SetHandlerNamed("in", h_b); if (what == 3) c->SetHandlerNamed("in", nullptr); if (what == 4) c->SetHandlerNamed("in", h_b);
        join(t); settle();
        std::vector<std::string> q; for (;;) { std::string r = pull(c); if (r == "null") break; q.push_back(r); }
        std::vector<std::string> all = history(); for (auto& s : all) if (s == "") abort();
        // an initial part went to the first destination, the rest to the second
        std::string seq; std::vector<std::string> f1 = first.empty() ? q : marks_with(first), f2 = second.empty() ? q : marks_with(second);
        EQ(f1.size() + f2.size(), (size_t)3, "delivered");
        for (int i = 0; i < 3; i++) { std::string e = (i < (int)f1.size() ? first : second) + "in#" + std::to_string(i); std::string got = i < (int)f1.size() ? f1[i] : f2[i - f1.size()]; EQ(got, e, "delivered"); }
        p_send(peer, wf::req(9, "in")); settle();
        if (second.empty()) EQ(pull(c), std::string("in#9"), "after the change"); else EQ(history().back(), second + "in#9", "after the change");
        outcome(std::to_string(f1.size()));
    });
    g2.bound_quick = 3; g2.bound_thorough = 4;
    auto& g3 = add("dispatch_self_change", "C17", [] {
        int fam = family(); int what = choose(3, "change");
        Pair p(fam); Connection* c = p.c;
        static int w; w = what;
        c->SetHandlerDefault(h_default);
        c->SetHandlerNamed("a", [](Connection* k, Request* r) {
            mark("first " + show(r)); delete r;
            if (w == 0) k->SetHandlerNamed("a", nullptr); else if (w == 1) k->SetHandlerNamed("a", h_b); else { k->SetHandlerDefault(nullptr); k->SetHandlerNamed("a", nullptr); }
        });
        p.recv_from_peer(wf::req(1, "a") + wf::req(3, "a") + wf::req(5, "b")); settle();
        EQ(join_s(history()), std::string(w == 0 ? "first a#1,D a#3,D b#5" : w == 1 ? "first a#1,B a#3,D b#5" : "first a#1"), "handled");
        if (w == 2) { EQ(pull(c), std::string("a#3"), "pulled"); EQ(pull(c), std::string("b#5"), "pulled"); }
        EQ(pull(c), std::string("null"), "pulled");
    });
    g3.bound_quick = 3; g3.bound_thorough = 4;
    // one at a time and in order, the handler takes long; the request is the handler's
    auto& g4 = add("dispatch_serial", "C17 C12 C13 C28 C16 C10 C14", [] {
        int fam = family(); Pair p(fam); Connection* c = p.c; X = c; int peer = p.peer();
        c->SetHandlerDefault([](Connection* k, Request* r) { mark("in " + show(r)); pause_point(); k->Push(mk("re", -1, r->GetId()), false, 0, false); pause_point(); mark("out " + show(r)); delete r; });
        int t = spawn("peer", [peer] { p_send(peer, wf::req(1, "x")); p_send(peer, wf::req(3, "y") + wf::req(5, "z")); });
        c->Push(mk("other"), false);
        join(t); settle();
        EQ(join_s(history()), std::string("in x#1,out x#1,in y#3,out y#3,in z#5,out z#5"), "handled");
        std::string o = names_of(p.out()), ids; for (auto& m : wf::payload(p.out())) if (m.name == "re") ids += std::to_string(m.id) + " ";
        EQ(ids, std::string("1 3 5 "), "answers"); EQ(wf::payload(p.out()).size(), (size_t)4, "sent");
    });
    g4.bound_quick = 3; g4.bound_thorough = 4;
    // two connections share handlers
    auto& g5 = add("dispatch_two", "C17 C25 C10 C13", [] {
        Pair p(TCP), q(UNIX); X = p.c; Y = q.c;
        auto h = [](Connection* k, Request* r) { mark(std::string(k == X ? "X " : k == Y ? "Y " : "? ") + show(r)); delete r; };
        X->SetHandlerDefault(h); Y->SetHandlerDefault(h);
        p.recv_from_peer(wf::req(1, "p") + wf::req(3, "p")); q.recv_from_peer(wf::req(1, "q") + wf::req(3, "q")); settle();
        EQ(join_s(marks_with("X ")), std::string("X p#1,X p#3"), "handled"); EQ(join_s(marks_with("Y ")), std::string("Y q#1,Y q#3"), "handled"); EQ(history().size(), (size_t)4, "handled");
        EQ(pull(X), std::string("null"), "pulled");
    });
    g5.bound_quick = 2; g5.bound_thorough = 3;
    // ---------------------------------------------------------------- C27
    auto& h = add("ask", "C27 C12 C13 C16 C17 C10 C14 C28", [] {
        int fam = family(); int to = choose(3, "timeout") * 3 - 3;    // -3 0 3
        int at = choose(4, "answer after"); static const double AT[] = {0, 2, 4, -1}; bool hnd = choose(2, "handler set"); int kind = choose(3, "how it is pushed");
        Pair p(fam); Connection* c = p.c; int peer = p.peer(); if (hnd) c->SetHandlerDefault(h_default);
        int t = spawn("peer", [=] {
            std::string q = p_recv_exact(peer, wf::req(2, "ask").size()); uint32_t id = wf::rd(q, 4, 4);
            p_send(peer, wf::req(id + 1, "other") + wf::req(id, "_"));
            if (AT[at] < 0) return;
            sleep_s(AT[at]); p_send(peer, mkw("answer", 3, id) + wf::req(id + 3, "more"));
        });
        double t0 = now_s(); Request* r; Request orig("ask"); orig.SetId(77);
        if (at == 3 && to < 0) { int t2 = spawn("closer", [c] { sleep_s(6); c->Disconnect(true, false); });
            r = kind == 0 ? c->Push(mk("ask"), false, to) : kind == 1 ? c->Push(&orig, true, to) : c->Push(orig, to); EQ(show(r), std::string("null"), "returned"); EQ(now_s(), 6.0, "returned at"); join(t2); join(t); return; }
        r = kind == 0 ? c->Push(mk("ask"), false, to) : kind == 1 ? c->Push(&orig, true, to) : c->Push(orig, to);
        double w = now_s() - t0; bool answered = AT[at] >= 0 && (to < 0 || AT[at] < to);
        std::string got = show(r);
        if (to == 0) { EQ(got, std::string("null"), "returned"); EQ(w, 0.0, "returned after"); answered = false; }
        else if (answered) { EQ(got, std::string("answer#2"), "returned"); EQ(w, AT[at], "returned after"); EQ(enc(r) == mkw("answer", 3, 2), true, "contents"); }
        else { EQ(got, std::string("null"), "returned"); SIM_CHECK(w >= to && w <= to + 0.05, "returned after %g instead of %d", w, to); }
        delete r;
        if (kind) EQ(orig.GetId(), 77u, "id of the original");
        join(t); settle();
        std::vector<std::string> exp = {"other#3"}; if (AT[at] >= 0) { if (!answered) exp.push_back("answer#2"); exp.push_back("more#5"); }
        if (hnd) { for (auto& x : exp) x = "D " + x; EQ(join_s(history()), join_s(exp), "handled"); }
        else for (auto& x : exp) EQ(pull(c), x, "pulled");
        EQ(pull(c), std::string("null"), "pulled");
        EQ(names_of(p.out()), std::string("ask"), "sent");
    });
    h.bound_quick = 1; h.bound_thorough = 2;
    auto& h2 = add("ask_concurrent", "C27 C13 C25", [] {
        int order = choose(3, "answers"); Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        int t = spawn("peer", [=] {
            std::string q = p_recv_exact(peer, 2 * wf::req(2, "a").size()); auto v = wf::payload(q);
            std::string x = wf::req(v[0].id, "re " + v[0].name), y = wf::req(v[1].id, "re " + v[1].name);
            if (order == 0) p_send(peer, x + y); else if (order == 1) p_send(peer, y + x); else { p_send(peer, x); p_close(peer); }
        });
        int u = spawn("other", [=] { Request* r = c->Push(mk("b"), false, order == 2 ? 9 : -1); mark("b " + show(r)); delete r; });
        Request* r = c->Push(mk("a"), false, -1); mark("a " + show(r)); delete r;
        join(u); join(t); EQ(now_s(), 0.0, "time");
        std::string a = marks_with("a ")[0], b = marks_with("b ")[0];
        if (order < 2) { SIM_CHECK((a == "a re a#2" && b == "b re b#4") || (a == "a re a#4" && b == "b re b#2"), "returned '%s' and '%s'", a.c_str(), b.c_str()); }
        else SIM_CHECK((a.substr(0, 7) == "a re a#" && b == "b null") || (b.substr(0, 7) == "b re b#" && a == "a null"), "returned '%s' and '%s'", a.c_str(), b.c_str());
        EQ(pull(c), std::string("null"), "pulled");
    });
    h2.bound_quick = 2; h2.bound_thorough = 3;
    // other traffic - requests, answers to others, keep-alives, what a handler takes - does not prolong the wait
    auto& hz = add("ask_other_traffic", "C27 C16 C17", [] {
        int what = choose(5, "traffic"); int to = 1 + choose(2, "timeout"); int hnd = choose(2, "handler set");
        Pair p(family()); Connection* c = p.c; int peer = p.peer(); if (hnd) c->SetHandlerDefault(h_default);
        auto other = [=](uint32_t id, double at) { return spawn("other", [=] { Request* r = c->Push(mk("q", -1, id), false, 3, false); EQ(show(r), "re#" + std::to_string(id), "the other answer"); delete r; EQ(now_s(), at, "at"); }); };
        int u = what == 1 ? other(1001, 0.3) : -1, v = what == 1 ? other(1003, 0.6) : -1; settle();
        int t = spawn("peer", [=] {
            for (int i = 0; i < 9; i++) {
                sleep_s(0.3);
                if (what == 0) p_send(peer, wf::req(1, "in")); if (what == 1) p_send(peer, wf::req(1001 + 2 * i, "re")); if (what == 2) p_send(peer, wf::req(2, "_"));
                if (what == 3) p_send(peer, i ? "x" : wf::le(40, 4)); if (what == 4) c->Push(mk("out"), false);
            }
            if (what != 3) p_send(peer, wf::req(2, "late"));
        });
        Request* r = c->Push(mk("ask"), false, to); EQ(show(r), std::string("null"), "returned"); EQ(now_s(), (double)to, "returned at");
        join(t); if (u >= 0) { join(u); join(v); } settle();
        int n = (int)marks_with("D ").size(); bool late = marked("D late#2"); while (Request* x = c->Pull(0)) { n++; late |= show(x) == "late#2"; delete x; }
        EQ(n, what == 0 ? 10 : what == 1 ? 8 : what == 3 ? 0 : 1, "other requests"); EQ(late, what != 3, "the late answer is an ordinary request");
    });
    hz.bound_quick = 1; hz.bound_thorough = 2; hz.delay = true;
    // the answer follows at once, the same id comes twice
    auto& h3 = add("ask_race", "C27 C16 C15 C10 C24 C17", [] {
        int fam = family(); int how = choose(4, "then"); bool keep = choose(2, "keeps its id");
        Pair p(fam); Connection* c = p.c; int peer = p.peer(); uint32_t id = keep ? 1001 : 2;
        int t = spawn("peer", [=] {
            if (how == 3) { p_close(peer); return; }
            std::string q = p_recv(peer); p_send(peer, wf::req(id, "answer")); if (how == 1) p_send(peer, wf::req(id, "again")); if (how == 2) p_close(peer); });
        Request* r = c->Push(mk("ask", -1, 1001), false, 5, !keep); std::string g = show(r); delete r;
        EQ(now_s(), 0.0, "time"); std::string ids = "#" + std::to_string(id);
        if (how == 3) EQ(g, std::string("null"), "returned"); else EQ(g, "answer" + ids, "returned");
        join(t); settle();
        if (how == 1) EQ(pull(c), "again" + ids, "pulled"); EQ(pull(c), std::string("null"), "pulled");
    });
    h3.bound_quick = 3; h3.bound_thorough = 4;
    // a message with the same id came before the question was asked: it is not the answer
    auto& h8 = add("ask_late", "C27 C16 C17", [] {
        int fam = family(); int how = choose(4, "then"); bool keep = choose(2, "keeps its id"), two = choose(2, "asked twice"); uint32_t id = keep ? 1001 : 2; std::string ids = "#" + std::to_string(id);
        Pair p(fam); Connection* c = p.c; int peer = p.peer(); p_send(peer, wf::req(7, "first") + wf::req(id, "early")); if (choose(2, "arrived")) settle(); else { EQ(pull(c, -1), std::string("first#7"), "pulled"); settle(); }
        int t = spawn("peer", [=] { if (how == 3) { p_close(peer); return; } std::string q = p_recv(peer); if (how == 0) p_send(peer, wf::req(id, "answer")); if (how == 1) p_close(peer); });
        auto ask = [=](bool answered) { Request* r = c->Push(mk("ask", -1, 1001), false, 1, !keep); EQ(show(r), answered ? "answer" + ids : std::string("null"), "returned"); delete r; };
        ask(how == 0); EQ(now_s(), how == 2 ? 1.0 : 0.0, "time"); join(t); if (two && keep) ask(false);
        settle(); std::string g = pull(c); if (g == "first#7") g = pull(c); EQ(g, "early" + ids, "pulled"); EQ(pull(c), std::string("null"), "pulled");
    });
    h8.bound_quick = 1; h8.bound_thorough = 3; h8.delay = true;
    // two wait for an answer to the same id: each answer goes to one of them, the oldest first, later ones are ordinary messages
    auto& h7 = add("ask_same_id", "C27 C16 C15", [] {
        int apart = choose(3, "answers apart"); int third = choose(3, "a third answer"); Pair p(family()); Connection* c = p.c; int peer = p.peer();
        if (third == 2) c->SetHandlerDefault(h_default);
        auto asker = [=](std::string q, std::string expected) { return spawn(q.c_str(), [=] { Request* r = c->Push(mk(q, -1, 1001), false, 9, false); EQ(show(r), expected, q.c_str()); delete r; EQ(now_s(), 0.0, "answered at"); }); };
        int a = asker("first", "one#1001"); settle(); int b = asker("second", "two#1001"); settle();
        std::string m1 = wf::req(1001, "one"), m2 = wf::req(1001, "two"), m3 = third ? wf::req(1001, "three") : "";
        if (apart == 0) p_send(peer, m1 + m2 + m3); if (apart == 1) { p_send(peer, m1); p_send(peer, m2 + m3); } if (apart == 2) { p_send(peer, m1); join(a); a = -1; p_send(peer, m2 + m3); }
        if (a >= 0) join(a); join(b); settle();
        EQ(join_s(marks_with("D ")), std::string(third == 2 ? "D three#1001" : ""), "handled");
        EQ(pull(c), std::string(third == 1 ? "three#1001" : "null"), "pulled"); EQ(pull(c), std::string("null"), "pulled");
    });
    h7.bound_quick = 1; h7.bound_thorough = 3;
    // a Push that waits for its answer is not disturbed by Pull and the other way round
    auto& h4 = add("ask_and_pull", "C27 C16 C17", [] {
        int fam = family(); Pair p(fam); Connection* c = p.c; int peer = p.peer();
        int t = spawn("peer", [=] { p_recv(peer); p_send(peer, wf::req(1, "in")); p_send(peer, wf::req(2, "answer")); });
        int u = spawn("puller", [=] { EQ(pull(c, -1), std::string("in#1"), "pulled"); EQ(pull(c, 2), std::string("null"), "pulled"); EQ(now_s(), 2.0, "time"); });
        Request* r = c->Push(mk("ask"), false, 4); EQ(show(r), std::string("answer#2"), "returned"); EQ(now_s(), 0.0, "time"); delete r;
        join(t); join(u);
    });
    h4.bound_quick = 2; h4.bound_thorough = 4;
    // several wait for different things: what arrives wakes the right one, whoever waited first
    auto& h6 = add("ask_and_pull_waiting", "C27 C16 C15 C17", [] {
        int order = choose(3, "who waits first"); int what = choose(4, "what arrives"); Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        auto puller = [=] { EQ(pull(c, what == 3 ? 9 : -1), std::string(what == 3 ? "null" : "in#1"), "pulled"); EQ(now_s(), what == 3 ? 9.0 : 0.0, "pulled at"); mark("pulled"); };
        auto asker = [=] { Request* r = c->Push(mk("ask"), false, 7); EQ(show(r), std::string(what == 1 ? "null" : "answer#2"), "answer"); delete r; EQ(now_s(), what == 1 ? 7.0 : 0.0, "answered at"); };
        auto other = [=] { Request* r = c->Push(mk("other", -1, 1000), false, 6, false); EQ(show(r), std::string("null"), "the other answer"); EQ(now_s(), 6.0, "at"); };
        std::vector<int> ts; int k = 0;
        for (int i = 0; i < 3; i++) { int w = (i + order) % 3; settle(); if (w == 0) ts.push_back(spawn("puller", puller)); if (w == 1) { ts.push_back(spawn("asker", asker)); } if (w == 2) ts.push_back(spawn("other", other)); k++; }
        settle();
        if (what != 3) p_send(peer, wf::req(1, "in")); if (what != 1) p_send(peer, wf::req(2, "answer")); if (what == 2) { settle(); c->Push(mk("x"), false); }
        for (int t : ts) join(t); EQ(pull(c), std::string("null"), "pulled");
    });
    h6.bound_quick = 2; h6.bound_thorough = 3; h6.delay = true;
    auto& h5 = add("ask_reconnect", "C27 C23 C13 C15 C16", [] {
        int l = p_listen(TCP, "127.0.0.1", 5000); Client* c = new Client(); EQ(show(c->Push(mk("q"), false, 3)), std::string("null"), "before"); EQ(now_s(), 0.0, "time");
        for (int i = 0; i < 2; i++) {
            EQ(c->ConnectTcp("127.0.0.1", 5000, 5), true, "connected"); int s = p_accept(l);
            int t = spawn("peer", [=] { std::string q = p_recv_exact(s, wf::req(1, "ask").size()); p_send(s, wf::req(wf::rd(q, 4, 4), "answer")); });
            Request* r = c->Push(mk("ask"), false, 5); EQ(show(r), std::string("answer#1"), "returned"); delete r; join(t);
            EQ(show(c->Push(mk("ask"), false, 1)), std::string("null"), "returned"); EQ(now_s(), (double)(i + 1), "time");
            int u = spawn("asker", [=] { EQ(show(c->Push(mk("ask"), false, 50)), std::string("null"), "returned at the end"); mark("returned"); }); settle();
            if (i) p_close(s); else c->Disconnect(true, true);
            join(u); EQ(c->WaitForStop(3), true, "stopped"); EQ(now_s(), (double)(i + 1), "time");
        }
        delete c; p_close(l);
    });
    h5.bound_quick = 2; h5.bound_thorough = 3;
    return 0;
}();
