// C18, C19: keep-alives and silence limits.
#include "scen.hpp"
#include <algorithm>

static const double TOL = 0.05;
struct KA { double t; };
// times at which the (complete) keep-alives on the wire of fd were begun
static std::vector<double> ka_times(int fd) {
    std::string w = wire(fd); auto wt = wire_times(fd); std::vector<double> r; size_t i = 0;
    while (i + 10 <= w.size()) {
        size_t n = wf::rd(w, i, 4); if (n < 10 || i + n > w.size()) break;
        if (w.substr(i + 10, wf::rd(w, i + 8, 2)) == "_") for (auto& x : wt) if (x.second > i) { r.push_back(x.first / 1e9); break; }
        i += n;
    }
    return r;
}
static std::string list(const std::vector<double>& v) { std::string s; for (double d : v) { char b[32]; snprintf(b, sizeof b, "%s%g", s.empty() ? "" : " ", d); s += b; } return s; }
static void expect_times(const std::vector<double>& got, const std::vector<double>& exp, const char* what) {
    bool ok = got.size() == exp.size(); for (size_t i = 0; ok && i < got.size(); i++) ok = got[i] >= exp[i] - 1e-9 && got[i] <= exp[i] + TOL;
    SIM_CHECK(ok, "%s at %s instead of %s", what, list(got).c_str(), list(exp).c_str());
}
// nothing is transmitted for longer than the interval, and keep-alives only come when that is due
static void check_gaps(int fd, double from, double to, double interval, const char* what) {
    double last = from; auto wt = wire_times(fd);
    for (auto& x : wt) { double t = x.first / 1e9; if (t < from || t > to) continue; SIM_CHECK(t - last <= interval + TOL, "%s: nothing was transmitted from %g to %g (interval %g)", what, last, t, interval); last = t; }
    SIM_CHECK(to - last <= interval + TOL, "%s: nothing was transmitted from %g to %g (interval %g)", what, last, to, interval);
    auto ka = ka_times(fd);
    for (double t : ka) if (t > from + 1e-6 && t <= to) { double prev = from; for (auto& x : wt) if (x.first / 1e9 < t - 1e-9) prev = std::max(prev, x.first / 1e9); SIM_CHECK(t - prev >= interval - 1e-6, "%s: keep-alive at %g although something was transmitted at %g (interval %g)", what, t, prev, interval); }
}
static void advance_to(double t) { if (t > now_s()) sleep_s(t - now_s()); settle(); }

static int reg = [] {
    auto& a = add("idle", "C18 C19 C17 C15 C13 C14", [] {
        int fam = family(); int s = std::vector<int>{1, 2, 10}[choose(3, "interval")]; int set = choose(3, "set when");
        Pair p(fam); Connection* c = p.c; c->SetTheirNaIntervalLimit(100000);
        EQ((int)c->GetOurSaInterval(), 10, "default interval");
        double t0 = 0;
        if (set == 1) { advance_to(0.5); t0 = 0.5; } if (set == 2) { advance_to(10); t0 = 10; }
        if (s != 10 || set) c->SetOurSaInterval(s); EQ((int)c->GetOurSaInterval(), s, "interval");
        advance_to(t0 + 5 * s + s * 0.5);
        check_gaps(p.mine(), t0, now_s(), s, "idle");
        EQ(ka_times(p.mine()).size(), (size_t)(5 + (set == 2)), "keep-alives");
        EQ(no_ka(p.out()), std::string(), "sent"); EQ(c->IsConnected(), true, "connected");
    });
    a.bound_quick = 2; a.bound_thorough = 3;
    auto& b = add("sending_postpones", "C18 C12 C14", [] {
        int fam = family(); double at = std::vector<double>{0.5, 1.5, 1.9999, 2, 2.5}[choose(5, "push at")]; int n = 1 + choose(2, "pushes");
        Pair p(fam); Connection* c = p.c; c->SetOurSaInterval(2); c->SetTheirNaIntervalLimit(1000);
        double t = 0; for (int i = 0; i < n; i++) { t = at * (i + 1); advance_to(t); c->Push(mk("out"), false); }
        advance_to(t + 4.5);
        check_gaps(p.mine(), 0, now_s(), 2, "sending");
        auto k = ka_times(p.mine()); std::vector<double> tail; for (double x : k) if (x > t + 1e-6) tail.push_back(x);
        if (at != 2) expect_times(tail, {t + 2, t + 4}, "keep-alives after the last push");
        EQ((int)wf::payload(p.out()).size(), n, "sent");
    });
    b.bound_quick = 3; b.bound_thorough = 4;
    // the same with everything that moves bytes in small portions
    auto& b2 = add("sending_slowly", "C18 C19 C28 C12", [] {
        int fam = family();
        Pair p(fam, 4); Connection* c = p.c; c->SetOurSaInterval(2); c->SetTheirNaIntervalLimit(1000); int peer = p.peer();
        c->Push(mk("out"), false);       // 13 bytes through a window of 4, read every 1.5 seconds
        int t = spawn("peer", [peer] { for (int i = 0; i < 10; i++) { sleep_s(1.5); p_recv(peer, 4); } });
        advance_to(14.9);
        check_gaps(p.mine(), 0, 14, 2, "slow peer");
        std::string w = p.out(); EQ(w.substr(0, wf::req(2, "out").size()), wf::req(2, "out").substr(0, w.size()), "sent first");
        std::string rest; wf::payload(w, &rest); EQ(wf::payload(w).size(), (size_t)1, "sent"); join(t);
    });
    b2.bound_quick = 2; b2.bound_thorough = 3;
    auto& d = add("interval_change", "C18 C25 C15", [] {
        int to = choose(4, "new interval"); static const int T[] = {1, 3, 6, 0}; double at = std::vector<double>{0, 1, 3.5}[choose(3, "changed at")]; bool other = choose(2, "by another thread"); int neg = choose(2, "negative");
        Pair p(UNIX); Connection* c = p.c; c->SetTheirNaIntervalLimit(1000); c->SetOurSaInterval(4);
        advance_to(at); int v = T[to] ? T[to] : neg ? -7 : 0; int s = v < 1 ? 1 : v;
        if (other) join(spawn("other", [=] { c->SetOurSaInterval(v); })); else c->SetOurSaInterval(v);
        EQ((int)c->GetOurSaInterval(), s, "interval");
        advance_to(at + 3 * s + 0.5);
        check_gaps(p.mine(), at, now_s(), s, "after the change");
        auto k = ka_times(p.mine()); SIM_CHECK(k.size() >= 3 && k.size() <= 5, "%zu keep-alives", k.size());
        for (size_t i = 1; i < k.size(); i++) SIM_CHECK(k[i] - k[i - 1] >= std::min(s, 4) - 1e-6, "keep-alives at %s", list(k).c_str());
    });
    d.bound_quick = 2; d.bound_thorough = 3;
    // two library connections with nothing to say
    auto& e = add("two_idle", "C18 C19 C15 C17 C13 C10", [] {
        int fam = family(); int k = choose(3, "intervals"); int fds[2]; pair(fam, fds);
        Connection* x = new Connection(fds[0]); Connection* y = new Connection(fds[1]); double end = 200;
        if (k == 1) { x->SetOurSaInterval(1); x->SetTheirNaIntervalLimit(2); y->SetOurSaInterval(1); y->SetTheirNaIntervalLimit(2); end = 9.5; }
        if (k == 2) { x->SetOurSaInterval(3); x->SetTheirNaIntervalLimit(2); y->SetOurSaInterval(1); y->SetTheirNaIntervalLimit(4); end = 20.5; }
        advance_to(end);
        EQ(x->IsConnected() && y->IsConnected(), true, "connected"); EQ(x->IsDisconnecting() || y->IsDisconnecting(), false, "disconnecting");
        EQ(pull(x), std::string("null"), "pulled"); EQ(pull(y), std::string("null"), "pulled");
        x->Push(mk("still"), false); EQ(pull(y, 1), std::string("still#2"), "pulled"); EQ(now_s(), end, "time");
        delete x; EQ(y->WaitForStop(1), true, "stopped"); EQ(now_s(), end, "time"); delete y;
    });
    e.bound_quick = 1; e.bound_thorough = 2;
    // kept across reconnects, set before the first one
    auto& f = add("intervals_kept", "C18 C19 C23 C15", [] {
        int fam = family(); bool before = choose(2, "set before the first connection"); int how = choose(2, "end");
        int l = p_listen(fam, fam == TCP ? "127.0.0.1" : "/s", 5000); Client* c = new Client();
        if (before) { c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(7); EQ((int)c->GetOurSaInterval(), 3, "interval"); EQ((int)c->GetTheirNaIntervalLimit(), 7, "limit"); }
        for (int i = 0; i < 3; i++) {
            EQ(fam == TCP ? c->ConnectTcp("127.0.0.1", 5000, 5) : c->ConnectUnix("/s", 5), true, "connected"); int s = p_accept(l); double t0 = now_s();
            if (!before && !i) { c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(7); }
            if (i == 1 && how) { advance_to(t0 + 1); c->Disconnect(true, true); p_close(s); c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(7); continue; }
            EQ(c->WaitForStop(100), true, "stopped"); expect_times({now_s() - t0}, {7}, "silent peer detected");
            std::vector<double> k = ka_times(connected_fds().back()), e; for (auto& x : k) x -= t0; e = {3, 6}; expect_times(k, e, "keep-alives");
            EQ((int)c->GetOurSaInterval(), 3, "interval"); EQ((int)c->GetTheirNaIntervalLimit(), 7, "limit"); p_close(s);
        }
        delete c; p_close(l);
    });
    f.bound_quick = 2; f.bound_thorough = 3;
    // ---------------------------------------------------------------- C19
    auto& g = add("silent_peer", "C19 C15 C17 C10 C14 C16 C18 C20", [] {
        int fam = family(); int lim = std::vector<int>{1, 3, 60}[choose(3, "limit")]; int state = choose(7, "state");
        Pair p(fam, 10); Connection* c = p.c; EQ((int)c->GetTheirNaIntervalLimit(), 60, "default limit");
        if (lim != 60) c->SetTheirNaIntervalLimit(lim); EQ((int)c->GetTheirNaIntervalLimit(), lim, "limit"); double t0 = 0; std::string in = mkw("in", 20, 1);
        if (state) { t0 = lim - 0.25; advance_to(t0); }
        if (state == 1) p.recv_from_peer(in.substr(0, 1)); if (state == 2) p.recv_from_peer(in.substr(0, 4)); if (state == 3) p.recv_from_peer(in.substr(0, 11));
        if (state == 4) p.recv_from_peer(wf::req(1, "_")); if (state == 5) p.recv_from_peer(in);
        if (state == 6) { p.recv_from_peer(in.substr(0, 11)); settle(); c->Push(mk("out", 60), false); c->Disconnect(false, false); }
        settle(); EQ(c->IsConnected(), true, "connected");
        advance_to(t0 + lim - 0.01); EQ(c->IsConnected(), true, "connected right before the limit"); EQ(c->WaitForStop(0), false, "stopped");
        EQ(c->WaitForStop(lim + 5), true, "stopped"); expect_times({now_s()}, {t0 + lim}, "silent peer detected");
        if (state == 5) EQ(pull(c, -1), std::string("in#1"), "pulled"); EQ(pull(c, -1), std::string("null"), "pulled");
    });
    g.bound_quick = 2; g.bound_thorough = 3;
    auto& g2 = add("lively_peer", "C19 C10 C18 C15 C11", [] {
        int fam = family(); int unit = choose(4, "sends"); double gap = std::vector<double>{0.7, 1.9, 1.999, 0.3, 0.05}[choose(5, "every")]; bool grace = choose(2, "graceful disconnect pending"); static const int U[] = {1, 3, 5, 10};
        Pair p(fam, 10); Connection* c = p.c; c->SetTheirNaIntervalLimit(2); c->SetOurSaInterval(1000); int peer = p.peer();
        std::string in; for (int i = 0; i < 6; i++) in += wf::req(1 + i, "in");
        if (grace) { c->Push(mk("out", 60), false); c->Disconnect(false, false); }
        double last = 0;
        for (int i = 0; i < 6; i++) { advance_to(gap * (i + 1)); EQ(c->IsConnected(), true, "connected"); p_send(peer, in.substr(i * U[unit], U[unit])); last = now_s(); settle(); }
        advance_to(last + 1.99); EQ(c->IsConnected(), true, "connected");
        EQ(c->WaitForStop(9), true, "stopped"); expect_times({now_s()}, {last + 2}, "silent peer detected");
    });
    g2.bound_quick = 2; g2.bound_thorough = 3;
    auto& h = add("limit_change", "C19 C25 C15 C14", [] {
        int to = choose(5, "new limit"); static const int T[] = {1, 3, 9, 0, -4}; double at = std::vector<double>{0, 1, 4.5}[choose(3, "changed at")]; bool other = choose(2, "by another thread"); bool data = choose(2, "data before"), grace = choose(2, "graceful disconnect pending");
        Pair p(TCP, 10); Connection* c = p.c; c->SetTheirNaIntervalLimit(5); c->SetOurSaInterval(1000); double last = 0;
        if (grace) { c->Push(mk("out", 60), false); c->Disconnect(false, false); }
        if (data && at) { advance_to(at / 2); p_send(p.peer(), wf::req(1, "_")); last = now_s(); settle(); }
        advance_to(at); int s = T[to] < 1 ? 1 : T[to];
        if (other) join(spawn("other", [=] { c->SetTheirNaIntervalLimit(T[to]); })); else c->SetTheirNaIntervalLimit(T[to]);
        EQ((int)c->GetTheirNaIntervalLimit(), s, "limit");
        EQ(c->WaitForStop(30), true, "stopped"); double t = now_s();
        SIM_CHECK(t >= std::min(at, last + 5) - 1e-6 && t >= last + s - 1e-6 && t <= std::max(at, last) + s + TOL, "closed at %g (last data at %g, limit %d set at %g)", t, last, s, at);
    });
    h.bound_quick = 2; h.bound_thorough = 3;
    // everything at the same time: timers that expire while bytes come and go never stall or break the connection
    auto& i = add("timer_coincidence", "C18 C19 C10 C12 C28 C15 C14 C16", [] {
        int fam = family(); int what = choose(3, "traffic");
        Pair p(fam); Connection* c = p.c; c->SetOurSaInterval(2); c->SetTheirNaIntervalLimit(what == 0 ? 100 : 2); int peer = p.peer();
        int t = spawn("peer", [=] { sleep_s(2); p_send(peer, wf::req(1, "in")); });
        int u = what == 2 ? -1 : spawn("pusher", [=] { sleep_s(2); c->Push(mk("out"), false); });
        sleep_s(2); join(t); if (u >= 0) join(u); settle(); EQ(now_s(), 2.0, "time");
        if (what == 0) {
            EQ(c->IsConnected(), true, "connected"); EQ(pull(c), std::string("in#1"), "pulled"); EQ(names_of(p.out()), std::string("out"), "sent");
            advance_to(7); check_gaps(p.mine(), 2, 7, 2, "afterwards"); EQ(c->IsConnected(), true, "connected"); c->Push(mk("out2"), false); settle(); EQ(names_of(p.out()), std::string("out out2"), "sent");
        } else {
            bool alive = c->IsConnected(); outcome(alive ? "alive" : "closed");
            if (alive) { EQ(pull(c), std::string("in#1"), "pulled"); EQ(c->WaitForStop(10), true, "stopped"); expect_times({now_s()}, {4}, "silent peer detected"); }
            else { EQ(c->WaitForStop(0), true, "stopped"); EQ(now_s(), 2.0, "stopped at"); std::string r = pull(c, -1); SIM_CHECK(r == "null" || r == "in#1", "pulled %s", r.c_str()); }
        }
    });
    i.bound_quick = 2; i.bound_thorough = 3;
    // threads may be slow: timers expire at any moment
    auto& j = add("timers_any_time", "C18 C19 C10 C12 C15 C28 C14 C16", [] {
        int fam = family(); bool na = choose(2, "short limit");
        Pair p(fam); Connection* c = p.c; c->SetOurSaInterval(2); c->SetTheirNaIntervalLimit(na ? 3 : 1000000); int peer = p.peer(); if (now_s() >= 60) { c->Disconnect(true, true); return; }      // the default limit has passed
        int t = spawn("peer", [=] { p_send(peer, wf::req(1, "in")); p_send(peer, wf::req(3, "in")); });
        c->Push(mk("out"), false); c->Push(mk("out2"), false);
        join(t); settle();
        if (!na && now_s() < 900000) {
            { bool on = c->IsConnected(); if (now_s() < 900000) EQ(on, true, "connected"); }
            EQ(pull(c), std::string("in#1"), "pulled"); EQ(pull(c), std::string("in#3"), "pulled"); EQ(names_of(no_ka(p.out())), std::string("out out2"), "sent");
            double t1 = now_s(); size_t k = ka_times(p.mine()).size(); for (int i = 0; i < 8; i++) sleep_s(3.5); settle(); if (now_s() < 900000) SIM_CHECK(ka_times(p.mine()).size() >= k + 2, "keep-alives stopped (%zu, %zu, from %g)", k, ka_times(p.mine()).size(), t1);
            c->Push(mk("out3"), false); settle(); if (now_s() < 900000) EQ(names_of(p.out()), std::string("out out2 out3"), "sent");
        } else if (na) { EQ(c->WaitForStop(-1), true, "stopped"); }
        c->Disconnect(true, true);
    });
    j.bound_quick = 1; j.bound_thorough = 3; j.early_tick = true; j.horizon_s = 3e6;
    auto& k = add("intervals_concurrent", "C25 C18 C19 C15 C24", [] {
        int end = choose(3, "end");
        Pair p(TCP); Connection* c = p.c; int peer = p.peer();
        int t = spawn("t1", [=] { c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(50); c->GetOurSaInterval(); });
        int u = spawn("t2", [=] { c->SetTheirNaIntervalLimit(40); c->SetOurSaInterval(4); c->GetTheirNaIntervalLimit(); });
        p_send(peer, wf::req(1, "in")); c->Push(mk("out"), false);
        if (end == 0) c->Disconnect(true, true); else if (end == 1) p_close(peer);
        join(t); join(u);
        int s = c->GetOurSaInterval(), n = c->GetTheirNaIntervalLimit(); SIM_CHECK((s == 3 || s == 4) && (n == 40 || n == 50), "intervals %d %d", s, n);
        if (end == 2) { settle(); double t0 = now_s(); advance_to(s * 2 + 0.5); check_gaps(p.mine(), t0, now_s(), s, "after the changes"); EQ(c->WaitForStop(100), true, "stopped"); expect_times({now_s()}, {(double)n}, "silent peer detected"); }
        else { EQ(c->WaitForStop(9), true, "stopped"); EQ(now_s(), 0.0, "time"); }
    });
    k.bound_quick = 2; k.bound_thorough = 3;
    auto& m = add("keepalive_vs_stalled", "C18 C19 C28 C24 C12 C15", [] {
        // a peer that does not read: keep-alives must not stall anything, nor hide that the peer is silent
        int fam = family(); Pair p(fam, 5); Connection* c = p.c; c->SetOurSaInterval(1); c->SetTheirNaIntervalLimit(6);
        bool big = choose(2, "something queued"); if (big) c->Push(mk("out", 10), false);
        advance_to(3.5); p.recv_from_peer(wf::req(1, "in")); settle(); EQ(pull(c), std::string("in#1"), "pulled");
        EQ(c->WaitForStop(20), true, "stopped"); expect_times({now_s()}, {9.5}, "silent peer detected");
    });
    m.bound_quick = 2; m.bound_thorough = 3;
    return 0;
}();
