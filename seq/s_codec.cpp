// C01 C02 C03 C04: encoding and decoding.
#include "ref.hpp"
using ref::Val; using ref::Arg; using ref::Req;

// ---------------------------------------------------------------- pools of model objects
static std::vector<u64> int_patterns(int w) {      // every combination of these byte classes, all values up to 16 bits
    std::vector<u64> r; static const u8 b[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
    if (w <= 2) { for (u64 i = 0; i < (1ull << (8 * w)); i++) r.push_back(i); return r; }
    u64 n = ipow(5, w);
    for (u64 i = 0; i < n; i++) { u64 v = 0, x = i; for (int k = 0; k < w; k++) { v = v << 8 | b[x % 5]; x /= 5; } r.push_back(v); }
    return r;
}
static std::string allbytes() { std::string s; for (int i = 0; i < 256; i++) s += (char)i; return s; }
static std::vector<std::string> strings() {
    return {"", std::string(1, '\0'), "a", std::string("a\0b", 3), "\xff", "\n", "x\ny\n", std::string(4, '\0'), std::string("\x05\0\0\0\0", 5), allbytes(), std::string(300, 'q')};
}
static std::vector<Val> leaves, small_leaves, level1, level2, level3; static std::vector<Val> vpool;
static void pools(bool) {
    if (!leaves.empty()) return;
    for (int t = 1; t <= 8; t++) for (u64 v : {0ull, 1ull, 0x7full, 0x80ull, 0xffull, 0x7fffull, 0x8000ull, 0xffffull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x0123456789abcdefull}) {
        Val x = ref::integer(t, v); bool dup = false; for (auto& l : leaves) if (l == x) dup = true; if (!dup) leaves.push_back(x);
    }
    for (auto& s : strings()) { leaves.push_back(ref::str(s)); leaves.push_back(ref::undef(s)); }
    small_leaves = {ref::integer(4, 0x01020304), ref::integer(8, 0xff), ref::integer(1, 1), ref::str(""), ref::str(std::string("a\0", 2)), ref::undef(), ref::undef("\x0a\x01"), ref::arr({})};
    auto combos = [](const std::vector<Val>& p, int maxn) {
        std::vector<Val> r; u64 k = p.size();
        for (u64 i = 0; i < seq_count(k, maxn); i++) { std::vector<Val> e; for (int d : seq_at(k, i)) e.push_back(p[d]); r.push_back(ref::arr(e)); }
        return r;
    };
    level1 = combos(small_leaves, 3);
    std::vector<Val> p2 = {small_leaves[0], small_leaves[3], small_leaves[6], ref::arr({}), ref::arr({small_leaves[1]}), ref::arr({small_leaves[4], small_leaves[5]})};
    level2 = combos(p2, 3);
    std::vector<Val> p3 = {small_leaves[1], ref::arr({ref::arr({ref::arr({})})}), ref::arr({ref::arr({small_leaves[3]}), small_leaves[0]}), ref::arr({ref::arr({}), ref::arr({})})};
    level3 = combos(p3, 3);
    for (auto* l : {&leaves, &level1, &level2, &level3}) vpool.insert(vpool.end(), l->begin(), l->end());
    Val deep = ref::str("x"); for (int i = 0; i < 300; i++) { deep = ref::arr({deep}); if (i % 37 == 0) vpool.push_back(deep); }
    vpool.push_back(deep);
    { std::vector<Val> many(1000, ref::integer(7, 9)); vpool.push_back(ref::arr(many)); }
    vpool.push_back(ref::str(std::string(70000, 'z'))); vpool.push_back(ref::undef(std::string(70000, 'u')));
}
// objects a decode may be aimed at
static Value* dirty(int type, int k) {
    Val v;
    if (type == 0) v = ref::undef(k == 1 ? "old" : ""); else if (type <= 8) v = ref::integer(type, k == 1 ? 0x55 : 0);
    else if (type == 9) v = ref::str(k == 1 ? "old content" : ""); else v = k == 1 ? ref::arr({ref::str("old"), ref::integer(1, 7)}) : ref::arr({});
    return ref::build(v);
}
static Req dirty_req(int k) {
    Req r; if (k == 0) return r;
    r.id = 77; r.name = "older"; r.args = {{"a", ref::str("old")}, {"zz", ref::arr({ref::undef("q")})}};
    return r;
}
static const std::string TAIL[] = {"", std::string("\0", 1), std::string("\x06\0\0\0\0\0", 6), "\xff\xff\xff\xff\xff"};

static void check_value(const Val& v, int tail, int prior) {
    std::string e = ref::enc(v);
    Value* o = ref::build(v);
    CHECK(o->GetType() == v.type, "type of a new value is %d", o->GetType());
    CHECK(o->GetSize() == e.size(), "reported size %u, format has %zu bytes: %s", o->GetSize(), e.size(), ref::hex(e).c_str());
    std::string s = ref::ser(o);
    CHECK(s == e, "encoded as %s, format says %s", ref::hex(s).c_str(), ref::hex(e).c_str());
    delete o;
    ref::Buf b(e + TAIL[tail]);
    Value* d = dirty(v.type, prior);
    u64 n = d->Deserialize(b.p, b.n);
    CHECK(n == e.size(), "decoding %s used %llu of %zu bytes", ref::hex(e).c_str(), (unsigned long long)n, e.size());
    Val back = ref::read(d);
    CHECK(back == v, "decoded %s, encoded %s", ref::show(back).c_str(), ref::show(v).c_str());
    CHECK(ref::ser(d) == e, "re-encoding differs");
    count_state(e);
    delete d;
    count_trans(3); count_trace();
}
static void check_request(const Req& r, int tail, int prior) {
    std::string e = ref::enc(r);
    Request* o = ref::build(r);
    CHECK(o->GetSize() == e.size(), "reported size %u, format has %zu bytes", o->GetSize(), e.size());
    std::string s = ref::ser(o);
    CHECK(s == e, "encoded as %s, format says %s", ref::hex(s).c_str(), ref::hex(e).c_str());
    CHECK(ref::read(o) == r, "the built request reads back differently");
    delete o;
    ref::Buf b(e + TAIL[tail]);
    Request* d = ref::build(dirty_req(prior));
    u64 n = d->Deserialize(b.p, b.n);
    CHECK(n == e.size(), "decoding %s used %llu of %zu bytes", ref::hex(e).c_str(), (unsigned long long)n, e.size());
    Req back = ref::read(d);
    CHECK(back == r, "decoded %s, encoded %s", ref::show(back).c_str(), ref::show(r).c_str());
    CHECK(ref::ser(d) == e, "re-encoding differs");
    count_state(e);
    delete d;
    count_trans(3); count_trace();
}
static void check_arg(const Arg& a, int tail, int prior) {
    std::string e = ref::enc(a);
    Datum* o = new Datum(); o->SetName(a.name); o->SetValue(ref::build(a.v), false);
    CHECK(o->GetSize() == e.size(), "reported size %u, format has %zu bytes", o->GetSize(), e.size());
    CHECK(ref::ser(o) == e, "encoded as %s, format says %s", ref::hex(ref::ser(o)).c_str(), ref::hex(e).c_str());
    delete o;
    ref::Buf b(e + TAIL[tail]);
    Datum* d = new Datum(); if (prior) { d->SetName("former"); d->SetValue(ref::build(ref::str("old")), false); }
    u64 n = d->Deserialize(b.p, b.n);
    CHECK(n == e.size(), "decoding %s used %llu of %zu bytes", ref::hex(e).c_str(), (unsigned long long)n, e.size());
    CHECK(ref::read(d) == a, "decoded %s, encoded %s", ref::show(ref::read(d)).c_str(), ref::show(a).c_str());
    CHECK(ref::ser(d) == e, "re-encoding differs");
    count_state(e);
    delete d;
    count_trans(3); count_trace();
}
static std::vector<std::pair<int, u64>> ints;
static std::vector<std::string> rnames, anames; static std::vector<Val> avals;
static std::vector<u32> ids = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304};
static std::vector<u32> lens;

static int r1 = [] {
    { auto& s = add_space("int_roundtrip", "C01 C02 C07", "every 8 and 16 bit value, all byte-class patterns (00 01 7f 80 ff) of 32 and 64 bit values, each type, fresh and used targets");
      s.prepare = [](bool th) { ints.clear(); for (int t = 1; t <= 8; t++) { if (ref::width(t) == 8 && !th) { static const u8 b[] = {0, 0x7f, 0x80, 0xff}; for (u64 i = 0; i < ipow(4, 8); i++) { u64 v = 0, x = i; for (int k = 0; k < 8; k++) { v = v << 8 | b[x % 4]; x /= 4; } ints.push_back({t, v}); } for (int k = 0; k < 64; k++) ints.push_back({t, 1ull << k}); } else { for (u64 v : int_patterns(ref::width(t))) ints.push_back({t, v}); if (ref::width(t) >= 4) for (int k = 0; k < 8 * ref::width(t); k++) { ints.push_back({t, 1ull << k}); ints.push_back({t, (1ull << k) - 1}); } } } };
      s.size = [](bool) { return (u64)ints.size(); };
      s.run = [](u64 i) { check_value(ref::integer(ints[i].first, ints[i].second), i & 3, (i >> 2) & 1); };
      s.describe = [](u64 i) { return "type " + std::to_string(ints[i].first) + " value " + std::to_string(ints[i].second); }; }
    { auto& s = add_space("value_roundtrip", "C01 C02", "every value of the pool: all leaves, all arrays of up to 3 elements over 8 leaves, nested to depth 5 over reduced pools, chains 300 deep; 4 tails x 2 target states");
      s.prepare = pools; s.size = [](bool) { return (u64)vpool.size() * 8; };
      s.run = [](u64 i) { check_value(vpool[i / 8], i & 3, (i >> 2) & 1); };
      s.describe = [](u64 i) { return ref::show(vpool[i / 8]); }; }
    { auto& s = add_space("request_roundtrip", "C01 C02", "ids x request names x up to 3 arguments over pools of names and values; 2 tails x 2 target states");
      s.prepare = [](bool th) {
          if (!rnames.empty()) return;
          rnames = {"", "_", "action", std::string("a\0b", 3), "\xff\x80", std::string(255, 'n'), std::string(256, 'm')};
          anames = {"", "a", "b", std::string("\0", 1)}; avals = {ref::integer(4, 5), ref::str("s"), ref::undef(), ref::undef("raw"), ref::arr({ref::integer(8, 0xfe), ref::arr({})})};
          if (th) { anames.push_back(std::string(300, 'k')); avals.push_back(ref::integer(2, ~0ull)); avals.push_back(ref::str("")); avals.push_back(ref::arr({})); }
      };
      // argument names distinct: an ordered selection; value independent
      s.size = [](bool) { u64 k = anames.size(), v = avals.size(); u64 n = 1 + k * v + k * (k - 1) * v * v + k * (k - 1) * (k - 2) * v * v * v; return n * ids.size() * rnames.size() * 4; };
      static auto at = [](u64 i) {
          Digits d(i); d.take(4); Req r; r.id = ids[d.take(ids.size())]; r.name = rnames[d.take(rnames.size())];
          u64 k = anames.size(), v = avals.size(), x = d.v; int n;
          if (x < 1) n = 0; else if ((x -= 1) < k * v) n = 1; else if ((x -= k * v) < k * (k - 1) * v * v) n = 2; else { x -= k * (k - 1) * v * v; n = 3; }
          std::vector<std::string> left = anames; Digits y(x);
          for (int j = 0; j < n; j++) { u64 p = y.take(left.size()); Arg a{left[p], avals[y.take(v)]}; left.erase(left.begin() + p); r.args.push_back(a); }
          return r; };
      s.run = [](u64 i) { check_request(at(i), (i & 1) * 2, (i >> 1) & 1); };
      s.describe = [](u64 i) { return ref::show(at(i)); }; }
    { auto& s = add_space("name_lengths", "C01 C02", "request and argument names of every length (thorough: 0..65535; quick: 0..520 and around powers of two)");
      s.prepare = [](bool th) { lens.clear(); for (u32 i = 0; i < 65536; i++) { bool near = i <= 520; for (u32 p = 1024; p <= 65536; p *= 2) if (i + 3 >= p && i <= p + 2) near = true; if (th || near) lens.push_back(i); } };
      s.size = [](bool) { return (u64)lens.size() * 2; };
      s.run = [](u64 i) {
          std::string n(lens[i / 2], 'x'); for (size_t k = 0; k < n.size(); k += 7) n[k] = (char)(k * 31 + 1);
          if (i & 1) { Req r; r.id = 3; r.name = n; r.args = {{"k", ref::str("v")}}; check_request(r, 1, 0); } else { check_arg({n, ref::integer(4, 99)}, 1, 1); }
      };
      s.describe = [](u64 i) { return std::string(i & 1 ? "request" : "argument") + " name of " + std::to_string(lens[i / 2]) + " bytes"; }; }
    { auto& s = add_space("content_lengths", "C01 C02 C07", "strings, undefined values and arrays of every length 0..1500, around 65536 and 100000 (strings and undefined values also around 2^24), and requests that hold them");
      s.size = [](bool) { return (u64)4 * 1515; };
      s.run = [](u64 i) {
          u64 n = i / 4; if (n > 1500) n = n <= 1510 ? 65530 + (n - 1500) : n == 1511 ? 100000 : n == 1512 ? 16777211 : n == 1513 ? 16777212 : 16777217;
          std::string c(n, 'c'); for (size_t k = 0; k < n; k++) c[k] = (char)(k * 7);
          if (i % 4 == 0) check_value(ref::str(c), 1, 1); else if (i % 4 == 1) check_value(ref::undef(c), 1, 1); else if (i % 4 == 2 && n <= 100000) check_value(ref::arr(std::vector<Val>(n, ref::integer(7, n))), 1, 1); else if (n <= 100000 || n == 16777217) check_request({6, "big", {{"k", ref::str(c)}, {"l", n <= 1500 ? ref::arr(std::vector<Val>(n, ref::undef())) : ref::undef(c)}}}, 1, 1);
      };
      s.describe = [](u64 i) { return "kind " + std::to_string(i % 4) + " index " + std::to_string(i / 4); }; }
    return 0;
}();

// ---------------------------------------------------------------- printing
namespace {
std::string vis(const std::string& s) { std::string o; for (u8 c : s.substr(0, 300)) if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; return o; }
struct Scan {      // looks for the expected pieces one after another
    const std::string& t; size_t at = 0;
    explicit Scan(const std::string& s) : t(s) {}
    void text(const std::string& w) {
        size_t p = t.find(w, at);
        CHECK(p != std::string::npos, "\"%s\" is not shown (in its place): %s", vis(w).c_str(), vis(t).c_str());
        at = p + w.size();
    }
    void number(const std::string& n) {            // as a word of its own
        auto part = [&](size_t i) { u8 c = t[i]; return isalnum(c) || c == '-' || c == '_'; };
        for (size_t p = at; (p = t.find(n, p)) != std::string::npos; p++)
            if ((!p || !part(p - 1)) && (p + n.size() >= t.size() || !part(p + n.size()))) { at = p + n.size(); return; }
        CHECK(false, "the number %s is not shown (in its place): %s", n.c_str(), vis(t).c_str());
    }
};
}
static std::string decimal(const Val& v) {
    u64 n = wf::rd(v.s, 0, v.s.size());
    switch (v.type) { case 1: return std::to_string((int64_t)n); case 3: return std::to_string((int32_t)n); case 5: return std::to_string((int16_t)n); case 8: return std::to_string((int8_t)n); }
    return std::to_string(n);
}
static void shown(Scan& s, const Val& v) {
    if (v.type >= 1 && v.type <= 8) s.number(decimal(v));
    else if (v.type == 9) {
        s.number(std::to_string(v.s.size()));
        size_t i = 0;
        while (i <= v.s.size()) { size_t e = v.s.find('\n', i); if (e == std::string::npos) e = v.s.size(); if (e > i) s.text(v.s.substr(i, e - i)); i = e + 1; }
    } else if (v.type == 10) {
        s.number(std::to_string(v.a.size()));
        for (size_t i = 0; i < v.a.size(); i++) { s.number(std::to_string(i)); shown(s, v.a[i]); }
    }
}
static const u32 INDENT[] = {0, 1, 7, 300};
static void print_value(const Val& v, u32 indent) {
    Value* o = ref::build(v); const Value* k = o;
    std::string t = k->ToString(indent), e = ref::enc(v);
    CHECK(ref::ser(o) == e, "printing changed the value");
    CHECK(k->ToString(indent) == t, "printed differently the second time");
    CHECK(t.size() > indent && t.find_first_not_of(' ') == indent, "the first line is indented by %zu spaces, not %u", t.find_first_not_of(' '), indent);
    for (size_t p = t.find('\n'); p != std::string::npos; p = t.find('\n', p + 1))
        CHECK(t.size() - p - 1 >= indent && t.compare(p + 1, indent, std::string(indent, ' ')) == 0, "a line is indented by less than %u: %s", indent, vis(t.substr(p, 60)).c_str());
    Scan s(t); shown(s, v);
    if (!indent) CHECK(k->ToString() == t, "the indentation is not 0 by default");
    count_state(e); delete o; count_trans(2); count_trace();
}
static void print_request(const Req& r) {
    Request* o = ref::build(r); const Request* k = o;
    std::string t = k->ToString(), e = ref::enc(r);
    CHECK(ref::ser(o) == e, "printing changed the request");
    CHECK(k->ToString() == t, "printed differently the second time");
    Scan s(t); s.text(r.name);
    for (auto& a : r.args) { s.text(a.name); shown(s, a.v); }
    count_state(e); delete o; count_trans(2); count_trace();
}
static std::vector<std::string> pnames; static std::vector<Val> pvals;
static int rp = [] {
    { auto& s = add_space("print_integers", "C09", "every 8 and 16 bit value and every combination of the byte classes (00 01 7f 80 ff) of the wider types printed, alone and in an array");
      s.prepare = [](bool th) { ints.clear(); for (int t = 1; t <= 8; t++) { if (ref::width(t) == 8 && !th) { for (int k = 0; k < 64; k++) for (u64 d : {0ull, 1ull, ~0ull}) { ints.push_back({t, (1ull << k) + d}); ints.push_back({t, ~(1ull << k) + d}); } for (u64 p = 1, k = 0; k < 20; k++, p *= 10) for (u64 d : {0ull, 1ull, ~0ull}) { ints.push_back({t, p + d}); ints.push_back({t, 0 - p + d}); } } else for (u64 v : int_patterns(ref::width(t))) ints.push_back({t, v}); } };
      s.size = [](bool) { return (u64)ints.size() * 2; };
      s.run = [](u64 i) { Val v = ref::integer(ints[i / 2].first, ints[i / 2].second); print_value(i & 1 ? ref::arr({v, ref::str("end")}) : v, 0); };
      s.describe = [](u64 i) { return "type " + std::to_string(ints[i / 2].first) + " value " + std::to_string(ints[i / 2].second); }; }
    { auto& s = add_space("print_values", "C09", "every value of the pool of value_roundtrip printed with the indentations 0, 1, 7 and 300");
      s.prepare = pools; s.size = [](bool) { return (u64)vpool.size() * 4; };
      s.run = [](u64 i) { print_value(vpool[i / 4], INDENT[i & 3]); };
      s.describe = [](u64 i) { return ref::show(vpool[i / 4]); }; }
    { auto& s = add_space("print_sizes", "C09", "strings of every length up to 1500 with a line break at every 1st to 9th byte or none, arrays of every length up to 600 and of 65537 elements");
      s.size = [](bool) { return (u64)1501 * 10 + 602; };
      s.run = [](u64 i) {
          if (i < 15010) { std::string t(i / 10, 'c'); for (size_t k = 0; k < t.size(); k++) t[k] = i % 10 && k % (i % 10) == 0 ? '\n' : 'a' + k % 26; print_value(ref::str(t), i % 3); return; }
          u64 n = i - 15010; if (n == 601) n = 65537;
          std::vector<Val> v; for (u64 k = 0; k < n; k++) v.push_back(ref::integer(4, k * 977)); print_value(ref::arr(v), n % 3);
      };
      s.describe = [](u64 i) { return "index " + std::to_string(i); }; }
    { auto& s = add_space("print_requests", "C09", "8 request names x up to 3 (thorough 4) arguments over 5 names and 9 values, in every order, printed");
      s.prepare = [](bool) { if (!pnames.empty()) return; pnames = {"", "a", "b", "value", std::string("n\0n", 3)}; pvals = {ref::integer(4, 5), ref::integer(8, 0xff), ref::integer(1, 1ull << 63), ref::str("s"), ref::str(""), ref::str("x\ny"), ref::undef("raw"), ref::arr({ref::integer(8, 0xfe), ref::arr({})}), ref::arr({ref::arr({ref::str("q")}), ref::undef()})}; };
      static auto at = [](u64 i) {
          static const std::string rn[] = {"", "_", "action", std::string("a\0b", 3), "\xff\x80", "x\ny", std::string(300, 'n'), "-> 5"};
          Digits d(i); Req r; r.id = 7; r.name = rn[d.take(8)]; u64 x = d.v, k = pnames.size(), v = pvals.size(), c = 1; int n = 0;
          while (x >= c) { x -= c; c *= (k - n) * v; n++; }
          std::vector<std::string> left = pnames; Digits y(x);
          for (int j = 0; j < n; j++) { u64 p = y.take(left.size()); Arg a{left[p], pvals[y.take(v)]}; left.erase(left.begin() + p); r.args.push_back(a); }
          return r; };
      s.size = [](bool th) { u64 k = pnames.size(), v = pvals.size(), c = 1, t = 0; for (int n = 0; n <= (th ? 4 : 3); n++) { t += c; c *= (k - n) * v; } return t * 8; };
      s.run = [](u64 i) { print_request(at(i)); };
      s.describe = [](u64 i) { return ref::show(at(i)); }; }
    return 0;
}();

// ---------------------------------------------------------------- arbitrary bytes
static void after_decode_v(Value* v) {
    v->ToString(); v->GetSize();
    Value* c = CreateValue(v->GetType()); c->CopyFrom(v);
    CHECK(ref::ser(c) == ref::ser(v), "a copy of the decoded object encodes differently");
    delete c;
}
static void after_decode_r(Request* r) {
    r->ToString();
    Request c; c.CopyFrom(r);
    CHECK(ref::ser(&c) == ref::ser(r), "a copy of the decoded object encodes differently");
    Request d("again"); d.Set("x", new ValueStr("y"), false);
    std::string e = ref::ser(&d);
    CHECK(r->Deserialize((char*)e.data(), e.size()) == e.size(), "the object cannot be used for another decode");
    CHECK(ref::ser(r) == e, "the next decode into the object is wrong");
}
static void bytes_value(const std::string& s, int type, int prior) {
    Val want; u64 un = ref::dec((const u8*)s.data(), s.size(), want); if (un && want.type != type) un = 0;
    ref::Buf b(s); Value* v = dirty(type, prior);
    count_state(s); mem_reset();
    u64 n = v->Deserialize(b.p, b.n);
    u64 mem = mem_cumulative();
    CHECK(mem <= 8192 + 256 * (u64)s.size(), "decoding %zu bytes allocated %llu bytes", s.size(), (unsigned long long)mem);
    CHECK(n <= s.size(), "decoding %zu bytes returned %llu", s.size(), (unsigned long long)n);
    CHECK(n == un, "decoding %s as type %d returned %llu, the format says %llu", ref::hex(s).c_str(), type, (unsigned long long)n, (unsigned long long)un);
    if (n) { Val got = ref::read(v); CHECK(got == want, "decoding %s gave %s", ref::hex(s).c_str(), ref::show(got).c_str()); CHECK(ref::ser(v) == s.substr(0, n), "re-encoding %s gave %s", ref::hex(s.substr(0, n)).c_str(), ref::hex(ref::ser(v)).c_str()); }
    after_decode_v(v);
    delete v; count_trans(3); count_trace();
}
static void bytes_arg(const std::string& s, int prior) {
    Arg want; u64 un = ref::dec((const u8*)s.data(), s.size(), want);
    ref::Buf b(s); Datum* v = new Datum(); if (prior) { v->SetName("former"); v->SetValue(ref::build(ref::str("old")), false); }
    count_state(s); mem_reset();
    u64 n = v->Deserialize(b.p, b.n); u64 mem = mem_cumulative();
    CHECK(mem <= 8192 + 256 * (u64)s.size(), "decoding %zu bytes allocated %llu bytes", s.size(), (unsigned long long)mem);
    CHECK(n == un, "decoding argument %s returned %llu, the format says %llu", ref::hex(s).c_str(), (unsigned long long)n, (unsigned long long)un);
    if (n) { Arg got = ref::read(v); CHECK(got == want, "decoding %s gave %s", ref::hex(s).c_str(), ref::show(got).c_str()); CHECK(ref::ser(v) == s.substr(0, n), "re-encoding differs"); }
    v->GetValid(); CHECK(v->GetValue(), "argument without a value after decoding"); v->GetValue()->ToString();
    std::string e = ref::ser(v); CHECK(e.size() == v->GetSize(), "size");
    std::string g = ref::enc(Arg{"k", ref::integer(7, 3)});
    CHECK(v->Deserialize(g.data(), g.size()) == g.size() && ref::ser(v) == g, "the argument cannot be used for another decode");
    delete v; count_trans(3); count_trace();
}
static void bytes_req(const std::string& s, int prior) {
    Req want; u64 un = ref::dec((const u8*)s.data(), s.size(), want);
    ref::Buf b(s); Request* v = ref::build(dirty_req(prior));
    count_state(s); mem_reset();
    u64 n = v->Deserialize(b.p, b.n); u64 mem = mem_cumulative();
    CHECK(mem <= 8192 + 256 * (u64)s.size(), "decoding %zu bytes allocated %llu bytes", s.size(), (unsigned long long)mem);
    CHECK(n == un, "decoding request %s returned %llu, the format says %llu", ref::hex(s).c_str(), (unsigned long long)n, (unsigned long long)un);
    if (n) { Req got = ref::read(v); CHECK(got == want, "decoding %s gave %s", ref::hex(s).c_str(), ref::show(got).c_str()); CHECK(ref::ser(v) == s.substr(0, n), "re-encoding differs"); }
    after_decode_r(v);
    delete v; count_trans(3); count_trace();
}
static const u8 TYPES[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 127, 128, 255};
static const u32 LENS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 255, 256, 65536, 0x7fffffff, 0x80000000, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xffffffff};
static const int NT = sizeof TYPES, NL = sizeof LENS / 4;
// every well-formed encoding of a small pool, for mutation
struct Seed { int kind; std::string s; std::vector<int> off, wid; };   // length-like fields: offset, width
static std::vector<Seed> seeds; static std::vector<u64> cum; static u64 pair_vals;
static void fields_v(const std::string& s, int o, Seed& d) {
    d.off.push_back(o); d.wid.push_back(1); d.off.push_back(o + 1); d.wid.push_back(4);
    if (s[o] == 9) { d.off.push_back(o + 5); d.wid.push_back(4); }
    if (s[o] == 10) { d.off.push_back(o + 5); d.wid.push_back(4); u64 n = wf::rd(s, o + 5, 4); int p = o + 9; while (n--) { fields_v(s, p, d); p += 5 + wf::rd(s, p + 1, 4); } }
}
static void fields_a(const std::string& s, int o, Seed& d) { d.off.push_back(o); d.wid.push_back(4); d.off.push_back(o + 4); d.wid.push_back(2); fields_v(s, o + 6 + wf::rd(s, o + 4, 2), d); }
static void mk_seeds(bool th) {
    if (!seeds.empty()) return;
    std::vector<Val> vs = {ref::undef(), ref::undef("ab"), ref::str(""), ref::str("ab"), ref::arr({}), ref::arr({ref::str("x")}), ref::arr({ref::integer(4, 7), ref::undef()}), ref::arr({ref::arr({ref::integer(7, 1)}), ref::str("")}), ref::arr({ref::arr({ref::arr({})})})};
    for (int t = 1; t <= 8; t++) vs.push_back(ref::integer(t, 0x0807060504030201ull));
    for (auto& v : vs) { Seed d; d.kind = 0; d.s = ref::enc(v); fields_v(d.s, 0, d); seeds.push_back(d); }
    for (auto& v : vs) for (std::string n : {"", "k", "key"}) { if (!th && v.type >= 1 && v.type <= 8 && n != "k") continue; Seed d; d.kind = 1; d.s = ref::enc(Arg{n, v}); fields_a(d.s, 0, d); seeds.push_back(d); }
    std::vector<Req> rs; for (std::string n : {"", "_", "go"}) { rs.push_back({5, n, {}}); rs.push_back({5, n, {{"k", ref::str("v")}}}); rs.push_back({5, n, {{"", ref::undef()}, {"k", ref::integer(3, 4)}}}); rs.push_back({5, n, {{"k", ref::integer(7, 1)}, {"k", ref::integer(7, 2)}}}); rs.push_back({9, n, {{"a", ref::arr({ref::str("e"), ref::arr({})})}, {"b", ref::undef("zz")}}}); }
    for (auto& r : rs) { Seed d; d.kind = 2; d.s = ref::enc(r); d.off = {0, 8}; d.wid = {4, 2}; int p = 10 + r.name.size(); for (auto& a : r.args) { fields_a(d.s, p, d); p += ref::enc(a).size(); } seeds.push_back(d); }
}
static const i64 DELTA[] = {0, -1, 1, -2, 2, -4, 4, -5, 5, 3, 7, 8};   // relative to the right value
static const u64 ABSV[] = {0, 1, 5, 6, 9, 10, 255, 256, 65535, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffb, 0xffffffff};
static const int ND = 12, NA = 14;
static void run_any(int kind, const std::string& s, int prior) {
    if (kind == 0) { int t = s.empty() ? 4 : (u8)s[0] <= 10 ? s[0] : 0; bytes_value(s, t, prior); }
    else if (kind == 1) bytes_arg(s, prior); else bytes_req(s, prior);
}
static std::string setf(std::string s, int o, int w, u64 v) { for (int k = 0; k < w; k++) s[o + k] = (char)(v >> (8 * k)); return s; }
static u64 field_value(const Seed& d, int f, int c) { u64 v = wf::rd(d.s, d.off[f], d.wid[f]); return c < ND ? v + DELTA[c] : ABSV[c - ND]; }

static int r2 = [] {
    { auto& s = add_space("raw_value", "C03 C04", "16 tags x 21 announced lengths x all contents of up to 4 (thorough 6) bytes over {0 1 2 5 9 10}, each decoded as every matching and one mismatching type");
      s.size = [](bool th) { return (u64)NT * NL * seq_count(6, th ? 6 : 4) * 2; };
      static auto at = [](u64 i, int& type, int& prior) {
          Digits d(i); int k = d.take(2); u8 t = TYPES[d.take(NT)]; u32 l = LENS[d.take(NL)]; static const u8 al[] = {0, 1, 2, 5, 9, 10};
          std::string s(1, (char)t); s += wf::le(l, 4); for (int x : seq_at(6, d.v)) s += (char)al[x];
          prior = k; type = k && t < 10 ? (t == 0 ? 9 : t) : t <= 10 ? t : 0; if (k && (i % 7) == 0) type = (t + 1) % 11; return s; };
      s.run = [](u64 i) { int t, p; std::string b = at(i, t, p); bytes_value(b, t, p); };
      s.describe = [](u64 i) { int t, p; std::string b = at(i, t, p); return "value of type " + std::to_string(t) + ": " + ref::hex(b); }; }
    { auto& s = add_space("raw_short", "C03 C04", "every byte string of up to 8 (thorough 10) bytes over {0 1 5 9 10 255} decoded as value, argument and request");
      s.size = [](bool th) { return seq_count(6, th ? 9 : 7) * 3; };
      static auto at = [](u64 i) { static const u8 al[] = {0, 1, 5, 9, 10, 255}; std::string s; for (int x : seq_at(6, i / 3)) s += (char)al[x]; return s; };
      s.run = [](u64 i) {
          run_any(i % 3, at(i), (i / 3) & 1);
          if (i < 3) { ValueStr v; ValueArr a; Datum d; Request r; CHECK(i == 0 ? v.Deserialize(nullptr, 0) == 0 && a.Deserialize(nullptr, 0) == 0 : i == 1 ? d.Deserialize(nullptr, 0) == 0 : r.Deserialize(nullptr, 0) == 0, "nothing at all was decoded"); } };
      s.describe = [](u64 i) { return ref::hex(at(i)); }; }
    { auto& s = add_space("many_arguments", "C01 C03 C04", "requests of 0..300, around 65536 and 100000 arguments with equal or different names: decoded whole, cut short by a byte, with the last argument's length too big, and re-encoded");
      static std::vector<u64> L; s.prepare = [](bool) { L.clear(); for (u64 i = 0; i <= 300; i++) L.push_back(i); for (u64 i : {1000, 32768, 65535, 65536, 65537, 100000}) L.push_back(i); };
      s.size = [](bool) { return (u64)L.size() * 8; };
      static auto at = [](u64 i) {
          Digits g(i); u64 n = L[g.take(L.size())]; int what = g.take(4); bool eq = g.v; Req r; r.id = 3; r.name = "many"; for (u64 k = 0; k < n; k++) r.args.push_back({eq ? "k" : std::to_string(k), k % 3 == 0 ? ref::undef() : k % 3 == 1 ? ref::integer(7, k) : ref::str("s")});
          std::string e = ref::enc(r); if (what == 1) e.pop_back(); if (what == 2 && n) { size_t l = ref::enc(r.args.back()).size(); e[e.size() - l]++; } if (what == 3) { e += "\xff"; e[0]++; if (!e[0]) e[1]++; } return e; };
      s.run = [](u64 i) { bytes_req(at(i), i & 1); };
      s.describe = [](u64 i) { Digits g(i); u64 n = L[g.take(L.size())]; return std::to_string(n) + " arguments, variant " + std::to_string(g.v); }; }
    { auto& s = add_space("raw_array", "C03 C04", "arrays: announced count x up to 3 elements each of 12 tags x 8 announced lengths x 5 present lengths, content length exact or off by up to 5");
      s.size = [](bool th) { return (u64)7 * 5 * seq_count(th ? 480 : 160, 2); };
      static auto at = [](u64 i) {
          Digits d(i); static const u32 cn[] = {0, 1, 2, 3, 4, 0x10000, 0xffffffff}; u32 c = cn[d.take(7)]; static const int off[] = {0, -1, 1, -5, 5}; int dl = off[d.take(5)];
          // 480 = 12 tags x 8 lengths x 5 present; the quick tier uses the first third in an order that keeps all tags
          std::string e; u64 q = d.v;
          u64 k = 480; u64 len = 0, cc = 1, idx = q; (void)k;
          static u64 K = 0; K = 0; for (u64 kk : {(u64)160, (u64)480}) if (q < seq_count(kk, 2)) { K = kk; break; }
          while (idx >= cc) { idx -= cc; cc *= K; len++; }
          for (u64 j = 0; j < len; j++) {
              u64 x = idx % K; idx /= K;
              static const u8 tg[] = {0, 7, 9, 10, 4, 11, 5, 8, 1, 2, 3, 6}; static const u32 ln[] = {0, 1, 4, 5, 8, 2, 9, 0xffffffff}; static const int pr[] = {0, 1, 4, 8, 2};
              u8 t = tg[K == 160 ? x % 8 : x % 12]; x /= K == 160 ? 8 : 12; u32 l = ln[K == 160 ? x % 5 : x % 8]; x /= K == 160 ? 5 : 8; int p = pr[x];
              e += (char)t; e += wf::le(l, 4); e += std::string(p, j ? '\1' : '\0');
          }
          return std::string(1, '\x0a') + wf::le(4 + e.size() + dl, 4) + wf::le(c, 4) + e; };
      s.run = [](u64 i) { bytes_value(at(i), 10, i & 1); };
      s.describe = [](u64 i) { return ref::hex(at(i)); }; }
    { auto& s = add_space("mutants", "C03 C04", "every well-formed seed (values, arguments, requests): every truncation, every byte set to every value, every extension by one of 4 tails");
      s.prepare = [](bool th) { mk_seeds(th); cum.assign(1, 0); for (auto& d : seeds) cum.push_back(cum.back() + d.s.size() + 1 + 4 + d.s.size() * 256); };
      s.size = [](bool) { return cum.back(); };
      static auto at = [](u64 i, int& kind) {
          size_t k = std::upper_bound(cum.begin(), cum.end(), i) - cum.begin() - 1; auto& d = seeds[k]; i -= cum[k]; kind = d.kind;
          if (i <= d.s.size()) return d.s.substr(0, i); i -= d.s.size() + 1;
          if (i < 4) return d.s + TAIL[i]; i -= 4;
          std::string x = d.s; x[i / 256] = (char)(i % 256); return x; };
      s.run = [](u64 i) { int k; std::string b = at(i, k); run_any(k, b, i & 1); };
      s.describe = [](u64 i) { int k; std::string b = at(i, k); return std::string(k == 0 ? "value " : k == 1 ? "argument " : "request ") + ref::hex(b); }; }
    { auto& s = add_space("field_pairs", "C03 C04", "every seed with every pair of its type, length and count fields set to every combination of 26 values (12 relative, 14 absolute)");
      static std::vector<u64> c2;
      s.prepare = [](bool th) { mk_seeds(th); c2.assign(1, 0); for (auto& d : seeds) { u64 f = d.off.size(); c2.push_back(c2.back() + f * f * (ND + NA) * (ND + NA)); } };
      s.size = [](bool) { return c2.back(); };
      static auto at = [](u64 i, int& kind) {
          size_t k = std::upper_bound(c2.begin(), c2.end(), i) - c2.begin() - 1; auto& d = seeds[k]; Digits g(i - c2[k]); kind = d.kind; u64 f = d.off.size();
          int a = g.take(f), b = g.take(f), x = g.take(ND + NA), y = g.take(ND + NA);
          std::string t = setf(d.s, d.off[a], d.wid[a], field_value(d, a, x)); return a == b ? t : setf(t, d.off[b], d.wid[b], field_value(d, b, y)); };
      s.run = [](u64 i) { int k; std::string b = at(i, k); run_any(k, b, i & 1); };
      s.describe = [](u64 i) { int k; std::string b = at(i, k); return std::string(k == 0 ? "value " : k == 1 ? "argument " : "request ") + ref::hex(b); }; }
    { auto& s = add_space("field_triples", "C03 C04", "requests with arguments: every triple of fields over 8 values each (thorough only)");
      static std::vector<u64> c3; static const int V[] = {1, 2, 5, 12, 13, 19, 23, 25};
      s.prepare = [](bool th) { mk_seeds(th); c3.assign(1, 0); for (auto& d : seeds) { u64 f = d.off.size(); c3.push_back(c3.back() + (th || d.off.size() < 7 ? f * f * f * 512 : 0)); } };
      s.size = [](bool) { return c3.back(); };
      static auto at = [](u64 i, int& kind) {
          size_t k = std::upper_bound(c3.begin(), c3.end(), i) - c3.begin() - 1; auto& d = seeds[k]; Digits g(i - c3[k]); kind = d.kind; u64 f = d.off.size();
          std::string t = d.s; for (int j = 0; j < 3; j++) { int a = g.take(f); t = setf(t, d.off[a], d.wid[a], field_value(d, a, V[g.take(8)])); } return t; };
      s.run = [](u64 i) { int k; std::string b = at(i, k); run_any(k, b, i & 1); };
      s.describe = [](u64 i) { int k; std::string b = at(i, k); return std::string(k == 0 ? "value " : k == 1 ? "argument " : "request ") + ref::hex(b); }; }
    { auto& s = add_space("nesting", "C03 C04", "arrays nested 1..1500 (thorough 3000) deep: complete, cut short by one byte, and with a wrong innermost count");
      s.size = [](bool th) { return (u64)(th ? 3000 : 1500) / 5 * 3; };
      static auto at = [](u64 i) { u64 n = (i / 3) * 5 + 1; std::string e; for (u64 k = 0; k < n; k++) { u64 in = 9 * (n - 1 - k); e += '\x0a'; e += wf::le(4 + in, 4); e += wf::le(k + 1 < n ? 1 : 0, 4); } if (i % 3 == 1) e.pop_back(); if (i % 3 == 2) e[e.size() - 4] = 1; return e; };
      s.run = [](u64 i) {
          std::string b = at(i); count_state(b); ref::Buf f(b); ValueArr* a = new ValueArr(); mem_reset(); u64 n = a->Deserialize(f.p, f.n);
          CHECK(mem_cumulative() <= 8192 + 256 * (u64)b.size(), "decoding %zu bytes allocated %llu bytes", b.size(), (unsigned long long)mem_cumulative());
          CHECK(n == (i % 3 ? 0 : b.size()), "decoding %llu nested arrays returned %llu of %zu", (unsigned long long)(i / 3) * 5 + 1, (unsigned long long)n, b.size());
          if (n) { CHECK(ref::ser(a) == b, "re-encoding differs"); ValueArr c; c.CopyFrom(a); CHECK(c.GetSize() == b.size(), "copy"); }
          delete a; count_trans(2); count_trace(); };
      s.describe = [](u64 i) { return std::to_string(i / 3 * 5 + 1) + " levels, variant " + std::to_string(i % 3); }; }
    return 0;
}();
static int r3 = [] {
    auto& s = add_space("deep_nesting", "C03", "one buffer of 1.8 MB holding 200000 nested arrays");
    s.size = [](bool) { return (u64)1; };
    s.run = [](u64) {
        u64 n = 200000; std::string e; e.reserve(9 * n); for (u64 k = 0; k < n; k++) { e += '\x0a'; e += wf::le(4 + 9 * (n - 1 - k), 4); e += wf::le(k + 1 < n ? 1 : 0, 4); }
        count_state(e); ref::Buf f(e); ValueArr* a = new ValueArr(); u64 r = a->Deserialize(f.p, f.n);
        CHECK(r == e.size(), "decoding returned %llu of %zu", (unsigned long long)r, e.size());
        delete a; count_trans(2); count_trace(); };
    s.describe = [](u64) { return std::string("array nested 200000 deep"); };
    return 0;
}();
