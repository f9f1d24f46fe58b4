// C05 C06 C07 C08: the objects themselves, driven by every operation sequence up to a depth.
#include "ref.hpp"
#include <type_traits>
using ref::Val; using ref::Arg; using ref::Req;

static void same(Request* r, const Req& m, const char* who) {
    Req got = ref::read(r);
    count_state(ref::enc(m));
    CHECK(got == m, "%s holds %s, should hold %s", who, ref::show(got).c_str(), ref::show(m).c_str());
}
static void mset(Req& m, const std::string& n, const Val& v) { for (auto& a : m.args) if (a.name == n) { a.v = v; return; } m.args.push_back({n, v}); }
static void mdel(Req& m, const std::string& n) { for (size_t i = 0; i < m.args.size();) if (m.args[i].name == n) m.args.erase(m.args.begin() + i); else i++; }
static const Val* mget(const Req& m, const std::string& n) { for (auto& a : m.args) if (a.name == n) return &a.v; return nullptr; }
static const std::string NAMES[] = {"a", std::string("a\0", 2), ""};

template <class T> static void typed(Request* r, const Req& m, const std::string& n, int type) {
    const Val* v = mget(m, n); T* t = r->Get<T>(n);
    CHECK(!!t == (v && v->type == type), "typed read of '%s' as type %d gave %s", n.c_str(), type, t ? "a value" : "null");
    if (t) CHECK(ref::read(t) == *v, "typed read of '%s' gave the wrong value", n.c_str());
}
// one argument operation; returns a description when desc is set
static const int AOPS = 3 * 9 + 4;
static std::string arg_op(Request* r, Req& m, int op, bool desc) {
    if (op < 27) {
        const std::string& n = NAMES[op / 9]; int k = op % 9;
        static const char* t[] = {"set copy int", "set copy string then change the original", "set stolen int", "set stolen array", "emplace string", "delete", "set itself copied", "set itself stolen", "set by reference array, then clear the original"};
        if (desc) return std::string(t[k]) + " '" + n + "'; ";
        switch (k) {
            case 0: { Value32U v(7); r->Set(n, &v); v.Set(8); mset(m, n, ref::integer(4, 7)); break; }
            case 1: { ValueStr v("str"); r->Set(n, &v, true); v.Set(std::string("changed")); mset(m, n, ref::str("str")); break; }
            case 2: r->Set(n, new Value8S(-5), false); mset(m, n, ref::integer(8, 0xfb)); break;
            case 3: { Val a = ref::arr({ref::str("x"), ref::undef("q")}); r->Set(n, ref::build(a), false); mset(m, n, a); break; }
            case 4: r->Emplace<ValueStr>(n, ValueStr(std::string("e\0e", 3))); mset(m, n, ref::str(std::string("e\0e", 3))); break;
            case 5: r->Set(n, (Value*)0); mdel(m, n); break;
            case 6: if (Value* v = r->Get(n)) r->Set(n, v, true); break;
            case 7: if (Value* v = r->Get(n)) r->Set(n, v, false); break;
            case 8: { ValueArr v; Value16U e(3); v.Push(&e); r->Set(n, v); v.Clear(); mset(m, n, ref::arr({ref::integer(6, 3)})); break; }
        }
    } else if (op == 27) {
        if (desc) return "set 'a\\0' to a copy of 'a'; ";
        if (Value* v = r->Get("a")) { r->Set(NAMES[1], v, true); Val x = *mget(m, "a"); mset(m, NAMES[1], x); }
    } else if (op == 28) { if (desc) return "rename and renumber; "; r->SetName("nm"); r->SetId(0x80000001u); m.name = "nm"; m.id = 0x80000001u; }
    else if (op == 30) { if (desc) return "set 'a' to a copy of the first element of the array under 'a'; "; if (ValueArr* v = r->Get<ValueArr>("a")) if (Value* e = v->Get(0)) { Val x = mget(m, "a")->a[0]; r->Set("a", e, true); mset(m, "a", x); } }
    else { if (desc) return "modify the string stored under 'a' in place; "; if (ValueStr* s = r->Get<ValueStr>("a")) { s->Set(std::string("mod")); mset(m, "a", ref::str("mod")); } }
    return "";
}
static void reads(Request* r, const Req& m) {
    for (auto n : {std::string("a"), NAMES[1], std::string(""), std::string("b"), std::string("A")}) {
        Value* v = r->Get(n); const Val* w = mget(m, n);
        CHECK(!!v == !!w, "reading '%s' gave %s", n.c_str(), v ? "a value" : "null");
        if (v) CHECK(ref::read(v) == *w, "reading '%s' gave %s, last set %s", n.c_str(), ref::show(ref::read(v)).c_str(), ref::show(*w).c_str());
        typed<Value32U>(r, m, n, 4); typed<ValueStr>(r, m, n, 9); typed<ValueArr>(r, m, n, 10); typed<Value8S>(r, m, n, 8); typed<ValueUndefined>(r, m, n, 0); typed<Value32S>(r, m, n, 3);
    }
    CHECK(r->GetArguments().size() == m.args.size(), "%zu arguments listed, %zu set", r->GetArguments().size(), m.args.size());
}
// passing by value and assignment, where the class offers them
template <class T> static T byval(T t) { return t; }
template <class T> static bool assign(T& a, const T& b) { if constexpr (std::is_copy_assignable_v<T>) { a = b; return true; } else return false; }

// ---- C06: a pool of requests
static const int RQ = 3;
struct RPool {
    Request* r[RQ]; Req m[RQ];
    RPool() { for (int i = 0; i < RQ; i++) r[i] = new Request(); }
    ~RPool() { for (auto x : r) delete x; }
};
static Req dup_req() { Req q; q.id = 5; q.name = std::string("\0dup", 4); q.args = {{"k", ref::integer(7, 1)}, {"k", ref::undef(std::string("u\0v", 3))}, {"", ref::arr({ref::undef("in"), ref::arr({ref::str("s")})})}}; return q; }
static const int COPS = 9 + 9 + 3 + 3 * 6;
static std::string copy_op(RPool& p, int op, bool desc) {
    auto d = [&](const char* w, int i, int j) { return std::string(w) + " " + std::to_string(i) + " from " + std::to_string(j) + "; "; };
    if (op < 9) { int i = op / 3, j = op % 3; if (desc) return d("CopyFrom", i, j); p.r[i]->CopyFrom(p.r[j]); p.m[i] = Req(p.m[j]); return ""; }
    op -= 9;
    if (op < 9) { int i = op / 3, j = op % 3; if (desc) return d("assign", i, j); if (assign(*p.r[i], *p.r[j])) p.m[i] = Req(p.m[j]); return ""; }
    op -= 9;
    if (op < 3) {
        int i = op, j = (op + 1) % 3; if (desc) return d("new copy passed by value", i, j);
        Request* n = new Request(byval(*p.r[j])); delete p.r[i]; p.r[i] = n; p.m[i] = Req(p.m[j]); return "";
    }
    op -= 3;
    int i = op / 6, k = op % 6;
    static const char* t[] = {"set string 'k' in", "decode duplicates into", "delete 'k' of", "destroy and recreate", "change in place the first argument of", "set nested array '' in"};
    if (desc) return std::string(t[k]) + " " + std::to_string(i) + "; ";
    switch (k) {
        case 0: p.r[i]->Set("k", new ValueStr("kk"), false); mset(p.m[i], "k", ref::str("kk")); break;
        case 1: { std::string e = ref::enc(dup_req()); CHECK(p.r[i]->Deserialize((char*)e.data(), e.size()) == e.size(), "decoding failed"); p.m[i] = dup_req(); break; }
        case 2: p.r[i]->Set("k", (Value*)0); mdel(p.m[i], "k"); break;
        case 3: delete p.r[i]; p.r[i] = new Request(std::string("f\0resh", 6)); p.m[i] = Req(); p.m[i].name = std::string("f\0resh", 6); break;
        case 4: if (!p.r[i]->GetArguments().empty()) { Datum* x = p.r[i]->GetArguments().front(); Value* v = x->GetValue(); if (auto s = dynamic_cast<ValueStr*>(v)) { s->Set(std::string("p")); p.m[i].args[0].v = ref::str("p"); } else if (auto n = dynamic_cast<Value8U*>(v)) { n->Set(200); p.m[i].args[0].v = ref::integer(7, 200); } else if (auto a = dynamic_cast<ValueArr*>(v)) { a->Clear(); p.m[i].args[0].v = ref::arr({}); } } break;
        case 5: { Val a = ref::arr({ref::arr({ref::undef("deep")}), ref::integer(2, 9)}); p.r[i]->Set("", ref::build(a), false); mset(p.m[i], "", a); break; }
    }
    return "";
}
// ---- C06/C07: a pool of values: two arrays, a string, an undefined value, an integer
struct VPool {
    Value* v[5]; Val m[5];
    VPool() { m[0] = m[1] = ref::arr({}); m[2] = ref::str("s"); m[3] = ref::undef("uu"); m[4] = ref::integer(1, 42); for (int i = 0; i < 5; i++) v[i] = ref::build(m[i]); }
    ~VPool() { for (auto x : v) delete x; }
    ValueArr* a(int i) { return (ValueArr*)v[i]; }
};
static const int VOPS = 2 * 5 + 2 * 2 + 2 * 3 + 4 + 2 + 3 + 5 + 4 + 2 * 6;
static std::string val_op(VPool& p, int op, bool desc) {
    auto two = [&](const char* w, int i, int j) { return std::string(w) + " " + std::to_string(i) + " " + std::to_string(j) + "; "; };
    auto back = [](Val& a, const Val& x) { Val c = x; a.a.push_back(c); };
    if (op < 10) { int i = op / 5, j = op % 5; if (desc) return two("push into array / object", i, j); p.a(i)->Push(p.v[j]); back(p.m[i], p.m[j]); return ""; }
    op -= 10;
    if (op < 4) { int i = op / 2, j = op % 2; if (desc) return two("push into array own element", i, j); if (Value* e = p.a(i)->Get(j)) { Val x = p.m[i].a[j]; p.a(i)->Push(e); back(p.m[i], x); } return ""; }
    op -= 4;
    if (op < 6) {
        int i = op / 3, k = op % 3; if (desc) return two("Set: [0]=own last / [1]=itself whole / [5]=string; array", i, k);
        u32 n = p.m[i].a.size(); bool r, want;
        if (k == 0) { Value* e = n ? p.a(i)->Get(n - 1) : p.v[2]; Val x = n ? p.m[i].a[n - 1] : p.m[2]; want = n > 0; r = p.a(i)->Set(0, e); if (want) p.m[i].a[0] = x; }
        else if (k == 1) { Val x = p.m[i]; want = n > 1; r = p.a(i)->Set(1, p.v[i]); if (want) p.m[i].a[1] = x; }
        else { want = n > 5; r = p.a(i)->Set(5, p.v[2]); if (want) p.m[i].a[5] = p.m[2]; }
        CHECK(r == want, "replacing an element returned %d", r); return "";
    }
    op -= 6;
    if (op < 4) { int i = op / 2, j = op % 2; if (desc) return two("CopyFrom array", i, j); p.v[i]->CopyFrom(p.v[j]); Val x = p.m[j]; p.m[i] = x; return ""; }
    op -= 4;
    if (op < 2) { if (desc) return two("copy construct array", op, 1 - op); Value* n = new ValueArr(byval(*p.a(1 - op))); delete p.v[op]; p.v[op] = n; p.m[op] = Val(p.m[1 - op]); return ""; }
    op -= 2;
    if (op < 3) { if (desc) return "New(" + std::to_string(op * 2) + ") of array 0; "; p.a(0)->New(op * 2); p.m[0] = ref::arr(std::vector<Val>(op * 2)); return ""; }
    op -= 3;
    if (op < 5) {
        static const char* t[] = {"clear array 0; ", "change the string; ", "decode another undefined value; ", "copy construct the string and the undefined value; ", "modify in place the string in the arrays; "};
        if (desc) return t[op];
        if (op == 0) { p.a(0)->Clear(); p.m[0] = ref::arr({}); }
        else if (op == 1) { std::string n = p.m[2].s + std::string("\0x", 2); ((ValueStr*)p.v[2])->Set(n); p.m[2].s = n; }
        else if (op == 2) { Val x = ref::undef(p.m[3].s + "+"); std::string e = ref::enc(x); CHECK(p.v[3]->Deserialize(e.data(), e.size()) == e.size(), "decode"); p.m[3] = x; }
        else if (op == 3) { Value* s = new ValueStr(byval(*(ValueStr*)p.v[2])); delete p.v[2]; p.v[2] = s; Value* u = new ValueUndefined(byval(*(ValueUndefined*)p.v[3])); delete p.v[3]; p.v[3] = u; }
        else for (int i = 0; i < 2; i++) for (size_t k = 0; k < p.m[i].a.size(); k++) if (p.m[i].a[k].type == 9) { ((ValueStr*)p.a(i)->Get(k))->Set(std::string("in")); p.m[i].a[k].s = "in"; }
        return "";
    }
    op -= 5;
    if (op >= 4) {      // an array and the arrays inside it
        int i = (op - 4) / 6, k = (op - 4) % 6; if (desc) return two("own parts: [0] into the whole / whole into [0] / push whole into [0] / [0][0] into [0] / [1] into the whole / [0] decoded anew; array", i, k);
        auto as = [](Value* v) { return v && v->GetType() == 10 ? (ValueArr*)v : nullptr; };
        Val old = p.m[i]; ValueArr* e = as(p.a(i)->Get(k == 4 ? 1 : 0)); if (!e) return "";
        switch (k) {
            case 0: p.v[i]->CopyFrom(e); p.m[i] = old.a[0]; break;
            case 1: e->CopyFrom(p.v[i]); p.m[i].a[0] = old; break;
            case 2: e->Push(p.v[i]); p.m[i].a[0].a.push_back(old); break;
            case 3: if (Value* x = e->Get(0)) { CHECK(p.a(i)->Set(0, x), "replacing an element by its own part"); p.m[i].a[0] = old.a[0].a[0]; } break;
            case 4: p.v[i]->CopyFrom(e); p.m[i] = old.a[1]; break;
            case 5: { Val x = ref::arr({ref::undef("n"), ref::arr({})}); std::string b = ref::enc(x); CHECK(e->Deserialize(b.data(), b.size()) == b.size(), "decode"); p.m[i].a[0] = x; break; }
        }
        return "";
    }
    static const char* t[] = {"CopyFrom itself: string, undefined, integer; ", "undefined CopyFrom empty; ", "assign where offered; ", "indices out of range; "};
    if (desc) return t[op];
    if (op == 0) { for (int i = 2; i < 5; i++) p.v[i]->CopyFrom(p.v[i]); }
    else if (op == 1) { ValueUndefined e; p.v[3]->CopyFrom(&e); p.m[3] = ref::undef(); }
    else if (op == 2) { if (assign(*p.a(0), *p.a(1))) p.m[0] = Val(p.m[1]); assign(*p.a(0), *p.a(0)); ValueStr o("other"); if (assign(*(ValueStr*)p.v[2], o)) p.m[2] = ref::str("other"); ValueUndefined u; if (assign(*(ValueUndefined*)p.v[3], u)) p.m[3] = ref::undef(); }
    else for (int i = 0; i < 2; i++) for (u32 x : {(u32)p.m[i].a.size(), 0x7fffffffu, 0x80000000u, 0xffffffffu}) { CHECK(!p.a(i)->Get(x), "index %u of %zu reads as a value", x, p.m[i].a.size()); CHECK(!p.a(i)->Set(x, p.v[2]), "index %u of %zu was replaced", x, p.m[i].a.size()); if (!p.m[i].a.empty()) CHECK(!p.a(i)->Set(0, 0), "replaced by null"); }
    return "";
}
static void same_vals(VPool& p) {
    std::string all; for (auto& v : p.m) all += ref::enc(v); count_state(all);
    for (int i = 0; i < 5; i++) {
        Val g = ref::read(p.v[i]); CHECK(g == p.m[i], "object %d holds %s, should hold %s", i, ref::show(g).c_str(), ref::show(p.m[i]).c_str());
        CHECK(p.v[i]->GetSize() == ref::enc(p.m[i]).size(), "object %d reports size %u", i, p.v[i]->GetSize());
        CHECK(p.v[i]->GetType() == p.m[i].type, "object %d reports type %d", i, p.v[i]->GetType());
        if (i < 2) CHECK(p.a(i)->GetCount() == p.m[i].a.size(), "count");
    }
}

static void nested_start(VPool& p) {
    Val n[2] = {ref::arr({ref::arr({ref::str("x"), ref::arr({ref::undef("y")})}), ref::arr({ref::integer(4, 6)})}), ref::arr({ref::arr({ref::arr({ref::arr({ref::str("d")})})})})};
    for (int i = 0; i < 2; i++) { Value* b = ref::build(n[i]); p.v[i]->CopyFrom(b); delete b; p.m[i] = n[i]; }
}
template <class V, class T> static void int_case(int type, u64 raw) {
    T x = (T)raw; V a(x); CHECK(a.GetType() == type, "type %d", a.GetType()); CHECK(a.Get() == x, "constructed with %lld, reads %lld", (long long)x, (long long)a.Get());
    V b; CHECK(b.Get() == 0, "default is %lld", (long long)b.Get()); b.Set(x); CHECK(b.Get() == x, "set to %lld, reads %lld", (long long)x, (long long)b.Get());
    T c = b; CHECK(c == x, "set to %lld, converts to %lld", (long long)x, (long long)c);
    V d((T)~raw); d.CopyFrom(&b); CHECK(d.Get() == x && b.Get() == x, "copied %lld, reads %lld", (long long)x, (long long)d.Get());
    V e(byval(d)); CHECK(e.Get() == x, "passed by value"); CHECK(e.GetSize() == 5 + sizeof(T), "size %u", e.GetSize());
    std::string s = ref::ser(&a); CHECK(s == wf::val(type, wf::le((u64)x, sizeof(T))), "encoded as %s", ref::hex(s).c_str());
    d.Set(0); CHECK(e.Get() == x && b.Get() == x, "copies are not independent"); d.Set(x); d.Set(x); CHECK(d.Get() == x, "set twice");
    count_state(s); count_trans(12); count_trace();
}
static std::vector<std::pair<int, u64>> ints;
static std::vector<std::string> strs;
static const int SOPS = 17;
static std::string str_op(ValueStr*& v, std::string& m, int op, bool desc) {
    static const char* t[] = {"Set(\"\")", "Set string with NUL", "Set(buffer,0)", "Set(buffer,5)", "Set long", "CopyFrom other", "CopyFrom itself", "construct from C string", "decode", "Set(own Get())", "Set string with NUL, other end", "Set(buffer,5), other end", "decode empty", "Set long, other end", "decode long", "CopyFrom empty", "copy-construct"};
    if (desc) return std::string(t[op]) + "; ";
    switch (op) {
        case 0: v->Set(std::string()); m = ""; break;
        case 1: m = std::string("\0a\0", 3); v->Set(m); break;
        case 2: { char* b = new char[1]; v->Set(b, 0); delete[] b; m = ""; break; }
        case 3: { char* b = new char[5]; memcpy(b, "b\0\xff\n.", 5); v->Set(b, 5); m = std::string(b, 5); memset(b, 'X', 5); delete[] b; break; }
        case 4: m = std::string(1000, '\x80'); v->Set(m); break;
        case 5: { ValueStr o(std::string("o\0p", 3)); v->CopyFrom(&o); o.Set(std::string("zzz")); m = std::string("o\0p", 3); break; }
        case 6: v->CopyFrom(v); break;
        case 7: delete v; v = new ValueStr("c-string"); m = "c-string"; break;
        case 8: { std::string e = wf::vstr(std::string("\0d", 2)); CHECK(v->Deserialize(e.data(), e.size()) == e.size(), "decode"); m = std::string("\0d", 2); break; }
        case 9: v->Set(v->Get()); break;
        case 10: m = std::string("\0a\1", 3); v->Set(m); break;
        case 11: { char* b = new char[5]; memcpy(b, "b\0\xff\n,", 5); v->Set(b, 5); m = std::string(b, 5); delete[] b; break; }
        case 12: { std::string e = wf::vstr(""); CHECK(v->Deserialize(e.data(), e.size()) == e.size(), "decode"); m = ""; break; }
        case 13: m = std::string(999, '\x80') + "e"; v->Set(m); break;
        case 14: { m = std::string(300, 'L'); std::string e = wf::vstr(m); CHECK(v->Deserialize(e.data(), e.size()) == e.size(), "decode"); break; }
        case 15: { ValueStr o; v->CopyFrom(&o); m = ""; break; }
        case 16: { ValueStr* o = new ValueStr(*v); delete v; v = o; break; }
    }
    return "";
}
static bool rule(const std::string& n) {
    if (n.size() < 1 || n.size() > 32) return false;
    for (unsigned char c : n) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-')) return false;
    return true;
}
static int depth_req, depth_copy, depth_val;

static int r1 = [] {
    { auto& s = add_space("arg_sequences", "C05", "every sequence of up to 5 (quick 4) of 31 argument operations (set copied/stolen/by reference/emplaced/itself, delete, rename, change in place) on 3 names, compared with an ordered map after each");
      s.prepare = [](bool th) { depth_req = th ? 5 : 4; }; s.size = [](bool th) { return seq_count(AOPS, th ? 5 : 4); };
      s.run = [](u64 i) { Request* r = new Request("start"); Req m; m.name = "start"; auto q = seq_at(AOPS, i); for (int op : q) { arg_op(r, m, op, false); same(r, m, "the request"); } reads(r, m); CHECK(ref::ser(r) == ref::enc(m), "encoding differs"); delete r; count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { std::string d; Req m; for (int op : seq_at(AOPS, i)) d += arg_op(nullptr, m, op, true); return d; }; }
    { auto& s = add_space("arg_sequences_deep", "C05", "every sequence of up to 8 (quick 7) of 9 operations on 2 names");
      static const int sub[] = {0, 3, 5, 7, 9 + 2, 9 + 5, 9 + 4, 27, 8};
      s.size = [](bool th) { return seq_count(9, th ? 8 : 7); };
      s.run = [](u64 i) { Request* r = new Request(""); Req m; auto q = seq_at(9, i); for (int op : q) arg_op(r, m, sub[op], false); same(r, m, "the request"); reads(r, m); delete r; count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { std::string d; Req m; for (int op : seq_at(9, i)) d += arg_op(nullptr, m, sub[op], true); return d; }; }
    { auto& s = add_space("name_and_id", "C05", "request names of every length up to 600 and around 65535 with three fillings, each after each of 5 earlier names and ids, through constructor, setter, copy and decoding");
      s.size = [](bool) { return (u64)(601 + 24) * 3 * 5; };
      s.run = [](u64 i) {
          Digits d(i); int fill = d.take(3), before = d.take(5); u64 n = d.v <= 600 ? d.v : 65535 - (d.v - 601);
          static const u32 ids[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x01020304, 0xff00ff00u}; u32 id = ids[i % 7];
          std::string m(n, fill == 0 ? 'n' : fill == 1 ? '\0' : '\xff'); if (n) m[n - 1] = 'e';
          static const std::string B[] = {"", "x", std::string("\0", 1), std::string(70, 'q'), std::string(65535, 'w')};
          Request a(m), b(B[before]); CHECK(a.GetName() == m, "constructed with a name of %zu bytes, reads %zu", m.size(), a.GetName().size()); CHECK(b.GetName() == B[before], "earlier name"); CHECK(a.GetId() == 0, "id of a new request");
          b.SetId(~id); b.SetName(m); CHECK(b.GetName() == m, "set to a name of %zu bytes, reads %zu", m.size(), b.GetName().size()); CHECK(b.GetId() == ~id, "id"); b.SetId(id); CHECK(b.GetId() == id, "id set to %u reads %u", id, b.GetId()); CHECK(b.GetName() == m, "name after setting the id");
          CHECK(b.GetSize() == 10 + m.size(), "size %u", b.GetSize()); Request c(B[before]); c.CopyFrom(&b); CHECK(c.GetName() == m && c.GetId() == id, "copied");
          std::string e = wf::req(id, m); Request x(B[before]); x.SetId(7); CHECK(x.Deserialize(e.data(), e.size()) == e.size() && x.GetName() == m && x.GetId() == id, "decoded"); b.SetName(B[before]); CHECK(b.GetName() == B[before] && c.GetName() == m, "set back");
          count_state(e); count_trans(8); count_trace(); };
      s.describe = [](u64 i) { return "case " + std::to_string(i); }; }
    { auto& s = add_space("arg_many", "C05", "0..400 arguments set, then every third overwritten and every fourth deleted: order and lookup");
      s.size = [](bool) { return (u64)401; };
      s.run = [](u64 n) { Request* r = new Request(""); Req m; for (u64 k = 0; k < n; k++) { std::string nm = "n" + std::to_string(k); r->Set(nm, new Value64U(k), false); mset(m, nm, ref::integer(2, k)); } for (u64 k = 0; k < n; k += 3) { std::string nm = "n" + std::to_string(k); r->Emplace<ValueStr>(nm, ValueStr(nm)); mset(m, nm, ref::str(nm)); } for (u64 k = 0; k < n; k += 4) { std::string nm = "n" + std::to_string(k); r->Set(nm, (Value*)0); mdel(m, nm); } same(r, m, "the request"); delete r; count_trans(n * 2); count_trace(); };
      s.describe = [](u64 i) { return std::to_string(i) + " arguments"; }; }
    { auto& s = add_space("copy_requests", "C06", "every sequence of up to 4 (quick 3) of 39 operations over a pool of 3 requests: CopyFrom / assignment / by-value copies in every direction, self copies, decoding duplicates and undefined values, changes, destruction; all three compared with models after each");
      s.size = [](bool th) { return seq_count(COPS, th ? 4 : 3) * 2; };
      s.run = [](u64 i) { RPool p; copy_op(p, 21 + 1, false); if (i & 1) copy_op(p, 21 + 6 + 5, false); auto q = seq_at(COPS, i / 2); for (int op : q) { copy_op(p, op, false); for (int k = 0; k < RQ; k++) same(p.r[k], p.m[k], k == 0 ? "request 0" : k == 1 ? "request 1" : "request 2"); } count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { RPool p; std::string d = i & 1 ? "(1 holds an array) " : ""; for (int op : seq_at(COPS, i / 2)) d += copy_op(p, op, true); return d; }; }
    { auto& s = add_space("value_sequences", "C06 C07", "every sequence of up to 4 (quick 3) of 50 operations over two arrays, a string, an undefined value and an integer, from empty, filled and nested arrays: push, replace, copy, self copy, own elements, an array into its own part and back, resize, clear, out of range");
      s.size = [](bool th) { return seq_count(VOPS, th ? 4 : 3) * 3; };
      s.run = [](u64 i) { VPool p; if (i % 3 == 1) { val_op(p, 2, false); val_op(p, 3, false); val_op(p, 5 + 2, false); } if (i % 3 == 2) { nested_start(p); same_vals(p); } auto q = seq_at(VOPS, i / 3); for (int op : q) { val_op(p, op, false); same_vals(p); } count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { VPool p; std::string d = i % 3 == 1 ? "(arrays filled) " : i % 3 ? "(arrays nested) " : ""; for (int op : seq_at(VOPS, i / 3)) d += val_op(p, op, true); return d; }; }
    { auto& s = add_space("copy_sizes", "C06 C07", "strings, undefined values, arrays and requests holding 0..300, around 65536 and 100000 elements (strings also around 2^24): copied onto empty, smaller and larger objects, then the original changed and destroyed");
      static std::vector<u64> L; s.prepare = [](bool) { L.clear(); for (u64 i = 0; i <= 300; i++) L.push_back(i); for (u64 i : {1000, 65534, 65535, 65536, 65537, 100000}) L.push_back(i); for (u64 i : {16777215, 16777216, 16777217}) L.push_back(i); };
      s.size = [](bool) { return (u64)L.size() * 4 * 3; };
      s.run = [](u64 i) {
          Digits g(i); u64 n = L[g.take(L.size())]; int kind = g.take(4), onto = g.take(3); if (n > 100000 && kind > 1) return; if (n > 5000 && n < 60000) return;
          u64 size[3] = {0, n / 2 + 1, n + 7};
          if (kind == 3) {
              auto bytes = [](u64 k) { std::string e; for (u64 j = 0; j < k; j++) e += wf::datum(std::to_string(j), wf::val(7, std::string(1, (char)j))); return wf::le(11 + e.size(), 4) + wf::le(4, 4) + wf::le(1, 2) + "r" + e; };
              std::string e = bytes(n), o = bytes(size[onto]); Request* r = new Request(); CHECK(r->Deserialize((char*)e.data(), e.size()) == e.size(), "decoding a request with %llu arguments", (unsigned long long)n);
              Request c("x"); if (onto) CHECK(c.Deserialize((char*)o.data(), o.size()) == o.size(), "decode"); c.CopyFrom(r); for (Datum* d : r->GetArguments()) ((Value8U*)d->GetValue())->Set(255); delete r; count_state(e);
              CHECK(c.GetArguments().size() == n && c.GetSize() == e.size() && ref::ser(&c) == e, "the copy of a request with %llu arguments differs", (unsigned long long)n);
          } else {
              auto val = [kind](u64 k) { return kind == 0 ? ref::str(std::string(k, 'q')) : kind == 1 ? ref::undef(std::string(k, 'w')) : ref::arr(std::vector<Val>(k, ref::integer(7, k))); };
              Val v = val(n); std::string e = ref::enc(v); Value* o = ref::build(v); Value* c = ref::build(onto ? val(size[onto]) : val(0)); c->CopyFrom(o);
              if (kind == 0) ((ValueStr*)o)->Set(std::string(n, 'z')); if (kind == 2) for (u64 k = 0; k < n; k++) ((Value8U*)((ValueArr*)o)->Get(k))->Set(0); delete o; count_state(e);
              CHECK(c->GetSize() == e.size() && ref::ser(c) == e, "the copy of a value with %llu elements differs", (unsigned long long)n); delete c;
          }
          count_trans(3); count_trace(); };
      s.describe = [](u64 i) { Digits g(i); u64 n = L[g.take(L.size())]; int kind = g.take(4); return std::to_string(n) + (kind == 0 ? " byte string" : kind == 1 ? " byte undefined value" : kind == 2 ? " element array" : " argument request"); }; }
    { auto& s = add_space("datum_copies", "C06 C08", "arguments: every sequence of up to 5 of 11 operations over two arguments (set copied, stolen, null, itself, a part of itself, rename, copy, assign, decode)");
      s.size = [](bool th) { return seq_count(11, th ? 6 : 5); };
      s.run = [](u64 i) {
          Datum* d[2] = {new Datum(), new Datum()}; Arg m[2]; auto q = seq_at(11, i);
          for (int op : q) {
              switch (op) {
                  case 0: { ValueStr v("c"); d[0]->SetValue(&v); v.Set(std::string("no")); m[0].v = ref::str("c"); break; }
                  case 1: d[1]->SetValue(new Value16S(-2), false); m[1].v = ref::integer(5, 0xfffe); break;
                  case 2: d[0]->SetValue(0); m[0].v = ref::undef(); break;
                  case 3: d[0]->SetValue(d[0]->GetValue(), true); break;
                  case 4: d[1]->SetValue(d[1]->GetValue(), false); break;
                  case 5: d[0]->SetName("n1"); m[0].name = "n1"; break;
                  case 6: d[1]->SetValue(d[0]->GetValue(), true); m[1].v = Val(m[0].v); break;
                  case 7: { if (assign(*d[0], *d[1])) { Arg x = m[1]; m[0] = x; } assign(*d[1], *d[1]); break; }
                  case 8: { Datum* n = new Datum(byval(*d[0])); delete d[1]; d[1] = n; Arg x = m[0]; m[1] = x; break; }
                  case 10: if (d[0]->GetType() == 10) if (Value* e = ((ValueArr*)d[0]->GetValue())->Get(0)) { Val x = m[0].v.a[0]; d[0]->SetValue(e); m[0].v = x; } break;
                  case 9: { Arg x{"dec", ref::arr({ref::undef("w")})}; std::string e = ref::enc(x); CHECK(d[0]->Deserialize(e.data(), e.size()) == e.size(), "decode"); m[0] = x; break; }
              }
              count_state(ref::enc(m[0]) + ref::enc(m[1]));
              for (int k = 0; k < 2; k++) { Arg g = ref::read(d[k]); CHECK(g == m[k], "argument %d holds %s, should hold %s", k, ref::show(g).c_str(), ref::show(m[k]).c_str()); CHECK(d[k]->GetValid() == rule(m[k].name), "validity of '%s'", m[k].name.c_str()); CHECK(d[k]->GetType() == m[k].v.type, "type"); }
          }
          delete d[0]; delete d[1]; count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { std::string d; for (int op : seq_at(11, i)) d += std::to_string(op) + " "; return "operations " + d; }; }
    { auto& s = add_space("integers", "C07", "every 8 and 16 bit value and all byte-class patterns of wider ones through constructor, setter, getter, conversion, copy");
      s.prepare = [](bool th) { if (!ints.empty()) return; for (int t = 1; t <= 8; t++) { int w = ref::width(t); if (w <= 2) for (u64 v = 0; v < (1ull << (8 * w)); v++) ints.push_back({t, v}); else { static const u8 b[] = {0x00, 0xff, 0x7f, 0x80, 0x01}; u64 k = w == 8 && !th ? 3 : 5; for (u64 i = 0; i < ipow(k, w); i++) { u64 v = 0, x = i; for (int j = 0; j < w; j++) { v = v << 8 | b[x % k]; x /= k; } ints.push_back({t, v}); } for (int j = 0; j < 8 * w; j++) { ints.push_back({t, 1ull << j}); ints.push_back({t, (1ull << j) - 1}); } } } };
      s.size = [](bool) { return (u64)ints.size(); };
      s.run = [](u64 i) { u64 v = ints[i].second; switch (ints[i].first) { case 1: int_case<Value64S, int64_t>(1, v); break; case 2: int_case<Value64U, uint64_t>(2, v); break; case 3: int_case<Value32S, int32_t>(3, v); break; case 4: int_case<Value32U, uint32_t>(4, v); break; case 5: int_case<Value16S, int16_t>(5, v); break; case 6: int_case<Value16U, uint16_t>(6, v); break; case 7: int_case<Value8U, uint8_t>(7, v); break; case 8: int_case<Value8S, int8_t>(8, v); break; } };
      s.describe = [](u64 i) { return "type " + std::to_string(ints[i].first) + " value " + std::to_string(ints[i].second); }; }
    { auto& s = add_space("string_sequences", "C07", "every sequence of up to 5 (quick 4) of 17 operations on a string value");
      s.size = [](bool th) { return seq_count(SOPS, th ? 5 : 4); };
      s.run = [](u64 i) { ValueStr* v = new ValueStr(); std::string m; auto q = seq_at(SOPS, i); for (int op : q) { str_op(v, m, op, false); count_state(m); CHECK(v->Get() == m, "reads %s, stored %s", ref::hex(v->Get()).c_str(), ref::hex(m).c_str()); std::string c = *v; CHECK(c == m, "converts to %s", ref::hex(c).c_str()); CHECK(v->GetSize() == 9 + m.size(), "size %u", v->GetSize()); CHECK(ref::ser(v) == wf::vstr(m), "encoding"); } delete v; count_trans(q.size()); count_trace(); };
      s.describe = [](u64 i) { std::string d, m; ValueStr* v = nullptr; for (int op : seq_at(SOPS, i)) d += str_op(v, m, op, true); return d; }; }
    { auto& s = add_space("string_bytes", "C07", "every string of up to 2 bytes (65793) and every C string of up to 1 byte");
      s.size = [](bool) { return (u64)1 + 256 + 65536; };
      s.run = [](u64 i) { std::string m; if (i >= 257) { u64 k = i - 257; m = std::string(1, (char)(k >> 8)) + (char)k; } else if (i) m = std::string(1, (char)(i - 1)); count_state(m); ValueStr a(m); CHECK(a.Get() == m, "constructed"); ValueStr b; b.Set(m); CHECK(b.Get() == m, "set"); ValueStr c; c.Set(m.data(), m.size()); CHECK(c.Get() == m, "set from buffer"); ValueStr d(m.c_str()); CHECK(d.Get() == std::string(m.c_str()), "from C string"); ValueStr e; e.CopyFrom(&a); CHECK(e.Get() == m, "copied"); count_trans(5); count_trace(); };
      s.describe = [](u64 i) { return "string " + std::to_string(i); }; }
    { auto& s = add_space("array_sizes", "C07", "New(n) for every n up to 3000 and around 65536, then replacing first and last, pushing, clearing");
      s.size = [](bool) { return (u64)3001 + 5; };
      s.run = [](u64 n) { if (n > 3000) n = 65534 + (n - 3001); count_state(&n, 8); ValueArr a; Value8U x(9); a.Push(&x); a.New(n); CHECK(a.GetCount() == n, "count %u", a.GetCount()); for (u64 k = 0; k < n; k++) CHECK(a.Get(k) && a.Get(k)->GetType() == 0 && a.Get(k)->GetSize() == 5, "element %llu of a new array", (unsigned long long)k); CHECK(!a.Get(n), "past the end"); CHECK(a.Set(0, &x) == (n > 0) && (n == 0 || a.Set(n - 1, &x)), "replace"); CHECK(!a.Set(n, &x), "replace past the end"); a.Push(&x); CHECK(a.GetCount() == n + 1 && a.Get(n)->GetType() == 7, "push"); a.Clear(); CHECK(a.GetCount() == 0 && !a.Get(0), "clear"); count_trans(6); count_trace(); };
      s.describe = [](u64 i) { return "New(" + std::to_string(i) + ")"; }; }
    { auto& s = add_space("names_short", "C08", "every name of up to 2 bytes");
      s.size = [](bool) { return (u64)1 + 256 + 65536; };
      s.run = [](u64 i) { std::string m; if (i >= 257) { u64 k = i - 257; m = std::string(1, (char)(k >> 8)) + (char)k; } else if (i) m = std::string(1, (char)(i - 1)); count_state(m); Datum d; d.SetName(m); CHECK(d.GetName() == m, "name"); CHECK(d.GetValid() == rule(m), "validity of name %s reported as %d", ref::hex(m).c_str(), d.GetValid()); count_trans(1); count_trace(); };
      s.describe = [](u64 i) { return "name " + std::to_string(i); }; }
    { auto& s = add_space("names_long", "C08", "names of 3..40 bytes with any one byte at any position, two backgrounds, also 255, 256, 65535, 65568 bytes");
      static std::vector<int> L; s.prepare = [](bool) { L.clear(); for (int i = 3; i <= 40; i++) L.push_back(i); };
      s.size = [](bool) { return (u64)2 * 256 * 38 * 40 + 8; };
      s.run = [](u64 i) {
          std::string m; Digits d(i); char bg = d.take(2) ? '-' : 'q'; u64 c = d.take(256), l = d.take(38), p = d.v;
          if (p >= 40) { static const int big[] = {255, 256, 65535, 65568}; m = std::string(big[i % 4], bg); }
          else { if (p >= l + 3) return; m = std::string(l + 3, bg); m[p] = (char)c; }
          count_state(m); Datum x; x.SetName(m); bool before = x.GetValid(); x.SetValue(new Value8U(1), false); CHECK(before == rule(m) && x.GetValid() == rule(m), "validity of a %zu byte name with byte %02x at %llu reported as %d", m.size(), (unsigned)c, (unsigned long long)p, x.GetValid());
          Datum y(byval(x)); CHECK(y.GetValid() == rule(m), "copy"); count_trans(3); count_trace(); };
      s.describe = [](u64 i) { return "case " + std::to_string(i); }; }
    { auto& s = add_space("argument_types", "C08", "type reported after every pair of value types set in turn (copied, stolen, null, decoded)");
      s.size = [](bool) { return (u64)12 * 12 * 4 * 4; };
      s.run = [](u64 i) {
          Digits g(i); int t[2] = {(int)g.take(12), (int)g.take(12)}, h[2] = {(int)g.take(4), (int)g.take(4)}; Datum d; d.SetName("n"); CHECK(d.GetType() == 0 && d.GetValid(), "a new argument has type %d", d.GetType());
          for (int k = 0; k < 2; k++) {
              Val v; if (t[k] <= 8 && t[k] > 0) v = ref::integer(t[k], 3); else if (t[k] == 9) v = ref::str("q"); else if (t[k] == 10) v = ref::arr({ref::str("z")}); else v = ref::undef("w");
              if (t[k] == 11 || h[k] == 2) { d.SetValue(0, h[k] & 1); v = ref::undef(); }
              else if (h[k] == 0) { Value* x = ref::build(v); d.SetValue(x); delete x; } else if (h[k] == 1) d.SetValue(ref::build(v), false);
              else { std::string e = ref::enc(Arg{"n", v}); CHECK(d.Deserialize(e.data(), e.size()) == e.size(), "decode"); }
              CHECK(d.GetType() == v.type && d.GetValue() && d.GetValue()->GetType() == v.type, "type %d after setting type %d", d.GetType(), v.type); count_state(ref::enc(v)); CHECK(ref::read(d.GetValue()) == v, "value"); CHECK(d.GetValid(), "valid");
          }
          count_trans(2); count_trace(); };
      s.describe = [](u64 i) { return "case " + std::to_string(i); }; }
    return 0;
}();
