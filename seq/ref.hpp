// Reference model of the data types: what the library's objects must contain, written independently of the library.
#pragma once
#include "seq.hpp"
#include "common/wirefmt.hpp"
#include "Request.hpp"
#include "values/All.hpp"
#include "values/CreateValue.hpp"
#include <memory>
#include <cstring>
#include <algorithm>
using namespace DowowNetwork;

namespace ref {
inline int width(int t) { static const int w[] = {0, 8, 8, 4, 4, 2, 2, 1, 1}; return w[t]; }
struct Val {
    int type = 0;
    std::string s;            // content of an integer (little endian, exact width), a string or an undefined value
    std::vector<Val> a;
    bool operator==(const Val& o) const { return type == o.type && s == o.s && a == o.a; }
    bool operator!=(const Val& o) const { return !(*this == o); }
};
inline Val integer(int t, u64 v) { Val r; r.type = t; r.s = wf::le(v, width(t)); return r; }
inline Val str(const std::string& s) { Val r; r.type = 9; r.s = s; return r; }
inline Val undef(const std::string& s = "") { Val r; r.s = s; return r; }
inline Val arr(const std::vector<Val>& v) { Val r; r.type = 10; r.a = v; return r; }
inline std::string enc(const Val& v) {
    if (v.type == 9) return wf::vstr(v.s);
    if (v.type == 10) { std::vector<std::string> e; for (auto& x : v.a) e.push_back(enc(x)); return wf::varr(e); }
    return wf::val(v.type, v.s);
}
struct Arg { std::string name; Val v; bool operator==(const Arg& o) const { return name == o.name && v == o.v; } };
struct Req {
    u32 id = 0; std::string name; std::vector<Arg> args;
    bool operator==(const Req& o) const { return id == o.id && name == o.name && args == o.args; }
};
inline std::string enc(const Arg& a) { return wf::datum(a.name, enc(a.v)); }
inline std::string enc(const Req& r) {
    std::vector<std::pair<std::string, std::string>> a; for (auto& x : r.args) a.push_back({x.name, enc(x.v)});
    return wf::req(r.id, r.name, a);
}

// --- strict decoder of the documented format. Returns bytes used, 0 when p[0..n) does not begin with a well-formed encoding
inline u64 get(const u8* p, int n) { u64 v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
inline u64 dec(const u8* p, u64 n, Val& out) {
    if (n < 5 || p[0] > 10) return 0;
    u64 len = get(p + 1, 4);
    if (len > n - 5) return 0;
    const u8* c = p + 5; int t = p[0];
    Val v; v.type = t;
    if (t == 0) v.s.assign((const char*)c, len);
    else if (t <= 8) { if (len != (u64)width(t)) return 0; v.s.assign((const char*)c, len); }
    else if (t == 9) { if (len < 4 || get(c, 4) != len - 4) return 0; v.s.assign((const char*)c + 4, len - 4); }
    else {
        if (len < 4) return 0;
        u64 cnt = get(c, 4), i = 4;
        if (cnt > len) return 0;
        for (u64 k = 0; k < cnt; k++) { Val e; u64 u = dec(c + i, len - i, e); if (!u) return 0; i += u; v.a.push_back(std::move(e)); }
        if (i != len) return 0;
    }
    out = std::move(v);
    return 5 + len;
}
inline u64 dec(const u8* p, u64 n, Arg& out) {
    if (n < 6) return 0;
    u64 tot = get(p, 4), nl = get(p + 4, 2);
    if (tot > n || tot < 6 + nl + 5) return 0;
    Arg a; a.name.assign((const char*)p + 6, nl);
    if (dec(p + 6 + nl, tot - 6 - nl, a.v) != tot - 6 - nl) return 0;
    out = std::move(a);
    return tot;
}
inline u64 dec(const u8* p, u64 n, Req& out) {
    if (n < 10) return 0;
    u64 tot = get(p, 4), nl = get(p + 8, 2);
    if (tot > n || tot < 10 + nl) return 0;
    Req r; r.id = get(p + 4, 4); r.name.assign((const char*)p + 10, nl);
    u64 i = 10 + nl;
    while (i < tot) { Arg a; u64 u = dec(p + i, tot - i, a); if (!u) return 0; i += u; r.args.push_back(std::move(a)); }
    out = std::move(r);
    return tot;
}

// --- between the model and real objects
template <class V, class T> inline Val scal(const Value* v, int t) { return integer(t, (u64)(T)static_cast<const V*>(v)->Get()); }
inline std::string take(const char* b, u32 n) { std::string s(b, n); delete[] b; return s; }
inline std::string ser(const Value* v) { return take(v->Serialize(), v->GetSize()); }
inline std::string ser(Datum* v) { return take(v->Serialize(), v->GetSize()); }
inline std::string ser(const Request* v) { return take(v->Serialize(), v->GetSize()); }

// reads an object back through its public accessors
inline Val read(Value* v) {
    switch (v->GetType()) {
        case 1: return scal<Value64S, int64_t>(v, 1);
        case 2: return scal<Value64U, uint64_t>(v, 2);
        case 3: return scal<Value32S, int32_t>(v, 3);
        case 4: return scal<Value32U, uint32_t>(v, 4);
        case 5: return scal<Value16S, int16_t>(v, 5);
        case 6: return scal<Value16U, uint16_t>(v, 6);
        case 7: return scal<Value8U, uint8_t>(v, 7);
        case 8: return scal<Value8S, int8_t>(v, 8);
        case 9: return str(static_cast<ValueStr*>(v)->Get());
        case 10: {
            Val r; r.type = 10; auto* a = static_cast<ValueArr*>(v); u32 n = a->GetCount();
            for (u32 i = 0; i < n; i++) { Value* e = a->Get(i); CHECK(e, "element %u of %u of an array reads as null", i, n); r.a.push_back(read(e)); }
            return r;
        }
    }
    // undefined values have no accessor but their encoding
    std::string s = ser(v);
    CHECK(s.size() >= 5 && s[0] == 0, "undefined value encodes to %zu bytes", s.size());
    return undef(s.substr(5));
}
inline Arg read(Datum* d) { Arg a; a.name = d->GetName(); CHECK(d->GetValue(), "an argument has no value"); a.v = read(d->GetValue()); CHECK(d->GetType() == a.v.type, "argument type %d, value type %d", d->GetType(), a.v.type); return a; }
inline Req read(const Request* r) {
    Req q; q.id = r->GetId(); q.name = r->GetName();
    for (Datum* d : r->GetArguments()) q.args.push_back(read(d));
    return q;
}
// builds a real object through the public API; the caller owns it
inline Value* build(const Val& v) {
    u64 n = v.type >= 1 && v.type <= 8 ? wf::rd(v.s, 0, v.s.size()) : 0;
    switch (v.type) {
        case 1: return new Value64S((int64_t)n); case 2: return new Value64U(n); case 3: return new Value32S((int32_t)n); case 4: return new Value32U(n);
        case 5: return new Value16S((int16_t)n); case 6: return new Value16U(n); case 7: return new Value8U(n); case 8: return new Value8S((int8_t)n);
        case 9: return new ValueStr(v.s);
        case 10: { auto* a = new ValueArr(); for (auto& e : v.a) { Value* x = build(e); a->Push(x); delete x; } return a; }
    }
    auto* u = new ValueUndefined();
    if (!v.s.empty()) { std::string e = enc(v); u64 r = u->Deserialize(e.data(), e.size()); CHECK(r == e.size(), "decoding an undefined value of %zu bytes returned %llu", v.s.size(), (unsigned long long)r); }
    return u;
}
inline Request* build(const Req& q) {   // argument names have to be distinct
    auto* r = new Request(q.name); r->SetId(q.id);
    for (auto& a : q.args) r->Set(a.name, build(a.v), false);
    return r;
}
inline std::string hex(const std::string& s, size_t max = 120) {
    std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (u8)s[i]); o += b; }
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}
inline std::string show(const Val& v) { return hex(enc(v)); }
inline std::string show(const Req& v) { return hex(enc(v)); }
inline std::string show(const Arg& v) { return hex(enc(v)); }
// an exactly sized heap copy, so that the sanitizer sees any read outside it
struct Buf {
    char* p; u32 n;
    explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p, s.data(), n); }
    ~Buf() { delete[] p; }
};
}
