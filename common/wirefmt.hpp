// The wire format, written independently of the library.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <utility>
namespace wf {
inline std::string le(uint64_t v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
inline uint64_t rd(const std::string& s, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t)s[o + i] << (8 * i); return v; }
inline std::string val(int type, const std::string& content) { return std::string(1, (char)type) + le(content.size(), 4) + content; }
inline std::string vint(int type, uint64_t v) { static const int w[] = {0, 8, 8, 4, 4, 2, 2, 1, 1}; return val(type, le(v, w[type])); }
inline std::string vstr(const std::string& s) { return val(9, le(s.size(), 4) + s); }
inline std::string varr(const std::vector<std::string>& v) { std::string c = le(v.size(), 4); for (auto& x : v) c += x; return val(10, c); }
inline std::string vundef(const std::string& raw = "") { return val(0, raw); }
inline std::string datum(const std::string& name, const std::string& value) { return le(6 + name.size() + value.size(), 4) + le(name.size(), 2) + name + value; }
inline std::string req(uint32_t id, const std::string& name, const std::vector<std::pair<std::string, std::string>>& args = {}) {
    std::string b; for (auto& a : args) b += datum(a.first, a.second);
    return le(10 + name.size() + b.size(), 4) + le(id, 4) + le(name.size(), 2) + name + b;
}
inline std::string keepalive(uint32_t id = 0) { return req(id, "_"); }
struct Msg { uint32_t id; std::string name, body, raw; bool ka; };
// splits a byte stream in messages; rest receives the incomplete tail; ok becomes false if it is not a message stream
inline std::vector<Msg> split(const std::string& s, std::string* rest = nullptr, bool* ok = nullptr) {
    std::vector<Msg> v; size_t i = 0;
    if (ok) *ok = true;
    while (s.size() - i >= 4) {
        uint64_t n = rd(s, i, 4);
        if (n < 10) { if (ok) *ok = false; break; }
        if (s.size() - i < n) break;
        Msg m; m.raw = s.substr(i, n); m.id = rd(m.raw, 4, 4); size_t nl = rd(m.raw, 8, 2);
        if (10 + nl > n) { if (ok) *ok = false; break; }
        m.name = m.raw.substr(10, nl); m.body = m.raw.substr(10 + nl); m.ka = m.name == "_";
        v.push_back(m); i += n;
    }
    if (rest) *rest = s.substr(i);
    return v;
}
// messages that are not keep-alives
inline std::vector<Msg> payload(const std::string& s, std::string* rest = nullptr, bool* ok = nullptr) {
    std::vector<Msg> r; for (auto& m : split(s, rest, ok)) if (!m.ka) r.push_back(m);
    return r;
}
inline std::string names(const std::vector<Msg>& v) { std::string s; for (auto& m : v) { if (!s.empty()) s += ' '; s += m.name; } return s; }
}
