// Depth-first exploration of all schedules and environment choices within a deviation bound.
#include "rt_int.hpp"
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <sys/resource.h>

namespace sim {

static std::vector<Scenario*>& all() { static std::vector<Scenario*> v; return v; }
Scenario& add(const std::string& name, const std::string& props, std::function<void()> body) {
    auto* s = new Scenario(); s->name = name; s->props = props; s->body = body; all().push_back(s); return *s;
}

// visited: open addressing, key -> least budget used on arrival
static std::vector<u64> vk; static std::vector<uint8_t> vu; static size_t vn;
static void v_reset() { vk.assign(1 << 16, 0); vu.assign(1 << 16, 0); vn = 0; }
static void v_grow() {
    std::vector<u64> ok; std::vector<uint8_t> ou; ok.swap(vk); ou.swap(vu);
    vk.assign(ok.size() * 2, 0); vu.assign(ok.size() * 2, 0);
    for (size_t i = 0; i < ok.size(); i++) if (ok[i]) {
        size_t j = ok[i] & (vk.size() - 1); while (vk[j]) j = (j + 1) & (vk.size() - 1);
        vk[j] = ok[i]; vu[j] = ou[i];
    }
}
static bool visit(u64 key, int used) {
    if (!key) key = 1;
    if (vn * 2 > vk.size()) v_grow();
    size_t j = key & (vk.size() - 1);
    while (vk[j] && vk[j] != key) j = (j + 1) & (vk.size() - 1);
    if (vk[j]) { if (vu[j] <= used) return true; vu[j] = used; return false; }
    vk[j] = key; vu[j] = used; vn++;
    return false;
}

struct Report {
    int bound_done = -1; bool finished = false; u64 execs = 0, pruned = 0, states = 0, transitions = 0, steps = 0;
    std::map<std::string, u64> outcomes;
    unsigned vkind = 0; std::string vmsg; std::vector<std::string> vhist; std::vector<uint8_t> vsched;
    size_t max_choices = 0; int restarts = 0; bool harness = false; double secs = 0;
    std::set<u64> ends;
    std::string known_hits;
};
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static bool next_prefix() {
    auto& ch = *g_choices; auto& p = *g_prefix;
    for (size_t i = ch.size(); i-- > 0;) {
        for (int c = ch[i].chosen + 1; c < ch[i].n; c++) if (ch[i].used_before + ch[i].costs[c] <= g_bound) {
            p.resize(i + 1);
            for (size_t k = 0; k < i; k++) p[k] = ch[k].chosen;
            p[i] = c;
            return true;
        }
    }
    return false;
}
static std::vector<uint8_t> chosen_list() { std::vector<uint8_t> v; for (auto& c : *g_choices) v.push_back(c.chosen); return v; }
static void run_prefix(const std::vector<uint8_t>& p, ExecResult& r) { *g_prefix = p; run_execution(r); }

static std::vector<std::string> g_known;      // known findings of this scenario: message prefixes
static bool is_known(const std::string& m) { for (auto& k : g_known) if (m.compare(0, k.size(), k) == 0) return true; return false; }

static void explore(Report& rep, int bound, double until) {
    for (int b = 0; b <= bound; b++) {
    again:
        g_bound = b; v_reset(); g_prefix->clear(); g_visit = visit;
        bool more = true; u64 ex = 0, pr = 0, tr0 = g_transitions, st = 0; size_t mc = 0;
        std::map<std::string, u64> oc; std::set<u64> ends;
        while (more) {
            ExecResult r;
            run_execution(r);
            ex++; pr += r.pruned; st += r.steps; mc = std::max(mc, g_choices->size());
            if (!new_racy->empty()) {
                for (u32 p : *new_racy) racy_pcs->insert(p);
                new_racy->clear();
                rep.restarts++;
                if (rep.restarts < 200) { if (wall() > until) goto out; goto again; }
            }
            if (r.vkind && is_known(r.vmsg)) { rep.known_hits = r.vmsg; r.vkind = 0; oc["known finding"]++; }
            if (r.vkind) {
                auto sched = chosen_list();
                g_visit = nullptr;
                // replayed twice before it is believed
                for (int k = 0; k < 2; k++) {
                    ExecResult q; run_prefix(sched, q);
                    if (!q.vkind || q.vkind == K_HARNESS) {           // (uninitialised memory may make it fail differently)
                        rep.harness = true; rep.vmsg = "not reproducible: " + r.vmsg + " / " + q.vmsg; rep.vkind = K_HARNESS; goto out;
                    }
                }
                rep.vkind = r.vkind; rep.vmsg = r.vmsg; rep.vhist = r.hist; rep.vsched = sched;
                if (r.vkind == K_HARNESS) rep.harness = true;
                goto out;
            }
            if (!r.pruned) { oc[r.outcome]++; ends.insert(r.endhash); }
            more = next_prefix();
            if (more && (ex & 63) == 0 && wall() > until) goto out;
            continue;
        out:
            rep.execs += ex; rep.pruned += pr; rep.transitions += g_transitions - tr0; rep.steps += st;
            rep.states = std::max<u64>(rep.states, vn);
            rep.max_choices = std::max(rep.max_choices, mc);
            for (auto& o : oc) rep.outcomes[o.first] = std::max(rep.outcomes[o.first], o.second);
            return;
        }
        rep.execs += ex; rep.pruned += pr; rep.transitions += g_transitions - tr0; rep.steps += st;
        rep.states = std::max<u64>(rep.states, vn);
        rep.max_choices = std::max(rep.max_choices, mc);
        rep.outcomes = oc; rep.ends = ends; rep.bound_done = b;
    }
    rep.finished = true;
}

static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static const char* kind_name(unsigned k) {
    switch (k) {
        case K_PROP: return "property"; case K_CRASH: return "crash"; case K_MEM: return "memory"; case K_DEADLOCK: return "deadlock";
        case K_LIVELOCK: return "livelock"; case K_HANG: return "hang"; case K_THREAD: return "thread"; case K_SIGPIPE: return "sigpipe";
        case K_LEAK: return "leak"; case K_FD: return "descriptor"; case K_RACE: return "race"; case K_HARNESS: return "harness";
    }
    return "none";
}

int conformance(int depth);
}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
    std::string name, out, replay, rout; int bound = -1, conform = 0; unsigned mask = 0; double secs = 60; bool list = false, trace = false, thorough = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--run") name = nx(); else if (a == "--bound") bound = atoi(nx().c_str()); else if (a == "--mask") mask = strtoul(nx().c_str(), 0, 0);
        else if (a == "--time") secs = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--replay-out") rout = nx(); else if (a == "--list") list = true; else if (a == "--trace") trace = true;
        else if (a == "--thorough") thorough = true; else if (a == "--conform") conform = atoi(nx().c_str()); else if (a == "--known") g_known.push_back(nx());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (list) {
        for (auto* s : all()) printf("%s\t%s\t%d\t%d\t%d\n", s->name.c_str(), s->props.c_str(), s->bound_quick, s->bound_thorough, (int)s->quick);
        return 0;
    }
    rt_init();
    if (conform) return conformance(conform);
    std::vector<uint8_t> sched;
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "scenario") is >> name;
            else if (k == "mask") is >> mask;
            else if (k == "racy") { u32 p; while (is >> p) racy_pcs->insert(p); }
            else if (k == "schedule") { int c; while (is >> c) sched.push_back(c); }
        }
    }
    g_scn = nullptr;
    for (auto* s : all()) if (s->name == name) g_scn = s;
    if (!g_scn) { fprintf(stderr, "no scenario '%s'\n", name.c_str()); return 2; }
    g_mask = mask ? mask : K_DEFAULT;
    if (!replay.empty()) {
        g_trace = true; g_visit = nullptr;
        ExecResult r; run_prefix(sched, r);
        printf("%s: %s\n", r.vkind ? kind_name(r.vkind) : "no violation", r.vmsg.c_str());
        return r.vkind ? 1 : 0;
    }
    if (bound < 0) bound = thorough ? g_scn->bound_thorough : g_scn->bound_quick;
    double t0 = wall();
    Report rep;
    // the same schedule must give the same execution
    {
        g_visit = nullptr; g_trace = trace;
        ExecResult a, b; run_prefix({}, a); g_trace = false; run_prefix({}, b);
        if (a.endhash != b.endhash || a.hist != b.hist || a.vmsg != b.vmsg) { rep.harness = true; rep.vkind = K_HARNESS; rep.vmsg = "execution is not deterministic"; }
        new_racy->clear();
        if (trace) { printf("%s: %s\n", a.vkind ? kind_name(a.vkind) : "ok", a.vmsg.c_str()); return a.vkind ? 1 : 0; }
    }
    if (!rep.harness) explore(rep, bound, t0 + secs);
    rep.secs = wall() - t0;
    if (rep.vkind && !rout.empty()) {
        std::ofstream f(rout);
        f << "scenario " << name << "\nmask " << g_mask << "\nracy";
        for (u32 p : *racy_pcs) f << " " << p;
        f << "\nschedule"; for (int c : rep.vsched) f << " " << c;
        f << "\n# " << kind_name(rep.vkind) << ": " << rep.vmsg << "\n";
        for (auto& h : rep.vhist) { std::string x = h; for (char& c : x) if (c < 32) c = '.'; f << "# event: " << x << "\n"; }
    }
    std::ostringstream o;
    o << "{\"scenario\":" << js(name) << ",\"bound\":" << bound << ",\"bound_completed\":" << rep.bound_done << ",\"complete\":" << (rep.finished ? "true" : "false")
      << ",\"executions\":" << rep.execs << ",\"pruned\":" << rep.pruned << ",\"states\":" << rep.states << ",\"transitions\":" << rep.steps
      << ",\"decisions\":" << rep.transitions << ",\"max_choices\":" << rep.max_choices << ",\"final_states\":" << rep.ends.size() << ",\"racy_points\":" << racy_pcs->size() << ",\"seconds\":" << rep.secs
      << ",\"known\":" << js(rep.known_hits) << ",\"outcomes\":{";
    bool first = true;
    for (auto& x : rep.outcomes) { o << (first ? "" : ",") << js(x.first) << ":" << x.second; first = false; }
    o << "},\"kind\":" << js(kind_name(rep.vkind)) << ",\"message\":" << js(rep.vmsg) << ",\"harness\":" << (rep.harness ? "true" : "false") << "}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout);
    else { std::ofstream f(out); f << o.str(); }
    return rep.harness ? 2 : rep.vkind ? 1 : 0;
}
