#include "explore.h"
#include <cstring>
#include <algorithm>
#include <unistd.h>
#include <cstdlib>
namespace ex {
using std::string; using std::vector;
namespace { string verb(const string &r) { auto t = model::split(r.substr(0, r.find("\r\n"))); if (t.empty()) return "empty"; bool coll = t[0] == "lop" || t[0] == "sop" || t[0] == "mop" || t[0] == "bop"; return coll && t.size() > 1 ? t[0] + "_" + t[1] : t[0]; } }
Lock::Lock(mc::Ctx &x) : ctx(&x) { note = getenv("MC_REPLAY") != nullptr; m.now = sim::now_s(); }
void Lock::connect() { c = sim::connect(); sim::run(); }
void Lock::begin() { hist.clear(); }
void Lock::dump_hist() { for (auto &h : hist) { ctx->note("> " + mc::esc(h.first)); ctx->note("< " + mc::esc(h.second)); } hist.clear(); note = true; }
void Lock::fail(const string &key, const string &msg) { dump_hist(); ctx->fail(key, msg); note = getenv("MC_REPLAY") != nullptr; }
bool Lock::step(const string &cmd) {
    ctx->trans();
    if (cmd[0] == '+') {
        if (note) ctx->note("(clock " + cmd + " s)"); else hist.emplace_back("(clock " + cmd + " s)", "");
        sim::advance_s(atoll(cmd.c_str() + 1)); m.now = sim::now_s(); return true;
    }
    if (cmd[0] == '~') { sim::settle(); m.now = sim::now_s(); return true; }
    string req = m.subst(cmd);
    if (note) ctx->note("> " + req);
    string rep = sim::rpc(c, req);
    if (note) ctx->note("< " + rep); else hist.emplace_back(req, rep);
    string err; m.exec(req, &rep, err); last_req = req; last_rep = rep;
    if (!err.empty()) { fail(string(pre) + ":" + verb(req), "after " + mc::esc(req, 300) + ": " + err); return false; }
    return true;
}
static void reset_model(Lock &l) { model::Model n; n.now = sim::now_s(); n.lim = l.m.lim; n.serial = l.m.serial; l.m = n; }
static void run_one(mc::Ctx &ctx, Lock &l, const Spec &s, const vector<int> &seq, uint64_t base) {
    l.begin(); bool ok = true;
    for (auto &c : s.init) if (ok) ok = l.step(c);
    for (int i : seq) if (ok && !(s.skip && s.skip(l, s.alpha[i]))) ok = l.step(s.alpha[i]);
    if (ok) for (auto &c : s.observe) if (ok && !(s.skip && s.skip(l, c))) ok = l.step(c);
    if (ok && s.check) s.check(l);
    ctx.state(mc::hash(l.m.canon())); ctx.trace();
    if (ctx.case_index() % 9973 == 1 && ok) { string t; for (int i : seq) t += s.alpha[i].substr(0, s.alpha[i].find("\r\n")) + " ; "; ctx.sample(t + " => " + l.last_rep); }
    if (ok) { for (auto &c : s.cleanup) if (!l.step(c)) { ok = false; break; } }
    else for (auto &c : s.cleanup) sim::rpc(l.c, c);
    if (s.leak) {
        sim::settle(); uint64_t n = sim::slab().live_bytes;
        if (n != base) { if (ok) l.fail("leak", mc::fmt("item memory in use after everything was removed: %llu bytes (before: %llu)", (unsigned long long)n, (unsigned long long)base)); }
    }
    if (sim::server_exited()) { l.dump_hist(); ctx.fail("exited", "the server exited"); _exit(0); }
    reset_model(l);
}
static Strs auto_cleanup(const Spec &s) {
    if (!s.cleanup.empty()) return s.cleanup;
    return {};
}
void all_sequences(mc::Ctx &ctx, const Spec &s0) {
    Spec s = s0; s.cleanup = auto_cleanup(s);
    Lock l(ctx); l.connect(); sim::settle();
    uint64_t base = sim::slab().live_bytes;
    ctx.note_bound(mc::fmt("all %d-step sequences over %zu commands after %zu setup commands, %zu observation commands", s.depth, s.alpha.size(), s.init.size(), s.observe.size()));
    for (int d = s.all_lengths ? 1 : s.depth; d <= s.depth; d++) {
        vector<int> seq(d, 0);
        // depth-first with pruning
        std::function<bool(int)> rec = [&](int k) -> bool {
            if (k == d) { if (ctx.mine()) run_one(ctx, l, s, seq, base); return !ctx.out_of_time_fast(); }
            for (size_t i = 0; i < s.alpha.size(); i++) {
                seq[k] = i;
                if (k == 0 && !s.start.empty()) { bool in = false; for (int x : s.start) if (x == (int)i) in = true; if (!in) continue; }
                if (s.keep) { vector<int> p(seq.begin(), seq.begin() + k + 1); if (!s.keep(p)) continue; }
                if (!rec(k + 1)) return false;
            }
            return true;
        };
        if (!rec(0)) return;
    }
}
void bfs(mc::Ctx &ctx, const Spec &s, size_t max_states, int memory) {
    Lock l(ctx); l.connect(); sim::settle();
    uint64_t base = sim::slab().live_bytes;
    struct Node { int parent, cmd, depth; }; vector<Node> nodes; std::set<uint64_t> seen;
    struct Live { int id; model::Model m; }; std::deque<Live> q;
    string err; model::Model m0; m0.now = sim::now_s();
    auto mstep = [&](model::Model &m, const string &c) { if (c[0] == '+') m.now += atoll(c.c_str() + 1); else if (c[0] != '~') m.exec(m.subst(c), nullptr, err); };
    for (auto &c : s.init) mstep(m0, c);
    nodes.push_back({-1, -1, 0}); q.push_back({0, m0}); seen.insert(mc::hash(m0.canon()));
    auto path = [&](int id) { vector<int> p; for (; nodes[id].parent >= 0; id = nodes[id].parent) p.push_back(nodes[id].cmd); std::reverse(p.begin(), p.end()); return p; };
    bool capped = false; int maxd = 0;
    while (!q.empty()) {
        Live cur = std::move(q.front()); q.pop_front(); vector<int> p = path(cur.id); maxd = std::max(maxd, nodes[cur.id].depth);
        if (s.depth && nodes[cur.id].depth >= s.depth) continue;
        for (size_t i = 0; i < s.alpha.size(); i++) {
            model::Model n = cur.m; mstep(n, s.alpha[i]); string cs = n.canon();
            p.push_back(i);
            for (int k = 0; k < memory && k < (int)p.size(); k++) cs += "#" + std::to_string(p[p.size() - 1 - k]);
            if (seen.insert(mc::hash(cs)).second) { if (nodes.size() < max_states) { nodes.push_back({cur.id, (int)i, nodes[cur.id].depth + 1}); q.push_back({(int)nodes.size() - 1, std::move(n)}); } else capped = true; }
            if (ctx.mine()) run_one(ctx, l, s, p, base);
            p.pop_back();
        }
        if (ctx.out_of_time_fast()) break;
    }
    ctx.note_bound(mc::fmt("breadth-first over %zu commands: %zu abstract states%s, longest path %d; every transition replayed on the server and followed by %zu observation commands", s.alpha.size(), nodes.size(), capped ? " (state cap reached)" : s.depth ? mc::fmt(" (depth bound %d)", s.depth).c_str() : " (complete)", maxd, s.observe.size()));
}
Strs cat(std::initializer_list<Strs> l) { Strs r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
string kset(const string &cmd, const string &key, const string &val, int flags, long exp, const string &extra) {
    return cmd + " " + key + " " + std::to_string(flags) + " " + std::to_string(exp) + " " + std::to_string(val.size()) + (extra.empty() ? "" : " " + extra) + "\r\n" + val + "\r\n"; }
}
