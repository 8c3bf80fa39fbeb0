// C25: noreply and pipelining change only how replies are returned
#include "alpha.h"
#include <cstring>
#include <functional>
using namespace ex; using namespace al; using std::string; using std::vector;
struct PC { string line, block; string forced; // forced: reply of a request whose block is broken (executed as nothing)
    string with(const string &w) const { return line + w + "\r\n" + block; } string plain() const { return with(""); } };
static vector<PC> lift(const Strs &cs) { vector<PC> r; for (auto &c : cs) { size_t p = c.find("\r\n"); r.push_back({c.substr(0, p), c.substr(p + 2), ""}); } return r; }
static bool first_is(const string &l, std::initializer_list<const char *> v) { for (auto x : v) if (l.compare(0, strlen(x), x) == 0) return true; return false; }
static bool can_noreply(const string &l) { return first_is(l, {"set ", "add ", "replace ", "append ", "prepend ", "cas ", "incr ", "decr ", "delete ", "touch ", "flush_all", "flush_prefix ", "lop create", "lop insert", "lop delete", "sop create", "sop insert", "sop delete", "mop create", "mop insert", "mop upsert", "mop update", "mop delete", "bop create", "bop insert", "bop upsert", "bop update", "bop delete", "bop incr", "bop decr"}); }
static bool can_pipe(const string &l) { return first_is(l, {"lop insert", "lop delete", "sop insert", "sop delete", "sop exist", "mop insert", "mop upsert", "mop update", "mop delete", "bop insert", "bop upsert", "bop update", "bop delete", "bop incr", "bop decr"}); }
static const Strs OBS25 = {"gets K nokey\r\n", "getattr K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n"};
static vector<PC> broken(bool pipe) { vector<PC> r; for (auto &p : vector<PC>{{"lop insert K 0 5", "abcdeXY", ""}, {"sop insert K 5", "abcdeXY", ""}, {"mop insert K q 5", "abcdeXY", ""}, {"bop insert K 66 5", "abcdeXY", ""}, {"bop update K 5 5", "abcdeXY", ""}, {"mop delete K 5 1", "abcdeXY", ""}}) { PC q = p; q.forced = "CLIENT_ERROR bad data chunk\r\n"; r.push_back(q); }
    for (auto &l : Strs{"lop insert K 0 20000", "sop insert K 20000", "sop delete K 20000", "mop insert K f 20000", "mop update K f 20000", "bop insert K 5 20000", "bop upsert K 5 20000", "bop update K 5 20000"}) r.push_back({l, string(20000, 'x') + "\r\n", "CLIENT_ERROR too large value\r\n"});
    r.push_back({"mop delete K 5 9", "a b c\r\n", "CLIENT_ERROR bad value\r\n"}); r.push_back({"mop delete K 3 3", "a b\r\n", "CLIENT_ERROR bad value\r\n"}); r.push_back({"bop incr K 5 0", "", "CLIENT_ERROR bad command line format\r\n"}); r.push_back({"bop delete K 5..x", "", "CLIENT_ERROR bad command line format\r\n"}); r.push_back({"lop delete K 1..x", "", "CLIENT_ERROR bad command line format\r\n"}); if (!pipe) r.push_back({"set K 0 0 5", "abcdeXY", "CLIENT_ERROR bad data chunk\r\n"}); return r; }
static void wipe(Lock &l) { for (auto k : {"K", "nk", "p:a"}) sim::rpc(l.c, string("delete ") + k + "\r\n"); model::Model n; n.now = sim::now_s(); n.lim = l.m.lim; n.serial = l.m.serial; l.m = n; }
static bool init(Lock &l, const Strs &s) { l.begin(); for (auto &x : s) if (!l.step(x)) return false; return true; }
SUITE_B("C25", noreply, "std", BOTH, 150, 1500) { // the same command with noreply: same effect, no answer
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); vector<PC> al; for (auto &p : lift(all_cmds())) if (can_noreply(p.line)) al.push_back(p); for (auto &p : broken(false)) al.push_back(p); int d = ctx.thorough ? 3 : 2; ctx.note_bound(S(al.size()) + " commands with noreply: all sequences of 1.." + S(d) + " over every item state, one by one and in one segment, then the whole item read back");
    auto run = [&](const TypeInit &t, const vector<int> &q, int mode) { if (!init(l, t.init) || !l.step("gets K\r\n")) { wipe(l); return; } string all; bool ok = true; for (int i : q) { string np = l.m.subst(al[i].plain()), nr = l.m.subst(al[i].with(" noreply")), err; if (al[i].forced.empty()) { l.m.exec(np, nullptr, err); } ctx.trans(); if (mode) { all += nr; l.hist.push_back({mc::esc(nr, 200), "(sent with the next)"}); } else { string r = sim::rpc(l.c, nr); l.hist.push_back({mc::esc(nr, 200), mc::esc(r, 200)}); if (!r.empty()) { l.fail("answered:" + al[i].line.substr(0, al[i].line.find(' ', 4)), "answer to a noreply command: " + mc::esc(r, 200)); ok = false; break; } } }
        if (mode && ok) { string r = sim::rpc(l.c, all); if (!r.empty()) { l.fail("answered", "answer to noreply commands: " + mc::esc(r, 200)); ok = false; } } if (ok) for (auto &o : OBS25) if (ok) ok = l.step(o); ctx.state(mc::hash(l.m.canon())); ctx.trace(); if (!ok) { sim::shut(l.c); sim::run(); l.connect(); } if (ctx.case_index() % 9973 == 1) ctx.sample(string(t.name) + ": " + (all.empty() ? al[q[0]].line : all.substr(0, 80))); wipe(l); };
    for (auto &t : types16()) for (size_t i = 0; i < al.size(); i++) { if (ctx.mine()) run(t, {(int)i}, 0); for (size_t j = 0; j < al.size(); j++) { for (int m = 0; m < 2; m++) if (ctx.mine()) run(t, {(int)i, (int)j}, m); if (ctx.out_of_time_fast()) return; if (d > 2) for (size_t k = 0; k < al.size(); k++) if (ctx.mine()) run(t, {(int)i, (int)j, (int)k}, 1); } } }
struct Pipe { mc::Ctx &ctx; Lock l; bool unclear = false; Pipe(mc::Ctx &x) : ctx(x), l(x) { l.connect(); l.pre = "after-pipe"; }
    // runs a pipeline; mode 0: one segment, 1: command by command.  After a severe error the model stops.
    bool go(const vector<const PC *> &q, int mode) { string got, want, all, err; int n = 0; bool stop = false; string tail = "END\r\n"; model::Model m = l.m; vector<string> sent; for (size_t i = 0; i < q.size(); i++) { sent.push_back(m.subst(q[i]->with(i + 1 < q.size() ? " pipe" : ""))); all += sent.back(); }
        if (mode == 0) got = sim::rpc(l.c, all); else for (auto &s : sent) { got += sim::rpc(l.c, s); if (&s != &sent.back() && !got.empty() && got.find("PIPE_ERROR") == string::npos) { l.hist.push_back({mc::esc(all, 300), mc::esc(got, 300)}); l.fail("early", "answered before the last command of the pipeline"); return false; } }
        ctx.trans(q.size()); l.hist.push_back({mc::esc(all, 900), mc::esc(got, 900)});
        if (q.size() == 1) { if (!q[0]->forced.empty()) { if (got != q[0]->forced) { l.fail("single", "answered " + mc::esc(got, 200) + " instead of " + q[0]->forced); return false; } } else { l.m.exec(sent[0], &got, err); if (!err.empty()) { l.fail("single", err); return false; } } return true; }
        size_t p = got.find("\r\n"); string head = got.substr(0, p == string::npos ? p : p + 2); size_t at = head.size();
        for (size_t i = 0; i < q.size() && !stop; i++) { string plain = l.m.subst(q[i]->plain()); size_t e = got.find("\r\n", at); string one = e == string::npos ? got.substr(at) : got.substr(at, e + 2 - at); string exp; if (!q[i]->forced.empty()) { if (one != q[i]->forced) { l.fail("reply", "answer " + S(i + 1) + " is " + mc::esc(one, 100) + " instead of " + mc::esc(q[i]->forced)); return false; } } else { exp = l.m.exec(plain, &one, err); if (!err.empty()) { l.fail("reply", "answer " + S(i + 1) + " (" + mc::esc(plain, 100) + "): " + err); return false; } } at += one.size(); n++; if (one.compare(0, 12, "CLIENT_ERROR") == 0 || one.compare(0, 12, "SERVER_ERROR") == 0) { stop = true; tail = "PIPE_ERROR bad error\r\n"; } else if (n == 500 && i + 1 < q.size()) { stop = true; tail = "PIPE_ERROR command overflow\r\n"; } }
        if (stop) for (size_t i = n; i < q.size(); i++) if (!q[i]->forced.empty() && q[i]->forced.find("bad data") == string::npos && q[i]->forced.find("too large") == string::npos) { unclear = true; return false; }
        if (head != "RESPONSE " + S(n) + "\r\n") { l.fail("head", "head line " + mc::esc(head) + " for " + S(n) + " answers"); return false; } if (got.substr(std::min(at, got.size())) != tail) { l.fail("tail", "ends with " + mc::esc(got.substr(std::min(at, got.size())), 200) + " instead of " + mc::esc(tail)); return false; } return true; }
    void run(const Strs &in, const vector<const PC *> &q, int mode) { if (!init(l, in)) { wipe(l); return; } bool ok = go(q, mode); if (ok) for (auto &o : OBS25) if (ok) ok = l.step(o); ctx.state(mc::hash(l.m.canon())); ctx.trace(); if (ctx.case_index() % 9973 == 1 && !l.hist.empty()) ctx.sample(q[0]->line + " ... => " + l.last_rep); if (!ok) { sim::shut(l.c); sim::run(); l.connect(); } wipe(l); } };
SUITE_B("C25", pipes, "std", BOTH, 150, 1500) {
    mc::boot_std({"-g", "10"}); Pipe P(ctx); vector<PC> al; for (auto &p : lift(cat({all_cmds(), {"mop delete K 1 1 drop\r\nf\r\n", "bop delete K 5..9 drop\r\n", "bop incr K 30 5 5 0x01\r\n", "bop update K 5 -1\r\n", "lop insert K 1 2\r\nyy\r\n", bopi("K", "9", "z", "", "", "upsert")}}))) if (can_pipe(p.line)) al.push_back(p); for (auto &p : broken(true)) al.push_back(p); int d = ctx.thorough ? 3 : 2; ctx.note_bound(S(al.size()) + " pipelinable commands (some broken or too large): all pipelines of 1.." + S(d) + " over every item state and of 3 over the list, set, map and tree states, in one segment and command by command: head count, every answer, the tail, nothing executed after a severe error, and the stream in step afterwards");
    auto ts = types16(); auto rec = [&](const TypeInit &t, int depth, const std::function<bool(const PC &)> &f) { vector<const PC *> q; std::function<bool()> go = [&]() -> bool { if ((int)q.size() == depth) { for (int m = 0; m < 2; m++) if (ctx.mine()) P.run(t.init, q, m); return !ctx.out_of_time_fast(); } for (auto &p : al) { if (f && !f(p)) continue; q.push_back(&p); bool ok = go(); q.pop_back(); if (!ok) return false; } return true; }; return go(); };
    for (auto &t : ts) for (int k = 1; k <= 2; k++) if (!rec(t, k, nullptr)) return; for (auto &t : ts) { string n = t.name; const char *v = n == "list" || n == "list0" ? "lop" : n == "set" ? "sop" : n == "map" ? "mop" : n == "tree" || n == "bintree" ? "bop" : nullptr; if (!v) continue; if (!rec(t, 3, [&](const PC &p) { return p.line.compare(0, 3, v) == 0; })) return; if (ctx.thorough && !rec(t, 4, [&](const PC &p) { return p.line.compare(0, 3, v) == 0 && p.block.size() < 1000; })) return; } if (ctx.thorough) for (auto &t : ts) if (!rec(t, 3, nullptr)) return; }
SUITE("C25", pipe_length, "std", BOTH) { // long pipelines, errors at every place, abandoned pipelines, several connections
    mc::boot_std({"-g", "10"}); Pipe P(ctx); vector<PC> ins = lift({"lop insert K -1 1\r\na\r\n", "sop insert K 1\r\na\r\n", "mop delete K 1 1\r\nf\r\n", "bop incr K 5 1 18446744073709551615\r\n", "bop delete K 77\r\n", "mop insert K f 1\r\nx\r\n"}), br = broken(true); Strs in[] = {{"lop create K 0 0 1000\r\n"}, {"sop create K 0 0 1000\r\n"}, {"mop create K 0 0 0\r\n"}, {"bop create K 0 0 1000\r\n"}, {"bop create K 0 0 0\r\n"}, {"mop create K 0 0 0\r\n"}};
    ctx.note_bound("pipelines of 1..520, 998..1003 and 1500 equal commands of 6 kinds; a broken command at every place of pipelines up to 12 and at 490..505 of 510; pipelines abandoned after every byte and at the end of the connection, with another connection at work and with the connection structure reused");
    vector<int> lens; for (int i = 1; i <= 520; i++) if (ctx.thorough || i < 20 || i > 495 || i % 7 == 0) lens.push_back(i); for (int i = 998; i <= 1003; i++) lens.push_back(i); lens.push_back(1500);
    for (int k = 0; k < 6; k++) for (int n : lens) for (int m = 0; m < 2; m++) { if (ctx.out_of_time_fast()) return; if (ctx.mine()) P.run(in[k], vector<const PC *>(n, &ins[k]), m); }
    for (int k = 0; k < 6; k++) for (int n = 2; n <= 12; n++) for (int e = 0; e < n; e++) for (auto &b : br) for (int m = 0; m < 2; m++) { if (ctx.out_of_time_fast()) return; if (!ctx.mine()) continue; vector<const PC *> q(n, &ins[k]); q[e] = &b; P.run(in[k], q, m); }
    for (int k = 0; k < 6; k++) for (int e = 490; e <= 505; e++) for (auto &b : br) { if (!ctx.mine()) continue; vector<const PC *> q(510, &ins[k]); q[e] = &b; P.run(in[k], q, 0); }
    for (int k = 0; k < 6; k++) { string req; for (int i = 0; i < 4; i++) req += ins[k].with(" pipe"); for (size_t cut = 0; cut <= req.size(); cut++) { if (!ctx.mine()) continue; Lock &l = P.l; if (!init(l, in[k])) continue; int c = sim::connect(); string err, r = sim::rpc(c, req.substr(0, cut)), o = sim::rpc(l.c, "get nokey\r\n"); size_t one = ins[k].with(" pipe").size(); for (size_t i = 0; (i + 1) * one <= cut; i++) l.m.exec(ins[k].plain(), nullptr, err); l.hist.push_back({mc::esc(req.substr(0, cut)), mc::esc(r)}); if (!r.empty()) l.fail("early", "answered before the end of the pipeline"); if (o != "END\r\n") l.fail("other", "another connection is answered " + mc::esc(o)); sim::shut(c); sim::run(); sim::forget(c); int c2 = sim::connect(); string g = sim::rpc(c2, "get nokey\r\n"), g2 = sim::rpc(c2, "lop delete nokey 0\r\n"); if (g != "END\r\n" || g2 != "NOT_FOUND\r\n") l.fail("reuse", "the next connection is answered " + mc::esc(g + g2)); sim::shut(c2); sim::run(); sim::forget(c2); bool ok = true; for (auto &x : OBS25) if (ok) ok = l.step(x); ctx.trace(); ctx.state(mc::hash(l.m.canon())); wipe(l); } } }
