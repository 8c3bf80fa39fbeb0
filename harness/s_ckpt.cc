// C35: checkpoints under every schedule of snapshot thread, log flusher, group commit thread and clients
#include "persist.h"
#include <algorithm>
#include <cstring>
#include <sys/mman.h>
using namespace ex; using namespace al; using namespace pst; using std::string; using std::vector;
namespace {
struct MSet { size_t n; struct { const void *m; int f; bool shared; } e[2048]; };
MSet *ms_ = nullptr;
void saw(const void *m, int f) { for (size_t i = 0; i < ms_->n; i++) if (ms_->e[i].m == m) { if (ms_->e[i].f != f) ms_->e[i].shared = true; return; } if (ms_->n < 2048) { ms_->e[ms_->n] = {m, f, false}; ms_->n++; } }
typedef vector<std::pair<int, int>> Sched;
struct Dec { vector<int> en; int chosen, dflt, kind; };
struct Pol : sim::Policy {
    Sched s; vector<Dec> decs; std::set<const void *> act; size_t next = 0; int last = 0;
    int choose(const vector<int> &en, int cur, int kind, const void *obj) override {
        using namespace sim; if (kind == PK_LOCK) { obj = cur > 0 ? (const void *)(intptr_t)mutex_ord(obj) : nullptr; if (obj) saw(obj, cur); }
        if (en.size() == 1) { last = en[0]; return en[0]; }
        bool stay = cur > 0 && kind != PK_SLEEP && kind != PK_YIELD; int d = cur;
        if (!stay) { d = en[0]; int from = cur > 0 ? cur : last; for (int e : en) if (e > from) { d = e; break; } }
        bool pt; switch (kind) { case PK_LOCK: pt = !stay || act.count(obj); break; case PK_READ: case PK_SEND: case PK_FS: case PK_SLEEP: case PK_YIELD: case PK_SIGNAL: pt = true; break; default: pt = !stay; }
        int r = d; if (pt) { int idx = decs.size(); if (next < s.size() && s[next].first == idx) { int w = s[next++].second; if (std::find(en.begin(), en.end(), w) != en.end()) r = w; } decs.push_back({en, r, d, kind}); }
        last = r; return r;
    }
};
struct Prog { string name; Strs init; vector<Strs> conns; Strs after; bool async = false; int end = 0; /* 0 killed, 1 stopped, 2 killed after the old files were removed, 3 second checkpoint before the kill */ };
// replies compared between the running server and the recovered one
string norm(const string &req, const string &rep) {
    Strs lines; size_t p = 0; string r; while (p < rep.size()) { size_t e = rep.find("\r\n", p); if (e == string::npos) e = rep.size(); lines.push_back(rep.substr(p, e - p)); p = e + 2; }
    for (auto &l : lines) if (l.compare(0, 16, "ATTR expiretime=") == 0 && l != "ATTR expiretime=0" && l != "ATTR expiretime=-1") l = "ATTR expiretime=some";
    if ((req.compare(0, 7, "sop get") == 0 || req.compare(0, 7, "mop get") == 0) && lines.size() > 2) std::sort(lines.begin() + 1, lines.end() - 1);
    for (auto &l : lines) r += l + "\r\n"; return r;
}
struct Res { vector<Dec> decs; bool ok = false; string seen; };
string mask_exp(const string &s) { return s; }
}
// runs one schedule; reports failures itself. returns false when one was reported
static bool one(mc::Ctx &ctx, const Prog &p, const Sched &s, vector<Dec> &decs, const std::set<const void *> &act, bool crash, uint64_t &ck) {
    Opts o; o.ckpt = true; o.async = p.async; o.args = {"-g", "10", "-t", "4"}; Phase a; Strs all = p.init; for (auto &c : p.conns) for (auto &x : c) all.push_back(x); for (auto &x : p.after) all.push_back(x); Strs keys = keys_of(all); if (std::find(all.begin(), all.end(), "") != all.end()) all.clear();
    auto describe = [&] { ctx.clear_note(); ctx.note("program " + p.name + (p.async ? " (asynchronous logging)" : "")); for (auto &c : p.init) ctx.note("init   > " + mc::esc(c, 200)); for (size_t i = 0; i < p.conns.size(); i++) for (auto &c : p.conns[i]) ctx.note(mc::fmt("conn %zu > ", i) + mc::esc(c, 200)); for (auto &c : p.after) ctx.note("after  > " + mc::esc(c, 200)); string t = "schedule: default"; for (auto &d : s) t += mc::fmt(", at decision %d run thread %d", d.first, d.second); ctx.note(t + "; " + (p.end == 0 ? "then killed" : p.end == 1 ? "then stopped" : p.end == 2 ? "then killed 11 s later" : "then another checkpoint, then killed")); };
    describe(); decs.clear(); static vector<uint64_t> dummy;
    bool fine = life(ctx, {}, T0, o, [&](Life &l) {
        uint64_t t0 = sim::now_us() / 1000000 * 1000000; for (auto &c : p.init) if (!l.cmd(c)) return;
        vector<int> cs; std::set<int> used; auto fib = [&](int c) { int f = 0; sim::set_on_read(c, [&](int) { f = sim::cur_fiber(); }); sim::rpc(c, "version\r\n"); sim::set_on_read(c, nullptr); return f; }; used.insert(fib(l.c)); for (int i = 0; i < 12 && cs.size() < p.conns.size(); i++) { int c = sim::connect(); sim::run(); if (used.insert(fib(c)).second) cs.push_back(c); else { sim::shut(c); sim::run(); } }
        if (cs.size() < p.conns.size()) { l.ph->err = "no worker"; return; }
        if (sim::now_us() > t0 + 4500000) { l.ph->err = "set up too long"; return; } sim::advance_us(t0 + 4500000 - sim::now_us());
        // the window: the checkpoint thread is due, the clients send
        vector<size_t> pos(cs.size(), 0); vector<Rec> recs; vector<int> waiting(cs.size(), 0); std::function<void(size_t)> next = [&](size_t i) { if (pos[i] < p.conns[i].size()) { waiting[i] = 1; sim::send(cs[i], p.conns[i][pos[i]++]); } };
        uint64_t stamp = 0; for (size_t i = 0; i < cs.size(); i++) sim::set_on_reply(cs[i], [&, i](int) { string t = sim::peek(cs[i]); if (t.size() < 2 || t.compare(t.size() - 2, 2, "\r\n")) return; waiting[i] = 0; sim::take(cs[i]); l.ph->recs.push_back({mc::fmt("%zu", i) + p.conns[i][pos[i] - 1], t, (int64_t)sim::now_s()}); vfs::cur_tag = ++stamp; next(i); });
        sim::step_limit = 300000; Pol pol; pol.s = s; pol.act = act; for (size_t i = 0; i < cs.size(); i++) next(i); size_t base_tag = 0; (void)base_tag; size_t n_init = l.ph->recs.size(); l.ph->mark = vfs::oplog.size(); stamp = n_init; vfs::cur_tag = n_init;
        sim::set_clock_no_run(t0 + 5500000); sim::policy = &pol; sim::points_enabled = true; bool lim = !sim::run();
        auto busy = [&] { for (int w : waiting) if (w) return true; return false; };
        for (int i = 0; i < 60 && !lim && (i < 3 || busy()); i++) { sim::advance_us(1000); }
        sim::policy = nullptr; sim::points_enabled = false; sim::step_limit = 0; for (int c : cs) sim::set_on_reply(c, nullptr);
        { vector<uint64_t> &v = l.ph->matched; v.push_back(pol.decs.size()); for (auto &d : pol.decs) { v.push_back(d.en.size()); for (int e : d.en) v.push_back(e); v.push_back(d.chosen); v.push_back(d.dflt); v.push_back(d.kind); } }
        if (lim) { l.ph->err = "the threads run forever"; return; }
        if (sim::server_exited()) { l.ph->err = "the server exited"; return; }
        if (busy()) { string m = "a request is never answered"; for (auto &b : sim::blocked_report()) m += " [" + b + "]"; l.ph->err = m; return; } if (sim::mutex_stuck()) { string m = "deadlock"; for (auto &b : sim::blocked_report()) m += " [" + b + "]"; l.ph->err = m; return; }
        l.ph->ends = vfs::oplog.size(); for (auto &c : p.after) if (!l.cmd(c)) return;
        if (p.end >= 2) { for (int i = 0; i < 11; i++) l.tick(1000000); if (p.end == 3) for (int i = 0; i < 6; i++) l.tick(1000000); }
        auto im = vfs::image(); int snaps = 0; for (auto &e : im) snaps += e.first.find("snapshot_") != string::npos; l.ph->snaps = snaps;
        if (p.end == 1) { Seen s0 = observe(l, keys); for (size_t i = 0; i < s0.req.size(); i++) l.ph->extra += s0.req[i] + "\x01" + norm(s0.req[i], s0.rep[i]) + "\x02"; l.stop(); }
        else { Seen s0 = observe(l, keys); for (size_t i = 0; i < s0.req.size(); i++) l.ph->extra += s0.req[i] + "\x01" + norm(s0.req[i], s0.rep[i]) + "\x02"; if (p.async) l.step("!stop"); else l.step("!idle"); } }, a);
    ctx.trace(); if (!fine) return false; // died: reported by isolated
    size_t q = 0; auto &v = a.matched; if (!v.empty()) { size_t n = v[q++]; for (size_t i = 0; i < n; i++) { Dec d; size_t m = v[q++]; for (size_t j = 0; j < m; j++) d.en.push_back(v[q++]); d.chosen = v[q++]; d.dflt = v[q++]; d.kind = v[q++]; decs.push_back(d); } } ctx.trans(decs.size());
    auto fail = [&](const string &k, const string &m) { describe(); for (auto &r : a.recs) ctx.note(mc::esc(r.req, 200) + " -> " + mc::esc(r.rep, 300)); { const char *kn[] = {"create", "write", "trunc", "fsync", "unlink", "rename"}; for (size_t i = a.mark; i < a.ops.size(); i++) ctx.note(mc::fmt("op %zu %s ino %d %s %zu bytes at %llu, %d answered", i, kn[(int)a.ops[i].k % 6], a.ops[i].ino, a.ops[i].path.c_str(), a.ops[i].data.size(), (unsigned long long)a.ops[i].off, a.ops[i].tag)); } ctx.note("files: " + show(a.img)); ctx.fail(k, m); return false; };
    if (!a.started) return fail("start", "the server does not start"); if (!a.err.empty()) return fail("run", a.err);
    if (crash) { // killed at every file operation of the window: each client's keys show a prefix of its commands containing the acknowledged ones
        vector<vector<model::Model>> ms(p.conns.size()); vector<Strs> ks(p.conns.size()); model::Model m0; m0.now = T0 / 1000000; string e; for (auto &c : p.init) { model::Model t; (void)t; } vector<Rec> ri; size_t ni = p.init.size(); for (size_t i = 0; i < ni && i < a.recs.size(); i++) ri.push_back(a.recs[i]); m0 = models(m0, ri, e).back(); if (!e.empty()) return fail("reply", e);
        vector<vector<int>> acked(p.conns.size()); // per client, per global count of replies
        for (size_t i = 0; i < p.conns.size(); i++) { vector<Rec> rr; for (size_t j = ni; j < a.recs.size(); j++) if (a.recs[j].req[0] == '0' + (int)i && rr.size() < p.conns[i].size()) { Rec r = a.recs[j]; r.req = r.req.substr(1); rr.push_back(r); } ms[i] = models(m0, rr, e); if (!e.empty()) return fail("reply", e); ks[i] = keys_of(p.conns[i]); }
        vector<vfs::Op> ops(a.ops.begin(), a.ops.begin() + a.ends); bool ok = true; size_t nw = 0; for (auto &c : p.conns) nw += c.size();
        crashes({}, ops, ni + nw, false, [&](const Crash &c) { if (!ok || c.acked < (int)ni || ctx.out_of_time_fast()) return; vector<int> lo(p.conns.size(), 0); for (size_t j = ni; j < (size_t)c.acked && j < a.recs.size(); j++) lo[a.recs[j].req[0] - '0']++; string id = ser(c.img); for (int x : lo) id += mc::fmt("#%d", x); static std::set<uint64_t> dn; static string pn; if (pn != p.name) { dn.clear(); pn = p.name; } if (!dn.insert(mc::hash(id)).second) return; ctx.state(mc::hash(id));
            Phase b; if (!life(ctx, c.img, (a.clock / 1000000 + 1) * 1000000, o, [&](Life &l) { for (size_t i = 0; i < ks.size(); i++) { Seen s1 = observe(l, ks[i]); string d0; bool any = false; for (size_t j = p.async ? 0 : lo[i]; j < ms[i].size() && !any; j++) { string d; for (int sh : {0, 1, -1}) { model::Model t = restarted(ms[i][j], sim::now_s()); for (auto &x : t.kv) if (x.second.exp > 0) x.second.exp += sh; string d1 = differs(s1, t); if (sh == 0 || d1.empty()) d = d1; if (d.empty()) break; } if (d.empty()) any = true; else if (d0.empty()) d0 = d; } if (!any) { l.ph->extra = mc::fmt("client %zu: not the state after its %d acknowledged commands nor a later one (", i, lo[i]) + d0 + ")"; return; } } }, b)) { ok = false; return; }
            ctx.trace(); ctx.evals(); if (!b.started) ok = fail("start", c.what + ": the server does not start again"); else if (!b.extra.empty() || !b.err.empty()) { ctx.note("files: " + show(c.img)); ok = fail("crash", c.what + ": " + b.extra + b.err); } });
        if (!ok) return false;
    }
    ck = mc::hash(a.extra + ser(a.img)); static std::set<uint64_t> done; static string pname; if (pname != p.name) { done.clear(); pname = p.name; } if (!done.insert(ck).second) return true; ctx.state(ck);
    Phase b; if (!life(ctx, a.img, (a.clock / 1000000 + 1) * 1000000, o, [&](Life &l) { Seen s1 = observe(l, keys); string w = a.extra; size_t z = 0; for (size_t i = 0; i < s1.req.size(); i++) { size_t x = w.find('\x01', z), y = w.find('\x02', z); string want = w.substr(x + 1, y - x - 1), got = norm(s1.req[i], s1.rep[i]); z = y + 1; if (want != got) { l.ph->extra = mc::esc(s1.req[i], 100) + ": before " + mc::esc(want, 400) + " after " + mc::esc(got, 400); return; } } }, b)) return false;
    ctx.evals(); if (!b.started) return fail("restart", "the server does not start again"); if (!b.extra.empty()) { bool fl = false; for (auto &c : p.conns) for (auto &x : c) fl |= x.compare(0, 5, "flush") == 0; size_t af = b.extra.find(" after "); bool lost = af != string::npos && (b.extra.compare(af + 7, 3, "END") == 0 || b.extra.compare(af + 7, 9, "NOT_FOUND") == 0) && b.extra.find("before END") == string::npos && b.extra.find("before NOT_FOUND") == string::npos; if (fl && lost) { fail("flush-during-checkpoint", "an item stored after a flush during the checkpoint is lost in the recovery: " + b.extra); return true; } }
    if (!b.extra.empty()) return fail("differs", "the recovered store differs from the store at the end: " + b.extra); if (!b.err.empty()) return fail("run", b.err);
    return true;
}
static void drive(mc::Ctx &ctx, const vector<Prog> &ps, int bound, bool crash, const char *what, size_t cap) {
    if (!ms_) ms_ = (MSet *)mmap(nullptr, sizeof(MSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ctx.note_bound(mc::fmt("%zu programs (%s), all schedules with at most %d deviations from run-to-block scheduling among clients, checkpoint thread, log flusher and group commit", ps.size(), what, bound)); uint64_t runs = 0, capped = 0; size_t maxd = 0;
    for (auto &p : ps) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) break; memset(ms_, 0, sizeof *ms_); std::set<const void *> act; vector<Dec> d; uint64_t ck; bool bad = false; for (int k = 0; k < 2 && !bad; k++) { bad = !one(ctx, p, {}, d, act, false, ck); for (size_t i = 0; i < ms_->n; i++) if (ms_->e[i].shared) act.insert(ms_->e[i].m); } if (bad) continue;
        vector<std::pair<Sched, int>> st{{{}, 0}}; size_t n = 0; while (!st.empty()) { auto f = st.back(); st.pop_back(); if (n++ > cap || ctx.out_of_time()) { capped++; break; } runs++; if (!one(ctx, p, f.first, d, act, crash, ck)) break; maxd = std::max(maxd, d.size()); if ((int)f.first.size() >= bound) continue; int from = f.first.empty() ? 0 : f.first.back().first + 1; for (int i = (int)d.size() - 1; i >= from; i--) for (int e : d[i].en) if (e != d[i].dflt) { Sched s = f.first; s.push_back({i, e}); st.push_back({s, 0}); } }
        if (ctx.case_index() % 7 == 1) ctx.sample(p.name + mc::fmt(": %zu schedules of up to %zu decisions", n, maxd)); }
    ctx.note_bound(mc::fmt("worker 0: %llu schedules, at most %zu decisions, %llu programs cut off", (unsigned long long)runs, maxd, (unsigned long long)capped));
}
static Strs init_store() { return {kset("set", "a", "1"), kset("set", "b", "22", 3, 1000), "lop insert l 0 1 create 1 0 4\r\na\r\n", "lop insert l 1 1\r\nb\r\n", "sop insert s 1 create 1 0 10\r\nx\r\n", "mop insert m f 1 create 1 0 10\r\n1\r\n", "bop insert t 1 1 create 1 0 3\r\na\r\n", "bop insert t 3 0x01 1\r\nc\r\n", kset("set", "p:q", "9")}; }
static const Strs &changes() { static const Strs r = {kset("set", "a", "new"), "delete a\r\n", "append a 0 0 1\r\nz\r\n", "incr a 5\r\n", "touch b 2000\r\n", kset("set", "n", "fresh"), "lop insert l 0 1\r\nz\r\n", "lop delete l 0\r\n", "lop get l 0..-1 drop\r\n", "sop insert s 1\r\ny\r\n", "sop delete s 1 drop\r\nx\r\n", "mop update m f 2\r\nzz\r\n", "mop insert m g 1\r\n2\r\n", "bop insert t 5 1\r\ne\r\n", "bop upsert t 1 1\r\nu\r\n", "bop delete t 0..10 1\r\n", "bop incr t 1 1\r\n", "setattr t maxcount=2\r\n", "setattr l expiretime=500\r\n", "flush_all\r\n", "flush_prefix p\r\n", "delete p:q\r\n", "lop insert x 0 1 create 1 0 4\r\nz\r\n", "bop insert y 7 0x0a 1 create 1 0 4\r\nz\r\n"}; return r; }
static vector<Prog> one_client_programs(bool thorough, bool async) {
    vector<Prog> ps; auto &c = changes(); for (size_t i = 0; i < c.size(); i++) for (int e = 0; e < 4; e++) { if (!thorough && e != (int)(i % 4)) continue; Prog p; p.name = "one " + S(i) + " " + S(e); p.init = init_store(); p.conns = {{c[i], c[(i * 7 + 3) % c.size()]}}; p.end = e; if (e >= 2) p.after = {c[(i * 5 + 1) % c.size()]}; p.async = async; ps.push_back(p); } return ps;
}
// clients on the same keys (the order in the log must be the order of execution) and on their own keys (each must find its own acknowledged changes after a kill at any point)
static const vector<std::pair<Strs, Strs>> &rivals() { static const vector<std::pair<Strs, Strs>> r = {
    {{kset("set", "a", "A1")}, {kset("set", "a", "B1")}}, {{"incr a 1\r\n", "incr a 1\r\n"}, {kset("set", "a", "7")}}, {{"delete a\r\n"}, {kset("add", "a", "B")}}, {{"append a 0 0 1\r\nx\r\n"}, {"append a 0 0 1\r\ny\r\n"}}, {{"lop insert l 0 1\r\nx\r\n"}, {"lop insert l 0 1\r\ny\r\n"}}, {{"lop insert l -1 1\r\nx\r\n"}, {"lop delete l 0\r\n"}}, {{"lop delete l 0..-1 drop\r\n"}, {"lop insert l 0 1 create 5 0 6\r\nq\r\n"}},
    {{"sop insert s 1\r\ny\r\n"}, {"sop delete s 1 drop\r\nx\r\n"}}, {{"mop insert m g 1\r\n2\r\n"}, {"mop delete m 0 drop\r\n"}}, {{"bop incr t 1 1\r\n"}, {"bop upsert t 1 1\r\n5\r\n"}}, {{"bop insert t 5 1\r\ne\r\n"}, {"bop insert t 7 1\r\ng\r\n"}}, {{"setattr t maxcount=2\r\n"}, {"bop insert t 5 1\r\ne\r\n"}}, {{"flush_all\r\n"}, {kset("set", "a", "B")}}, {{"flush_prefix p\r\n"}, {kset("set", "p:q", "B")}}, {{kset("set", "n", "A")}, {"delete n\r\n", kset("add", "n", "B")}}, {{"bop insert y 1 1 create 1 0 4\r\nA\r\n"}, {"bop insert y 2 1 create 2 0 5\r\nB\r\n"}}, {{"flush_all\r\n"}, {kset("set", "b", "B"), kset("set", "a2", "C")}}, {{"flush_all\r\n"}, {kset("set", "n", "B"), kset("set", "a3", "C")}}, {{"flush_all\r\n"}, {kset("set", "a4", "B"), kset("set", "a5", "C")}}, {{"flush_prefix p\r\n"}, {kset("set", "p:1", "B"), kset("set", "p:2", "C")}} }; return r; }
static const vector<std::pair<Strs, Strs>> &own() { static const vector<std::pair<Strs, Strs>> r = {
    {{kset("set", "a", "A1"), "append a 0 0 1\r\nz\r\n"}, {"lop insert l 0 1\r\nz\r\n", "lop delete l -1\r\n"}}, {{"delete a\r\n", kset("set", "n", "N")}, {"bop insert t 5 1\r\ne\r\n", "bop delete t 1\r\n"}}, {{"sop insert s 1\r\ny\r\n", "sop delete s 1\r\nx\r\n"}, {"mop update m f 2\r\nzz\r\n", "mop insert m g 1\r\n2\r\n"}}, {{"bop insert y 7 0x0a 1 create 1 0 4\r\nz\r\n", "bop incr t 1 1\r\n"}, {"touch b 2000\r\n", "delete b\r\n"}}, {{"setattr t maxcount=1 overflowaction=smallest_trim\r\n", "bop insert t 9 1\r\ni\r\n"}, {"lop get l 0..-1 drop\r\n", "lop insert l 0 1 create 1 0 4\r\nz\r\n"}} }; return r; }
static vector<Prog> two_client_programs(bool same, bool async, bool thorough) {
    vector<Prog> ps; auto &r = same ? rivals() : own(); for (size_t i = 0; i < r.size(); i++) for (int e = 0; e < 4; e++) { if (!thorough && e != (int)(i % 4)) continue; Prog p; p.name = string(same ? "rivals " : "own ") + S(i) + " " + S(e); p.init = init_store(); p.conns = {r[i].first, r[i].second}; p.end = e; if (e >= 2) p.after = {changes()[i % changes().size()]}; p.async = async; ps.push_back(p); } return ps;
}
#define W1 "a checkpoint next to a client sending two changes; killed, stopped, killed after the old files are gone or after one more checkpoint"
#define W2 "a checkpoint next to two clients changing the same keys; killed, stopped, killed after the old files are gone or after one more checkpoint"
#define W3 "a checkpoint next to two clients changing their own keys; killed at every file operation"
SUITE("C35", one_client, "persist", BOTH) { drive(ctx, one_client_programs(ctx.thorough, false), 2, false, W1, ctx.thorough ? 60000 : 3000); }
SUITE("C35", one_client_small_units, "psmall", BOTH) { drive(ctx, one_client_programs(ctx.thorough, false), ctx.thorough ? 2 : 1, false, W1 "; the log goes out in 128 byte units", ctx.thorough ? 60000 : 3000); }
SUITE("C35", one_client_async, "psmall", BOTH) { drive(ctx, one_client_programs(ctx.thorough, true), ctx.thorough ? 2 : 1, false, W1 "; asynchronous logging, 128 byte units", ctx.thorough ? 60000 : 3000); }
SUITE("C35", two_clients, "persist", BOTH) { drive(ctx, two_client_programs(true, false, ctx.thorough), 2, false, W2, ctx.thorough ? 60000 : 1500); }
SUITE("C35", two_clients_small_units, "psmall", BOTH) { drive(ctx, two_client_programs(true, false, ctx.thorough), ctx.thorough ? 2 : 1, false, W2 "; the log goes out in 128 byte units", ctx.thorough ? 60000 : 3000); }
SUITE("C35", two_clients_killed, "persist", BOTH) { drive(ctx, two_client_programs(false, false, ctx.thorough), ctx.thorough ? 2 : 1, true, W3, ctx.thorough ? 60000 : 150); }
SUITE("C35", two_clients_killed_small_units, "psmall", BOTH) { drive(ctx, two_client_programs(false, false, ctx.thorough), 1, true, W3 "; the log goes out in 128 byte units", ctx.thorough ? 60000 : 100); }
