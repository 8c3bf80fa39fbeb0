// C42: every request is answered and a shutdown always ends, whatever is in progress
#include <signal.h>
#include <sys/mman.h>
#include <algorithm>
#include <cstring>
#include "alpha.h"
#include "conc.h"
#include "vfs.h"
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
struct SProg { string name; Strs args; Strs init; vector<Strs> conns; Strs partial; vector<Strs> stuck; /* command whose reply blocks */ vector<int> at; /* bytes accepted before */ uint64_t later = 0; /* the clock has advanced when the window opens */ bool answered = true; };
struct Stop { vector<std::pair<int, int>> sched; vector<std::pair<int, int>> sig; /* step, signal */ string command; /* a connection of its own sends this */ bool conn = false; /* a client connects when the signal comes */ };
struct Shm { uint32_t ndec, steps, nmtx; struct { uint16_t n, chosen, dflt, kind; uint16_t en[12]; } d[6000]; struct { int m, owner; bool shared; } mt[600]; };
Shm *sh_;
struct Pol : sim::Policy {
    const Stop *st; size_t next = 0, ns = 0; int last = 0; uint32_t step = 0, low = 0; bool hot = false; const std::set<int> *act = nullptr;
    void saw(int m, int f) { for (uint32_t i = 0; i < sh_->nmtx; i++) if (sh_->mt[i].m == m) { if (sh_->mt[i].owner != f) sh_->mt[i].shared = true; return; } if (sh_->nmtx < 600) sh_->mt[sh_->nmtx++] = {m, f, false}; }
    int choose(const vector<int> &en, int cur, int kind, const void *obj) override {
        using namespace sim; bool sg = false; if (ns < st->sig.size() && (int)step == st->sig[ns].first) { interrupt(st->sig[ns++].second); sg = true; if (st->conn) sim::connect("10.0.0.9"); } step++; sh_->steps = step;
        if (sg) { last = 1; return std::find(en.begin(), en.end(), 1) != en.end() ? 1 : en[0]; }
        int m = 0; if (kind == PK_LOCK && cur > 0) { m = mutex_ord(obj); saw(m, cur); }
        if (en.size() == 1) { last = en[0]; return en[0]; }
        bool stay = cur > 0 && kind != PK_SLEEP && kind != PK_YIELD; int d = cur;
        if (!stay) { d = en[0]; int from = cur > 0 ? cur : last; if (st->conn && ++low % 12) from = 0; /* with a client: server threads first, background threads last, but all get on */ for (int e : en) if (e > from) { d = e; break; } }
        bool pt; switch (kind) { case PK_LOCK: pt = !stay || (act && act->count(m)); break; case PK_UNLOCK: pt = !stay; break; default: pt = true; }
        int r = d; if (pt) { int idx = sh_->ndec; if (next < st->sched.size() && st->sched[next].first == idx) { int w = st->sched[next++].second; if (std::find(en.begin(), en.end(), w) != en.end()) r = w; } if (idx < 6000) { auto &x = sh_->d[idx]; x.n = std::min<size_t>(12, en.size()); for (int i = 0; i < x.n; i++) x.en[i] = en[i]; x.chosen = r; x.dflt = d; x.kind = kind; } sh_->ndec++; }
        last = r; return r;
    }
};
void describe(mc::Ctx &ctx, const SProg &p, const Stop &s) {
    ctx.clear_note(); ctx.note("program " + p.name); for (size_t i = 0; i < p.init.size() && i < 12; i++) ctx.note("init   > " + mc::esc(p.init[i], 150)); if (p.init.size() > 12) ctx.note(mc::fmt("... %zu commands", p.init.size())); for (auto &x : p.partial) ctx.note("sent so far by a client > " + mc::esc(x, 150)); for (auto &x : p.stuck) ctx.note("reply blocked on the network > " + mc::esc(x.back(), 150)); for (size_t i = 0; i < p.conns.size(); i++) for (auto &c : p.conns[i]) ctx.note(mc::fmt("conn %zu > ", i) + mc::esc(c, 150)); if (!s.command.empty()) ctx.note("another conn > " + mc::esc(s.command)); string t = "schedule: default"; for (auto &d : s.sched) t += mc::fmt(", at decision %d run thread %d", d.first, d.second); for (auto &d : s.sig) t += mc::fmt(", at step %d signal %d%s", d.first, d.second, s.conn ? " and a client connects" : ""); ctx.note(t);
}
// in the booted and initialised server, in a child: one way to stop it
void run_one(mc::Ctx &ctx, const SProg &p, const Stop &s, const vector<int> &cs, const std::set<int> &act) {
    describe(ctx, p, s); sh_->ndec = sh_->steps = 0; Pol pol; pol.st = &s; pol.act = &act; vector<size_t> pos(cs.size(), 0); vector<string> got(cs.size()); string bad; int stopc = -1;
    auto next = [&](size_t i) { if (pos[i] < p.conns[i].size()) sim::send(cs[i], p.conns[i][pos[i]++]); };
    for (size_t i = 0; i < cs.size(); i++) sim::set_on_reply(cs[i], [&, i](int) { string t = sim::peek(cs[i]); if (t.size() < 2 || t.compare(t.size() - 2, 2, "\r\n")) { if (t.empty() || t.back() != '\n') return; } got[i] += sim::take(cs[i]); next(i); });
    vfs::cur_tag = 0; uint64_t t0 = sim::now_us(); sim::interrupt_points(true); sim::early_wake_us = 10000; sim::step_limit = 400000; sim::policy = &pol; sim::points_enabled = true; bool lim = false; if (p.later) sim::set_on_reply(0 > 1 ? 0 : cs.empty() ? -1 : cs[0], nullptr), lim = false;
    if (p.later) { for (size_t i = 0; i < cs.size(); i++) sim::set_on_reply(cs[i], [&, i](int) { string t = sim::peek(cs[i]); if (t.empty() || t.back() != '\n') return; got[i] += sim::take(cs[i]); next(i); }); }
    for (size_t i = 0; i < cs.size(); i++) next(i);
    if (!s.command.empty()) { stopc = sim::connect("127.0.0.1"); sim::send(stopc, s.command); }
    lim = !sim::run(); for (int i = 0; i < 40 && !lim && !sim::server_exited(); i++) sim::advance_us(5000); // what is under way proceeds
    if (s.command.empty() && pol.ns < s.sig.size() && !sim::server_exited()) { while (pol.ns < s.sig.size()) { sim::interrupt(s.sig[pol.ns++].second); sim::run(); } }
    for (int i = 0; i < 3000 && !lim && !sim::server_exited(); i++) { sim::advance_us(i < 400 ? 5000 : 50000); }
    bool ex = sim::server_exited(); uint64_t took = sim::now_us() - t0; if (ex) for (int i = 0; i < 40; i++) sim::advance_us(50000); sim::policy = nullptr; sim::points_enabled = false;
    ctx.trans(sh_->steps); auto blocked = [&] { string m; for (auto &b : sim::blocked_report()) m += " [" + b + "]"; return m; };
    if (lim) { ctx.fail("runs on", "the threads run without end:" + blocked()); return; }
    if (!ex) { ctx.fail("stop", "the server does not stop:" + blocked()); return; }
    if (sim::server_exit_code()) { ctx.fail("code", mc::fmt("the server ends with status %d", sim::server_exit_code())); return; }
    for (auto &e : sim::sim_errors) { ctx.fail("runtime", e); return; }
    if (!s.sig.empty() && p.name != "stop with delay" && took > 12000000) { ctx.fail("late after a signal", mc::fmt("the server needs %llu ms to stop", (unsigned long long)took / 1000)); return; }
    if (s.command == "shutdown 1\r\n" && p.answered) { for (size_t i = 0; i < cs.size(); i++) if (pos[i] < p.conns[i].size() || got[i].empty()) { ctx.fail("unanswered", mc::fmt("connection %zu sent a request in the second before the stop and was not answered", i)); return; } if (took < 700000) { ctx.fail("early", mc::fmt("the server stops after %llu ms instead of a second", (unsigned long long)took / 1000)); return; } }
    if (took > 130000000) { ctx.fail("late", mc::fmt("the server needs %llu ms to stop", (unsigned long long)took / 1000)); return; }
    string st; for (int i = 2; i <= sim::fiber_count(); i++) if (sim::fiber_state(i) != 6) st += mc::fmt(" %s", sim::fiber_name(i)); if (!st.empty()) { ctx.fail("threads", "threads left when the server ends:" + st + blocked()); return; }
    string sg = p.name; for (auto &g : got) sg += "|" + g; ctx.state(mc::hash(sg + mc::fmt("%llu", (unsigned long long)took / 100000)));
}
struct Lim { int bound; bool two; int cap; };
void drive(mc::Ctx &ctx, const vector<SProg> &ps, Lim lm, const Strs &commands) {
    sh_ = (Shm *)mmap(nullptr, sizeof *sh_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); uint64_t runs = 0; size_t maxd = 0, maxs = 0;
    // one case per program and kind of stop, so that the work spreads over the workers
    int K = 6; for (auto &p : ps) for (int kind = 0; kind < K + (int)commands.size(); kind++) { if (kind >= K && p.name == "distant stop scheduled") continue; /* no new connection any more */ if (!ctx.mine()) continue; if (ctx.out_of_time()) return;
        ctx.isolated([&] { ctx.clear_note(); ctx.note("program " + p.name); Strs a = {"-t", "4", "-g", "10"}; for (auto &x : p.args) a.push_back(x); vfs::load({}); mc::boot_std(a); sim::settle(); int adm = sim::connect("127.0.0.1"); sim::run(); for (auto &x : p.init) { if (x[0] == '+') sim::advance_s(atoll(x.c_str() + 1)); else sim::rpc(adm, x); } if (!p.later) { sim::settle(); { uint64_t t = sim::now_us() % 1000000; sim::advance_us(1000000 - t + 2000); } }
            vector<int> cs; for (size_t i = 0; i < p.conns.size(); i++) { cs.push_back(sim::connect()); sim::run(); } for (auto &x : p.partial) { int c = sim::connect(); sim::run(); sim::send(c, x); sim::run(); } for (size_t i = 0; i < p.stuck.size(); i++) { int c = sim::connect(); sim::run(); for (size_t j = 0; j + 1 < p.stuck[i].size(); j++) sim::rpc(c, p.stuck[i][j]); vector<int> sc; if (p.at[i]) sc.push_back(p.at[i]); sc.push_back(-1); sim::send_script(c, sc); sim::send(c, p.stuck[i].back()); sim::run(); }
            std::set<int> act; sh_->nmtx = 0; auto go = [&](const Stop &s) { ctx.isolated([&] { run_one(ctx, p, s, cs, act); }, 120); ctx.trace(); runs++; };
            Stop base; int kd = kind; if (kd < K) { base.sig = {{-1, SIGTERM}}; if (kd >= 4) base.conn = true, kd = kd == 4 ? 0 : 3; } else base.command = commands[kd - K], kd = K;
            if (kd == 0) { go(base); uint32_t n = std::min<uint32_t>(sh_->steps, lm.cap); maxs = std::max<size_t>(maxs, n); for (uint32_t i = 0; i < n; i++) { if (ctx.out_of_time_fast()) break; Stop s = base; s.sig = {{(int)i, i % 2 ? SIGINT : SIGTERM}}; go(s); } } // a signal at every step
            else if (kd == 1) { go(base); uint32_t n = std::min<uint32_t>(sh_->steps, lm.cap); if (lm.two || true) { Stop f; f.sig = {{(int)n / 2, SIGTERM}}; go(f); uint32_t n2 = std::min<uint32_t>(sh_->steps, lm.cap * 2); for (uint32_t j = n / 2 + 1; j < n2; j++) { if (ctx.out_of_time_fast()) break; Stop s; s.sig = {{(int)n / 2, SIGTERM}, {(int)j, SIGTERM}}; go(s); } } } // a second signal at every later step
            else { // schedules
                if (kd == 2) base.sig = {{3, SIGTERM}}; else if (kd == 3) { go(base); base.sig = {{(int)std::min<uint32_t>(sh_->steps, lm.cap) / 3, SIGTERM}}; }
                for (int k = 0; k < 2; k++) { go(base); act.clear(); for (uint32_t i = 0; i < sh_->nmtx; i++) if (sh_->mt[i].shared) act.insert(sh_->mt[i].m); }
                vector<Stop> stck{base}; int n = 0; while (!stck.empty() && n++ < lm.cap * 3) { if (ctx.out_of_time_fast()) break; Stop s = stck.back(); stck.pop_back(); go(s); uint32_t nd = std::min<uint32_t>(sh_->ndec, 6000); maxd = std::max<size_t>(maxd, nd); if ((int)s.sched.size() >= lm.bound) continue; int from = s.sched.empty() ? 0 : s.sched.back().first + 1; vector<Stop> add; for (int i = nd - 1; i >= from; i--) { auto &x = sh_->d[i]; for (int k = 0; k < x.n; k++) if (x.en[k] != x.dflt) { Stop t = s; t.sched.push_back({i, x.en[k]}); stck.push_back(t); } } }
                if (!stck.empty()) ctx.note_bound(mc::fmt("%s: cut off after %d schedules", p.name.c_str(), n));
            }
            if (ctx.case_index() % 13 == 1) ctx.sample(p.name + mc::fmt(" stop %d: %llu executions, %zu decisions, %zu signal points", kind, (unsigned long long)runs, maxd, maxs));
        }, 3000);
    }
}
Strs list_of(const char *k, int n) { Strs r; for (int i = 0; i < n; i++) r.push_back(string("lop insert ") + k + " -1 3" + (i ? "" : " create 0 0 5000") + "\r\nabc\r\n"); return r; }
Strs cat2(Strs a, const Strs &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
vector<SProg> programs() {
    vector<SProg> v; string big(6000, 'b'); Strs some = {kset("set", "a", "1"), kset("set", "p:b", "2"), "lop insert l 0 1 create 0 0 5\r\nx\r\n", "bop insert t 1 1 create 0 0 5\r\nx\r\n", "mop insert m f 1 create 0 0 5\r\nx\r\n", "sop insert s 1 create 0 0 5\r\nx\r\n"}, flushed; for (int i = 0; i < 6; i++) flushed.push_back(kset("set", "f" + S(i), "x"));
    v.push_back({"idle"}); v.push_back({"two clients", {}, some, {{kset("set", "a", "5"), "get a\r\n", "incr a 1\r\n"}, {"lop insert l 0 1\r\ny\r\n", "delete l\r\n", "bop get t 0..9\r\n"}}});
    v.push_back({"half a command", {}, some, {}, {"get", "set a 0 0 10\r\nabc", "lop insert l 0 10\r\nab", "mop insert m g 10\r\n", "bop insert t 5 6\r\nxx", "sop insert s 5\r\nq", "mget 5 2\r\na ", "append a 0 0 5\r\n1", string("\x80\x01\0\x01", 4), string("\x80\x01\0\x01\x08\0\0\0\0\0\0\x0e\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0kk", 34)}});
    v.push_back({"replies blocked", {}, cat2(some, {"set v 0 0 6000\r\n" + big + "\r\n", "lop insert L 0 6000 create 0 0 5\r\n" + big + "\r\n", "bop insert T 1 6000 create 0 0 5\r\n" + big + "\r\n"}), {}, {}, {{"get v\r\n"}, {"lop get L 0..-1\r\n"}, {"bop get T 0..9\r\n"}, {"gets v a\r\n"}, {"stats\r\n"}, {"mget 3 2\r\nv a\r\n"}, {"lop insert l 0 1 pipe\r\nx\r\nlop insert l 0 1\r\nx\r\n"}}, {0, 100, 0, 50, 0, 3, 0}});
    v.push_back({"scrub", {"-X", "scrub.so"}, cat2(flushed, {"config scrub_count 16\r\n", "+3", "flush_all\r\n", "+1"}), {{"scrub\r\n", "get f1\r\n"}}});
    { Strs many; for (int i = 0; i < 400; i++) many.push_back(kset("set", "g" + S(i), "x")); v.push_back({"long scrub", {"-X", "scrub.so"}, cat2(many, {"config scrub_count 16\r\n", "+3", "flush_all\r\n", "+1"}), {{"scrub\r\n", "get f1\r\n"}}}); v.push_back({"long dump", {}, many, {{"dump start key /vfs/d\r\n", "get a\r\n"}}}); v.push_back({"command log, many commands", {}, cat2(some, {"cmdlog start /vfs\r\n"}), {{string(200, ' ') + "get a\r\n", string("get ") + string(240, 'k') + "\r\n"}, {"get " + string(240, 'k') + "\r\n", "cmdlog stop\r\n"}}}); }
    v.push_back({"distant stop scheduled", {}, cat2(some, {"shutdown 600\r\n"}), {{"get a\r\n"}}});
    v.push_back({"scrub next to changes", {"-X", "scrub.so"}, cat2(flushed, {"config scrub_count 16\r\n"}), {{"scrub\r\n", "scrub\r\n"}, {"delete f1\r\n", kset("set", "f1", "y")}}});
    v.push_back({"dump", {}, cat2(some, flushed), {{"dump start key /vfs/d\r\n", "get a\r\n"}}});
    v.push_back({"dump stopped", {}, some, {{"dump start key /vfs/d\r\n", "dump stop\r\n"}, {"delete a\r\n"}}});
    v.push_back({"collection being deleted", {}, cat2(list_of("big", 900), {kset("set", "a", "1")}), {{"delete big\r\n", "get a\r\n"}}});
    v.push_back({"two collections being deleted", {}, cat2(list_of("big", 400), list_of("big2", 400)), {{"delete big\r\n"}, {"delete big2\r\n", "lop insert big 0 1 create 0 0 5\r\nx\r\n"}}});
    v.push_back({"command log", {}, some, {{"cmdlog start /vfs/\r\n", "get a\r\n", "cmdlog stats\r\n"}, {kset("set", "a", "7")}}}); v.push_back({"command log stopped", {}, some, {{"cmdlog start /vfs\r\n", "get a\r\n", "cmdlog stop\r\n"}, {"get a\r\n", "get a\r\n"}}}); v.push_back({"command log running", {}, cat2(some, {"cmdlog start /vfs\r\n", "get a\r\n"}), {{"get a\r\n", "cmdlog stop\r\n", "cmdlog start /vfs\r\n"}}});
    v.push_back({"long query detection", {}, cat2(some, {"lqdetect start 1\r\n"}), {{"lop get l 0..-1\r\n", "lqdetect show\r\n"}, {"bop get t 0..9\r\n", "lqdetect stop\r\n"}}});
    v.push_back({"connections come and go", {}, {}, {{"quit\r\n"}, {"version\r\n", "quit\r\n"}, {"get a\r\n"}}});
    v.push_back({"settings", {}, some, {{"config maxconns 50\r\n", "config memlimit 80\r\n"}, {"config verbosity 1\r\n", "stats reset\r\n", "stats detail on\r\n", "stats detail dump\r\n"}}});
    v.push_back({"flushes", {}, some, {{"flush_all\r\n", "flush_prefix p\r\n"}, {kset("set", "p:c", "1"), "flush_all 2\r\n"}}});
    v.push_back({"stop asked twice", {}, some, {{"shutdown 2\r\n", "shutdown 1\r\n"}, {"shutdown 3\r\n", "get a\r\n"}}}); v.push_back({"stop with delay", {}, some, {{"shutdown\r\n", "get a\r\n", "quit\r\n"}, {"get a\r\n"}}});
    for (auto &x : v) if (!x.name.compare(0, 4, "stop") || x.name == "distant stop scheduled" || x.name == "connections come and go") x.answered = false;
    return v;
}
Strs stops() { return {"shutdown 0\r\n", "shutdown\r\n", "shutdown 1\r\n"}; }
}
SUITE_B("C42", stop_any_time, "asmall", BOTH, 200, 3000) {
    auto ps = programs(); ctx.note_bound(mc::fmt("%zu situations (idle, commands, half commands, blocked replies, scrub, dump, deletion of collections, command log, long query detection, settings, flushes): SIGTERM/SIGINT at every step, a second signal at every later step (also while the main thread holds a lock), the shutdown command, each with all schedules of at most %d deviations", ps.size(), ctx.thorough ? 2 : 1)); drive(ctx, ps, {ctx.thorough ? 2 : 1, true, ctx.thorough ? 3000 : 260}, stops());
}
SUITE_B("C42", pairs, "tsan", BOTH, 100, 1500) { // control commands next to each other and to item commands: all are answered
    vfs::load({}); mc::boot_std({"-t", "4", "-g", "10", "-X", "scrub.so"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 2 : 1; e.o.fork = true; e.o.leak = false; e.o.lf = true; e.o.free_blocked = 0; sim::early_wake_us = 10000; e.o.setup = [] { uint64_t t = sim::now_us() % 1000000; sim::advance_us(1000000 - t + 2000); };
    for (auto &x : cat2({kset("set", "a", "1"), kset("set", "p:b", "2"), "bop insert t 1 1 create 0 0 5\r\nx\r\n", "config scrub_count 2\r\n"}, list_of("big", 70))) sim::rpc(e.adm, x);
    Strs ctl = {"stats\r\n", "stats reset\r\n", "stats settings\r\n", "stats items\r\n", "stats slabs\r\n", "stats prefixes\r\n", "stats detail on\r\n", "stats detail dump\r\n", "stats scrub\r\n", "config maxconns 50\r\n", "config memlimit 80\r\n", "config verbosity 0\r\n", "config max_list_size 100\r\n", "cmdlog start /vfs\r\n", "cmdlog stop\r\n", "cmdlog stats\r\n", "lqdetect start 1\r\n", "lqdetect stop\r\n", "lqdetect show\r\n", "lqdetect stats\r\n", "scrub\r\n", "dump start key /vfs/d\r\n", "dump stop\r\n", "flush_all\r\n", "flush_prefix p\r\n", "scan key 0\r\n", "scan prefix 0\r\n", "scan key 0 count 3\r\n"};
    Strs item = {kset("set", "p:c", "3"), "delete big\r\n", "get a p:b\r\n", "bop get t 0..9\r\n", "mget 5 2\r\na p:b\r\n", "lop get big 0..2\r\n", "quit\r\n"};
    vector<conc::Prog> ps; auto add = [&](const string &n, const Strs &init, const Strs &a, const Strs &b) { conc::Prog p; p.name = n; p.init = init; p.conns = {a, b}; ps.push_back(p); };
    for (size_t i = 0; i < ctl.size(); i++) { for (size_t j = i; j < ctl.size(); j++) { add("pair", {}, {ctl[i]}, {ctl[j]}); if (ctl[i].compare(0, 4, "cmdl") == 0 || ctl[j].compare(0, 4, "cmdl") == 0) add("pair while logging", {"cmdlog start /vfs\r\n", "get a\r\n"}, {ctl[i]}, {ctl[j]}); if (ctl[i].compare(0, 4, "lqde") == 0 || ctl[j].compare(0, 4, "lqde") == 0) add("pair while detecting", {"lqdetect start 1\r\n", "lop get big 0..5\r\n"}, {ctl[i]}, {ctl[j]}); } for (auto &x : item) if (x != "quit\r\n") { add("control and item", {}, {ctl[i]}, {x}); add("control and item, logging", {"cmdlog start /vfs\r\n", "lqdetect start 1\r\n", "stats detail on\r\n"}, {ctl[i]}, {x}); add("two controls and item", {}, {ctl[i], ctl[(i * 7 + x.size()) % ctl.size()]}, {x, "get a\r\n"}); } }
    e.o.finish = [&](conc::Run &r) { for (int i = 0; i < 30; i++) sim::advance_us(20000); r.extra = ""; for (auto &x : Strs{"stats\r\n", "cmdlog stop\r\n", "lqdetect stop\r\n", "dump stop\r\n"}) { string t = sim::rpc(e.adm, x); if (t.size() < 2 || t.compare(t.size() - 2, 2, "\r\n")) { r.extra = "no answer to " + mc::esc(x); return; } } for (int i = 0; i < 20; i++) sim::advance_us(20000); for (int i = 0; i < 2; i++) if (sim::rpc(e.cs[i], "get a\r\n").find("END\r\n") == string::npos) r.extra = mc::fmt("connection %d gets no answer any more", i); for (auto &x : Strs{"stats scrub\r\n", "stats dump\r\n"}) if (sim::rpc(e.adm, x).find("running") != string::npos) r.extra = "a background task does not end: " + mc::esc(x); };
    e.o.judge = [&](const conc::Run &r) -> string { if (!r.extra.empty()) return "stuck: " + r.extra; for (auto &x : r.ops) if (x.rep.compare(0, 5, "ERROR") == 0) return "refused: " + mc::esc(x.req, 60) + " " + mc::esc(x.rep, 80); return ""; };
    { vector<conc::Prog> w; for (size_t i = 0; i < ps.size(); i += ps.size() / 60 + 1) w.push_back(ps[i]); e.warm(w); }
    ctx.note_bound(mc::fmt("%zu programs (all pairs of control commands, controls next to item commands), all schedules with at most %d preemptions, background threads included", ps.size(), e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; e.explore(p); if (ctx.case_index() % 97 == 1) ctx.sample(p.name + ": " + mc::esc(p.conns[0][0], 60) + " || " + mc::esc(p.conns[1][0], 60) + "; so far " + e.report()); if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
