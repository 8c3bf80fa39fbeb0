#include "conc.h"
#include <sys/mman.h>
#include <cstring>
#include <algorithm>
#include <unistd.h>
namespace conc {
using namespace sim;
static void ps(string &o, const string &s) { uint32_t n = s.size(); o.append((char *)&n, 4); o += s; }
static void pi(string &o, uint64_t v) { o.append((char *)&v, 8); }
struct Rd { const string &s; size_t p = 0; bool bad = false; uint64_t i() { uint64_t v = 0; if (p + 8 > s.size()) { bad = true; return 0; } memcpy(&v, &s[p], 8); p += 8; return v; } string st() { uint32_t n; if (p + 4 > s.size()) { bad = true; return ""; } memcpy(&n, &s[p], 4); p += 4; if (p + n > s.size()) { bad = true; return ""; } p += n; return s.substr(p - n, n); } };
static void po(string &o, const vector<Op> &v) { pi(o, v.size()); for (auto &x : v) { pi(o, x.conn); ps(o, x.req); ps(o, x.rep); pi(o, x.call); pi(o, x.ret); pi(o, x.done); } }
static void ro(Rd &r, vector<Op> &v) { uint64_t n = r.i(); for (uint64_t k = 0; k < n && !r.bad; k++) { Op x; x.conn = r.i(); x.req = r.st(); x.rep = r.st(); x.call = r.i(); x.ret = r.i(); x.done = r.i(); v.push_back(x); } }
string Run::pack() const { string o; pi(o, decs.size()); for (auto &d : decs) { pi(o, d.en.size()); for (int e : d.en) pi(o, e); pi(o, d.chosen); pi(o, d.dflt); pi(o, d.blocked); pi(o, d.kind); } po(o, ops); po(o, init); po(o, fin); pi(o, problems.size()); for (auto &x : problems) ps(o, x); ps(o, extra); pi(o, diverged); pi(o, limit); return o; }
bool Run::unpack(const string &s) { Rd r{s}; uint64_t n = r.i(); for (uint64_t k = 0; k < n && !r.bad; k++) { Dec d; uint64_t m = r.i(); for (uint64_t j = 0; j < m && !r.bad; j++) d.en.push_back(r.i()); d.chosen = r.i(); d.dflt = r.i(); d.blocked = r.i(); d.kind = r.i(); decs.push_back(d); } ro(r, ops); ro(r, init); ro(r, fin); n = r.i(); for (uint64_t k = 0; k < n && !r.bad; k++) problems.push_back(r.st()); extra = r.st(); diverged = r.i(); limit = r.i(); return !r.bad; }
// ---- mutexes used by more than one thread (shared with children)
struct MSet { size_t n; struct { const void *m; int f; bool shared; } e[2048]; };
static MSet *ms_ = nullptr; static std::map<const void *, int> act; // active shared set
static size_t shared_count() { size_t k = 0; for (size_t i = 0; i < ms_->n; i++) k += ms_->e[i].shared; return k; }
static void saw(const void *m, int f) { for (size_t i = 0; i < ms_->n; i++) if (ms_->e[i].m == m) { if (ms_->e[i].f != f) ms_->e[i].shared = true; return; } if (ms_->n < 2048) { ms_->e[ms_->n].m = m; ms_->e[ms_->n].f = f; ms_->e[ms_->n].shared = false; ms_->n++; } }
static void activate() { act.clear(); for (size_t i = 0; i < ms_->n; i++) if (ms_->e[i].shared) act[ms_->e[i].m] = 1; tsanctl::activate(tsanctl::racy()); }
struct Pol : Policy {
    const Sched *s; vector<Dec> *decs; size_t next = 0; bool div = false; bool off = false;
    int choose(const vector<int> &en, int cur, int kind, const void *obj) override {
        if (kind == PK_LOCK && cur > 0) saw(obj, cur);
        if (en.size() == 1) return en[0];
        bool stay = cur > 0 && kind != PK_SLEEP && kind != PK_YIELD; int d = cur;
        if (!stay) { d = en[0]; int from = cur > 0 ? cur : last; for (int e : en) if (e > from) { d = e; break; } if (d == cur) for (int e : en) if (e != cur) { d = e; break; } }
        bool pt; switch (kind) { case PK_LOCK: pt = !stay || act.count(obj); break; case PK_MEM: case PK_READ: case PK_SEND: case PK_ACCEPT: case PK_FS: case PK_SLEEP: case PK_YIELD: case PK_CREATE: pt = true; break; default: pt = !stay; }
        int r = d;
        if (pt && !off) {
            int idx = decs->size(); if (next < s->size() && (*s)[next].first == idx) { int w = (*s)[next].second; next++; if (std::find(en.begin(), en.end(), w) != en.end()) r = w; else div = true; }
            decs->push_back({en, r, d, !stay, kind});
        }
        last = r; return r;
    }
    int last = 0;
};
void Engine::connect(int n) {
    tsanctl::init_worker(); if (!ms_) ms_ = (MSet *)mmap(nullptr, sizeof(MSet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(ms_, 0, sizeof *ms_);
    adm = sim::connect(); sim::run(); std::set<int> used; auto fib = [&](int c) { int f = 0; sim::set_on_read(c, [&](int) { f = sim::cur_fiber(); }); sim::rpc(c, "version\r\n"); sim::set_on_read(c, nullptr); return f; }; used.insert(fib(adm));
    for (int i = 0; i < 24 && (int)cs.size() < n; i++) { int c = sim::connect(); sim::run(); if (used.insert(fib(c)).second) cs.push_back(c); else { sim::shut(c); sim::run(); } }
    if ((int)cs.size() < n) { fprintf(stderr, "sim fatal: not enough worker threads\n"); _exit(97); }
    sim::settle(); base = sim::slab().live_bytes;
}
static string fill(const string &req, const std::map<string, string> &own, const std::map<string, string> &ini) { string o = req; for (;;) { size_t p = o.find("@L("); if (p == string::npos) return o; size_t q = o.find(')', p); string k = o.substr(p + 3, q - p - 3); auto i = own.find(k); string t = i != own.end() ? i->second : ini.count(k) ? ini.at(k) : "999999999999"; o.replace(p, q - p + 1, t); } }
static void tokens(const string &rep, std::map<string, string> &m) { size_t p = 0; while (p < rep.size()) { size_t e = rep.find("\r\n", p); if (e == string::npos) return; if (rep.compare(p, 6, "VALUE ") == 0) { auto t = model::split(rep.substr(p, e - p)); if (t.size() >= 4) { if (t.size() == 5) m[t[1]] = t[4]; e += 2 + atol(t[3].c_str()); } } p = e + 2; } }
// the reply is complete when the server waits for the next request: recognised by the reply count of the connection
static bool noreply(const string &r) { string l = r.substr(0, r.find("\r\n")); auto t = model::split(l); return !t.empty() && t.back() == "noreply"; }
Run Engine::exec_here(const Prog &p, const Sched &s) {
    Run r; std::map<string, string> ini; if (o.setup) o.setup();
    auto seq = [&](const Strs &l, vector<Op> &to) { for (auto &c : l) { if (c[0] == '+') { sim::advance_s(atoll(c.c_str() + 1)); Op x; x.req = c; to.push_back(x); continue; } if (c[0] == '~') { sim::settle(); continue; } Op x; x.conn = -1; x.req = fill(c, {}, ini); x.rep = sim::rpc(adm, x.req); x.done = true; tokens(x.rep, ini); to.push_back(x); } };
    seq(p.init, r.init); sim::settle();
    vector<int> cs0 = cs; if (p.fresh) cs.resize(p.conns.size() - p.fresh); for (int i = 0; i < p.fresh; i++) cs.push_back(sim::connect());
    uint64_t stamp = 1; size_t n = p.conns.size(); vector<size_t> pos(n, 0); vector<std::map<string, string>> own(n); vector<vector<size_t>> idx(n); // open operations of a connection, oldest first
    for (auto &c : p.conns) (void)c;
    std::function<void(size_t)> next = [&](size_t i) { while (pos[i] < p.conns[i].size()) { string q = p.conns[i][pos[i]++]; if (q[0] == '!') { if (q == "!shut") sim::shut(cs[i]); else if (q == "!reset") sim::reset(cs[i]); continue; } q = fill(q, own[i], ini); Op x; x.conn = i; x.req = q; x.call = 0; r.ops.push_back(x); idx[i].push_back(r.ops.size() - 1); size_t e = q.find("\r\n"); if (p.split && e != string::npos && e + 2 < q.size()) { sim::send(cs[i], q.substr(0, e + 2)); sim::send(cs[i], q.substr(e + 2)); } else sim::send(cs[i], q); if (!noreply(q)) break; } };
    for (size_t i = 0; i < n; i++) { int c = cs[i]; if (i < p.sscript.size()) sim::send_script(c, p.sscript[i]);
        sim::set_on_read(c, [&, i](int) { for (size_t k : idx[i]) if (!r.ops[k].call) { r.ops[k].call = stamp++; break; } });
        sim::set_on_reply(c, [&, i, c](int) { if (sim::peek(c).size() < 2 || (o.lf ? sim::peek(c).back() != 10 : sim::peek(c).compare(sim::peek(c).size() - 2, 2, "\r\n"))) return; string t = sim::take(c); for (size_t k : idx[i]) { r.ops[k].ret = stamp; r.ops[k].done = true; } stamp++; if (!idx[i].empty()) r.ops[idx[i].back()].rep = t; else r.problems.push_back("unexpected bytes on connection " + std::to_string(i) + ": " + mc::esc(t, 100)); idx[i].clear(); tokens(t, own[i]); next(i); }); }
    Pol pol; pol.s = &s; pol.decs = &r.decs; sim::policy = &pol; sim::points_enabled = true; tsanctl::begin(); uint64_t lim = sim::step_limit; sim::step_limit = 200000;
    for (size_t i = 0; i < n; i++) next(i);
    if (!sim::run()) r.limit = true;
    tsanctl::end(); sim::policy = nullptr; sim::points_enabled = false; sim::step_limit = lim;
    for (size_t i = 0; i < n; i++) { sim::set_on_read(cs[i], nullptr); sim::set_on_reply(cs[i], nullptr); sim::send_script(cs[i], {}); }
    r.diverged = pol.div || pol.next < s.size();
    if (r.limit) r.problems.push_back("no end: the threads run forever without the requests being answered");
    if (sim::mutex_stuck()) { string m = "deadlock:"; for (auto &b : sim::blocked_report()) m += " [" + b + "]"; r.problems.push_back(m); }
    for (auto &x : r.ops) if (!x.done && !noreply(x.req)) r.problems.push_back("never answered: connection " + std::to_string(x.conn) + " " + mc::esc(x.req, 100));
    for (size_t i = 0; i < n; i++) { string t = sim::take(cs[i]); if (!t.empty()) r.problems.push_back("incomplete or surplus reply bytes on connection " + std::to_string(i) + ": " + mc::esc(t, 100)); }
    for (auto &e : sim::sim_errors) r.problems.push_back(e); sim::sim_errors.clear();
    if (p.fresh) { for (size_t i = n - p.fresh; i < n; i++) { sim::shut(cs[i]); } sim::run(); for (size_t i = n - p.fresh; i < n; i++) sim::forget(cs[i]); cs = cs0; }
    if (r.problems.empty() && o.finish) o.finish(r);
    if (r.problems.empty()) { seq(p.final_, r.fin); vector<Op> dummy; seq(p.cleanup, dummy); sim::settle(); if (o.leak && sim::slab().live_bytes != base) r.problems.push_back(mc::fmt("item memory in use after everything was removed: %llu bytes (before: %llu)", (unsigned long long)sim::slab().live_bytes, (unsigned long long)base)); if (sim::server_exited()) r.problems.push_back("the server exited"); }
    return r;
}
static string text(const Prog &p, const Sched &s, const Run *r) {
    string t = "program " + p.name + "\n"; for (auto &c : p.init) t += "init   > " + mc::esc(c, 300) + "\n"; for (size_t i = 0; i < p.conns.size(); i++) for (auto &c : p.conns[i]) t += "conn " + std::to_string(i) + " > " + mc::esc(c, 300) + "\n";
    t += "schedule: default";
    for (auto &d : s) t += mc::fmt(", at decision %d%s run thread %d", d.first, r && d.first < (int)r->decs.size() ? mc::fmt(" (%s)", pk_name(r->decs[d.first].kind)).c_str() : "", d.second); t += "\n";
    if (r) { for (auto &x : r->init) t += "init   " + mc::esc(x.req, 300) + " -> " + mc::esc(x.rep, 500) + "\n"; for (auto &x : r->ops) t += mc::fmt("conn %d [%llu,%llu] ", x.conn, (unsigned long long)x.call, (unsigned long long)x.ret) + mc::esc(x.req, 300) + " -> " + (x.done ? mc::esc(x.rep, 500) : "(no answer)") + "\n"; for (auto &x : r->fin) t += "final  " + mc::esc(x.req, 300) + " -> " + mc::esc(x.rep, 500) + "\n"; if (!r->extra.empty()) t += "also: " + mc::esc(r->extra, 3000) + "\n"; }
    return t;
}
static string *box; static char *boxmem; static const size_t BOX = 8 << 20;
Run Engine::exec(const Prog &p, const Sched &s) {
    runs++; ctx.trace(); ctx.clear_note(); ctx.note(text(p, s, nullptr));
    if (!o.fork) { Run r = exec_here(p, s); ctx.trans(r.decs.size()); return r; }
    if (!boxmem) boxmem = (char *)mmap(nullptr, BOX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t *len = (uint64_t *)boxmem; *len = 0;
    Run r; bool ok = ctx.isolated([&] { Run x = exec_here(p, s); string k = x.pack(); if (k.size() + 8 > BOX) { x.decs.clear(); x.problems.push_back("result too large"); k = x.pack(); } memcpy(boxmem + 8, k.data(), k.size()); *len = k.size(); }, 20);
    if (!ok || !*len || !r.unpack(string(boxmem + 8, *len))) { r = Run(); r.problems.push_back("@died"); }
    ctx.trans(r.decs.size()); return r;
}
// ---- linearizability
static void atoms(const vector<Op> &ops, vector<Op> &out) { // multi-key reads and pipelines are sequences of single operations
    for (auto &x : ops) { string l = x.req.substr(0, x.req.find("\r\n")); auto t = model::split(l);
        if ((t[0] == "get" || t[0] == "gets") && t.size() > 2) { vector<string> blocks; size_t p = 0; bool okr = true; std::map<string, string> b; while (okr && x.rep.compare(p, 5, "END\r\n")) { size_t e = x.rep.find("\r\n", p); if (e == string::npos) { okr = false; break; } auto v = model::split(x.rep.substr(p, e - p)); if (v.size() < 4 || v[0] != "VALUE") { okr = false; break; } size_t q = e + 2 + atol(v[3].c_str()) + 2; b[v[1]] = x.rep.substr(p, q - p); p = q; if (p >= x.rep.size()) okr = false; }
            if (okr) { for (size_t i = 1; i < t.size(); i++) { Op y = x; y.req = t[0] + " " + t[i] + "\r\n"; y.rep = (b.count(t[i]) ? b[t[i]] : string()) + "END\r\n"; out.push_back(y); } continue; } }
        out.push_back(x); } }
string linearize(const Prog &p, const vector<Op> &init, const vector<Op> &ops0, const vector<Op> &fin) {
    model::Model m0; m0.now = sim::now_s(); string err; // the clock stands still in the window
    int64_t back = 0; for (auto &x : init) if (x.req[0] == '+') back += atoll(x.req.c_str() + 1); for (auto &x : fin) if (x.req[0] == '+') back += atoll(x.req.c_str() + 1); m0.now -= back;
    for (auto &x : init) { if (x.req[0] == '+') { m0.now += atoll(x.req.c_str() + 1); continue; } m0.exec(x.req, &x.rep, err); if (!err.empty()) return "setup " + mc::esc(x.req, 100) + ": " + err; }
    vector<Op> ops; atoms(ops0, ops); size_t n = ops.size(); vector<bool> used(n, false); string first; int best = -1;
    std::function<bool(model::Model &, size_t)> rec = [&](model::Model &m, size_t k) -> bool {
        if (k == n) { model::Model f = m; for (auto &x : fin) { if (x.req[0] == '+') { f.now += atoll(x.req.c_str() + 1); continue; } string e; f.exec(x.req, &x.rep, e); if (!e.empty()) { if ((int)n > best) { best = n; first = "final " + mc::esc(x.req, 100) + ": " + e; } return false; } } return true; }
        uint64_t lim = ~0ull; for (size_t i = 0; i < n; i++) if (!used[i] && ops[i].done && ops[i].ret < lim) lim = ops[i].ret;
        for (size_t i = 0; i < n; i++) { if (used[i] || ops[i].call > lim) continue; bool earlier = false; for (size_t j = 0; j < i && !earlier; j++) if (!used[j] && ops[j].conn == ops[i].conn) earlier = true; if (earlier && !(ops[i].call == 0)) { bool par = false; for (size_t j = 0; j < i; j++) if (!used[j] && ops[j].conn == ops[i].conn && (ops[j].call != ops[i].call || ops[j].ret != ops[i].ret)) par = true; if (par) continue; }
            model::Model c = m; string e; bool nr = noreply(ops[i].req); if (nr) { c.exec(ops[i].req, nullptr, e); e.clear(); } else c.exec(ops[i].req, &ops[i].rep, e);
            if (!e.empty()) { if ((int)k > best) { best = k; first = mc::esc(ops[i].req, 100) + ": " + e; } continue; }
            used[i] = true; if (rec(c, k + 1)) return true; used[i] = false; }
        return false;
    };
    if (rec(m0, 0)) return ""; return "no order of the operations explains the replies (closest attempt: " + first + ")";
}
static uint64_t outcome_key(const Prog &p, const Run &r) { // cas tokens by rank
    std::map<string, string> tk; string k = p.name; std::set<std::pair<uint64_t, string>> all;
    auto add = [&](const vector<Op> &v) { for (auto &x : v) { std::map<string, string> m; tokens(x.rep, m); for (auto &e : m) all.insert({strtoull(e.second.c_str(), 0, 10), e.second}); } };
    add(r.init); add(r.ops); add(r.fin); int i = 0; for (auto &e : all) tk[e.second] = "t" + std::to_string(i++);
    auto put = [&](const vector<Op> &v) { for (auto &x : v) { string s = x.req + "\x01" + x.rep; if (!tk.empty()) { string o; size_t p = 0; while (p < s.size()) { if (isdigit((unsigned char)s[p])) { size_t q = p; while (q < s.size() && isdigit((unsigned char)s[q])) q++; string w = s.substr(p, q - p); o += tk.count(w) && w.size() > 2 ? tk[w] : w; p = q; } else o += s[p++]; } s = o; } k += s + mc::fmt("\x02%d %llu %llu %d\x03", x.conn, (unsigned long long)x.call, (unsigned long long)x.ret, x.done); } };
    put(r.init); put(r.ops); put(r.fin); return mc::hash(k + r.extra);
}
bool Engine::check(const Prog &p, const Run &r, const Sched &s) {
    string why;
    if (!r.problems.empty()) { why = r.problems[0]; if (why == "@died") return false; }
    else { uint64_t k = outcome_key(p, r); auto it = memo.find(k); if (it != memo.end()) why = it->second; else { why = o.judge ? o.judge(r) : linearize(p, r.init, r.ops, r.fin); if (why.empty() && o.also) why = o.also(r); ctx.evals(); ctx.state(k); outcomes++; memo[k] = why; } }
    if (why.empty()) return true;
    ctx.clear_note(); ctx.note(text(p, s, &r)); string kind = why.substr(0, why.find(':')); if (kind.size() > 30) kind = "order"; ctx.fail(kind, why); return false;
}
void Engine::warm(const vector<Prog> &ps) { // discover shared mutexes and racing instructions on the default schedules
    memset(ms_, 0, sizeof *ms_); act.clear(); for (int k = 0; k < 2; k++) for (auto &p : ps) { bool f = o.fork; exec(p, {}); o.fork = f; } activate(); }
bool Engine::explore(const Prog &p) {
    size_t racy0 = tsanctl::racy(); MSet keep = *ms_; bool ok = true; activate();
    for (int round = 0; round < 6; round++) {
        size_t s0 = shared_count(), r0 = tsanctl::racy(); uint64_t n0 = runs; bool stop = false; memo.clear();
        struct F { Sched s; int cost; }; vector<F> st; st.push_back({{}, 0});
        while (!st.empty() && !stop) {
            F f = st.back(); st.pop_back(); Run r = exec(p, f.s); maxdec = std::max(maxdec, (int)r.decs.size());
            if (r.diverged) diverged++;
            if (!check(p, r, f.s)) { ok = false; stop = true; break; }
            if (!r.diverged) { int from = f.s.empty() ? 0 : f.s.back().first + 1;
                for (int i = (int)r.decs.size() - 1; i >= from; i--) { auto &d = r.decs[i]; int c = f.cost + (d.blocked && o.free_blocked ? 0 : 1); if (c > o.bound) continue; for (int e : d.en) if (e != d.chosen) { F g{f.s, c}; g.s.push_back({i, e}); st.push_back(g); } } }
            if (runs - n0 >= o.max_runs) { capped++; break; }
            if (round < 5 && (shared_count() != s0 || tsanctl::racy() != r0)) break; // new scheduling points: start over with them
            if (ctx.out_of_time()) stop = true;
        }
        if (stop || (shared_count() == s0 && tsanctl::racy() == r0)) break;
        restarts++; activate();
    }
    *ms_ = keep; tsanctl::truncate(racy0); activate(); return ok;
}
string Engine::report() const { return mc::fmt("%llu schedules, at most %d decisions each, %llu programs capped, %llu diverged, %llu distinct outcomes, %zu racing instructions", (unsigned long long)runs, maxdec, (unsigned long long)capped, (unsigned long long)diverged, (unsigned long long)outcomes, tsanctl::racy()); }
}
