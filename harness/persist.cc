#include "persist.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <algorithm>
#include <csignal>
namespace pst {
static const size_t BUF = 256u << 20; static char *buf;
struct W { string s; void u(uint64_t v) { s.append((char *)&v, 8); } void t(const string &x) { u(x.size()); s += x; } };
struct R { const char *p; uint64_t u() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; } string t() { size_t n = u(); string r(p, n); p += n; return r; } };
string ser(const Image &i) { W w; for (auto &e : i) { w.t(e.first); w.t(e.second); } return w.s; }
string show(const Image &i) { string r; for (auto &e : i) r += e.first + ":" + std::to_string(e.second.size()) + " "; return r; }
static void put(const Phase &p) {
    W w; w.u(p.started); w.u(p.exited); w.u(p.complete); w.u(p.code); w.u(p.recs.size()); for (auto &r : p.recs) { w.t(r.req); w.t(r.rep); w.u(r.at); }
    w.u(p.ops.size()); for (auto &o : p.ops) { w.u(o.k); w.u(o.ino); w.t(o.path); w.t(o.path2); w.t(o.data); w.u(o.off); w.u(o.tag); }
    w.u(p.img.size()); for (auto &e : p.img) { w.t(e.first); w.t(e.second); } w.u(p.clock); w.t(p.err); w.u(p.matched.size()); for (auto m : p.matched) w.u(m); w.t(p.extra); w.u(p.faults); w.u(p.mark); w.u(p.ends); w.u(p.snaps); w.u(p.failed);
    if (w.s.size() + 8 > BUF) _exit(96); memcpy(buf + 8, w.s.data(), w.s.size()); *(uint64_t *)buf = 1;
}
static bool get(Phase &p) {
    if (!*(uint64_t *)buf) return false; R r{buf + 8}; p.started = r.u(); p.exited = r.u(); p.complete = r.u(); p.code = r.u(); p.recs.resize(r.u()); for (auto &x : p.recs) { x.req = r.t(); x.rep = r.t(); x.at = r.u(); }
    p.ops.resize(r.u()); for (auto &o : p.ops) { o.k = (vfs::Op::K)r.u(); o.ino = r.u(); o.path = r.t(); o.path2 = r.t(); o.data = r.t(); o.off = r.u(); o.tag = r.u(); }
    p.img.clear(); size_t n = r.u(); for (size_t i = 0; i < n; i++) { string k = r.t(); p.img[k] = r.t(); } p.clock = r.u(); p.err = r.t(); p.matched.resize(r.u()); for (auto &m : p.matched) m = r.u(); p.extra = r.t(); p.faults = r.u(); p.mark = r.u(); p.ends = r.u(); p.snaps = r.u(); p.failed = r.u(); return true;
}
string Opts::conf() const { string s = "use_persistence=true;data_path=/vfs/data;logs_path=/vfs/logs;async_logging=" + string(async ? "true" : "false") + ";chkpt_interval_pct_snapshot=" + std::to_string(pct) + ";chkpt_interval_min_logsize=" + (ckpt ? "0" : "1000"); for (auto &e : engine) s += ";" + e; return s; }
void Life::tick(uint64_t us) { sim::advance_us(us); }
bool Life::cmd(const string &req) {
    bool quiet = req.find(" noreply\r\n") != string::npos; size_t n = ph->recs.size(); sim::set_on_reply(c, [n](int) { vfs::cur_tag = n + 1; });
    string rep = sim::rpc(c, req); for (int i = 0; i < 400 && rep.empty() && !quiet && !sim::server_exited(); i++) { tick(1000); rep = sim::take(c); }
    ph->recs.push_back({req, rep, (int64_t)sim::now_s()}); sim::set_on_reply(c, nullptr); if (!quiet) vfs::cur_tag = ph->recs.size();
    if (rep.empty() && !quiet) { ph->complete = false; if (!sim::server_exited()) ph->err = "no reply to " + mc::esc(req, 100); return false; } return true;
}
void Life::stop() { sim::deliver_signal(SIGTERM); sim::run(); for (int i = 0; i < 4000 && !sim::server_exited(); i++) tick(5000); if (!sim::server_exited()) ph->err = "the server does not stop"; }
void Life::ckpt() { for (int i = 0; i < 6; i++) tick(1000000); }
bool Life::step(const string &s) { if (s == "!stop") { stop(); return ph->err.empty(); } if (s == "!ckpt") { ckpt(); return true; } if (s == "!idle") { tick(30000); return true; } if (s[0] == '+') { tick(atoll(s.c_str() + 1) * 1000000ull); return true; } return cmd(s); }
bool life(mc::Ctx &ctx, const Image &in, uint64_t clock, const Opts &o, const std::function<void(Life &)> &body, Phase &out) {
    if (!buf) buf = (char *)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    *(uint64_t *)buf = 0; out = Phase();
    bool ok = ctx.isolated([&] {
        Phase ph; Life l; l.ph = &ph; l.ctx = &ctx; sim::set_clock_no_run(clock); vfs::load(in); vfs::cur_tag = 0;
        vector<string> a{"-t", "2", "-p", "11211", "-m", "64", "-E", ".libs/default_engine.so", "-e", o.conf()}; a.insert(a.end(), o.args.begin(), o.args.end()); sim::boot(a);
        for (int i = 0; i < 40 && !sim::server_exited(); i++) sim::advance_us(1000);
        ph.started = !sim::server_exited();
        if (ph.started) { l.c = sim::connect(); sim::run(); body(l); }
        ph.exited = sim::server_exited(); ph.code = ph.exited ? sim::server_exit_code() : 0; ph.ops = vfs::oplog; ph.img = vfs::image(); ph.clock = sim::now_us(); ph.faults = vfs::fault_points; ph.failed = vfs::failed; for (auto &e : sim::sim_errors) ph.err += "runtime: " + e;
        put(ph); });
    return get(out) && ok;
}
vector<model::Model> models(const model::Model &start, const vector<Rec> &recs, string &err) {
    vector<model::Model> v{start}; model::Model m = start;
    for (auto &r : recs) { m.now = r.at; string e; m.exec(r.req, &r.rep, e); if (!e.empty() && err.empty()) err = "reply to " + mc::esc(r.req, 200) + ": " + e; v.push_back(m); }
    return v;
}
model::Model restarted(const model::Model &m, int64_t now) { model::Model n = m; n.now = now; n.expire_all(); n.flush.clear(); n.flushed.clear(); n.unsure.clear(); n.cas.clear(); for (auto &k : n.kv) { k.second.time = now; } return n; }
Seen observe(Life &l, const Strs &keys) {
    Seen s; auto q = [&](const string &r) { s.req.push_back(r); s.rep.push_back(sim::rpc(l.c, r)); };
    for (auto &k : keys) { q("get " + k + "\r\n"); q("getattr " + k + "\r\n"); q("lop get " + k + " 0..-1\r\n"); q("sop get " + k + " 0\r\n"); q("mop get " + k + " 0 0\r\n"); q("bop get " + k + " 0..18446744073709551615\r\n"); q("bop get " + k + " 0x00..0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\r\n"); }
    return s;
}
string differs(const Seen &s, const model::Model &m0) {
    model::Model m = m0;
    for (size_t i = 0; i < s.req.size(); i++) { string e; m.exec(s.req[i], &s.rep[i], e); if (!e.empty()) return mc::esc(s.req[i], 60) + ": " + e; }
    return "";
}
namespace {
struct Ino { string base; vector<const vfs::Op *> un; };   // durable contents, then operations not yet synced
void apply(string &d, const vfs::Op &o, size_t cut = (size_t)-1) { if (o.k == vfs::Op::TRUNC) d.resize(o.off); else { size_t n = std::min(cut, o.data.size()); if (n == 0) return; if (d.size() < o.off + n) d.resize(o.off + n); memcpy(&d[o.off], o.data.data(), n); } }
}
void crashes(const Image &init, const vector<vfs::Op> &ops, int acked_at_end, bool every_byte, const std::function<void(const Crash &)> &f) {
    std::map<int, Ino> ino; std::map<string, int> dir; int n = 0; for (auto &e : init) { dir[e.first] = ++n; ino[n].base = e.second; }
    std::set<string> done;
    auto emit = [&](size_t p, const std::map<int, string> &data, const string &how) {
        Crash c; c.acked = p < ops.size() ? ops[p].tag : acked_at_end; for (auto &d : dir) c.img[d.first] = data.at(d.second);
        string k = ser(c.img) + "#" + std::to_string(c.acked); if (!done.insert(mc::fmt("%llx", (unsigned long long)mc::hash(k))).second) return;
        c.what = mc::fmt("after file operation %zu of %zu (%d commands answered), %s", p, ops.size(), c.acked, how.c_str()); f(c); };
    for (size_t p = 0; p <= ops.size(); p++) {
        if (p > 0) { auto &o = ops[p - 1]; switch (o.k) {
            case vfs::Op::CREATE: dir[o.path] = o.ino; ino[o.ino]; break;
            case vfs::Op::WRITE: case vfs::Op::TRUNC: ino[o.ino].un.push_back(&o); break;
            case vfs::Op::FSYNC: { auto &i = ino[o.ino]; for (auto u : i.un) apply(i.base, *u); i.un.clear(); break; }
            case vfs::Op::UNLINK: dir.erase(o.path); break;
            case vfs::Op::RENAME: { int x = dir[o.path]; dir.erase(o.path); dir[o.path2] = x; break; } } }
        // contents of each file: all that was written, or only what was synced; one file at a time torn
        std::map<int, string> all, syn; vector<int> dirty; for (auto &d : dir) { auto &i = ino[d.second]; string a = i.base; for (auto u : i.un) apply(a, *u); all[d.second] = a; syn[d.second] = i.base; if (a != i.base) dirty.push_back(d.second); }
        emit(p, all, "everything written is on disk");
        if (dirty.empty()) continue;
        if (dirty.size() <= 4) for (int m = 1; m < (1 << dirty.size()); m++) { auto x = all; string h = "unsynced data lost in:"; for (size_t b = 0; b < dirty.size(); b++) if (m >> b & 1) { x[dirty[b]] = syn[dirty[b]]; h += mc::fmt(" file %d", dirty[b]); } emit(p, x, h); }
        for (int d : dirty) for (int others = 0; others < (dirty.size() > 1 ? 2 : 1); others++) {
            auto x = others ? syn : all; string cur = ino[d].base;
            for (auto u : ino[d].un) {
                if (u->k == vfs::Op::WRITE) {
                    std::set<size_t> cuts; size_t L = u->data.size(); if (every_byte) for (size_t i = 0; i <= L; i++) cuts.insert(i); else { for (size_t i : {(size_t)0, (size_t)1, (size_t)7, (size_t)8, (size_t)9, L / 2, L - 1, L}) cuts.insert(i); size_t stp = L > 400 ? (L / 50) & ~7ul : 8; for (size_t i = 8; i < L; i += stp) cuts.insert(i); }
                    for (size_t c : cuts) if (c <= L) { string y = cur; apply(y, *u, c); auto z = x; z[d] = y; emit(p, z, mc::fmt("file %d torn after %zu bytes of a write of %zu", d, c, L) + (others ? ", unsynced data of the others lost" : "")); }
                }
                apply(cur, *u);
            }
        }
    }
}
Strs keys_of(const Strs &cmds) { std::set<string> r; for (auto &c : cmds) { auto t = model::split(c.substr(0, c.find("\r\n"))); if (t.size() < 2 || c[0] == '!' || c[0] == '+' || t[0] == "flush_prefix" || t[0] == "flush_all" || t[0] == "config" || t[0] == "scrub") continue; bool co = t[0] == "lop" || t[0] == "sop" || t[0] == "mop" || t[0] == "bop"; if (t.size() > (co ? 2 : 1)) r.insert(t[co ? 2 : 1]); } return Strs(r.begin(), r.end()); }
}
