// C28 scrub and key dump
#include "alpha.h"
#include "conc.h"
#include "vfs.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using std::string; using std::vector; using conc::Prog;
static char tchar(model::Type t) { return "KLSMB"[(int)t]; }
typedef std::map<string, string> Sm;
static Sm st_of(int c, const string &what) { string r = sim::rpc(c, what + "\r\n"); Sm m; size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) break; auto t = model::split(r.substr(p, e - p)); if (t.size() >= 3 && t[0] == "STAT") { string v = t[2]; for (size_t i = 3; i < t.size(); i++) v += " " + t[i]; m[t[1]] = v; } p = e + 2; } return m; }
static long long items(int c) { return atoll(st_of(c, "stats")["curr_items"].c_str()); }
struct Line { string type, key, exp; };
// a dump file: lines, then (if complete) the summary. err when malformed
static bool parse_dump(const string &f, vector<Line> &out, string &summary, string &err) {
    size_t p = 0; summary.clear(); while (p < f.size()) { size_t e = f.find('\n', p); if (e == string::npos) { err = "the last line is not terminated: " + mc::esc(f.substr(p), 60); return false; } string l = f.substr(p, e - p); p = e + 1;
        if (!summary.empty()) { err = "lines after the summary"; return false; } if (l.compare(0, 13, "DUMP SUMMARY:") == 0) { summary = l; continue; }
        auto t = model::split(l); if (t.size() != 3 || t[0].size() != 1 || !strchr("KLSMB", t[0][0])) { err = "malformed line " + mc::esc(l, 80); return false; } out.push_back({t[0], t[1], t[2]}); }
    return true;
}
static bool in_prefix(const string &k, const string *pre) { if (!pre) return true; size_t c = k.find(':'); if (*pre == "") return c == string::npos || c == 0; return k.size() > pre->size() && k.compare(0, pre->size(), *pre) == 0 && k[pre->size()] == ':'; }
// the dump file of a dump during which nothing changed
static void check_dump(Lock &l, const string *pre, const string &path) {
    auto im = vfs::image(); if (!im.count(path)) { l.fail("dump", "no dump file"); return; } vector<Line> v; string sum, err; if (!parse_dump(im[path], v, sum, err)) { l.fail("dump", err); return; } if (sum.empty()) { l.fail("dump", "no summary line in the dump file"); return; }
    Sm seen; for (auto &x : v) { auto *it = l.m.find(x.key); if (!it) l.fail("ghost", "the dump lists " + mc::esc(x.key, 40) + ", which is not a live item"); else if (string(1, tchar(it->type)) != x.type) l.fail("dump", "wrong type for " + mc::esc(x.key, 40)); else { string w = it->exp == 0 ? "0" : it->exp < 0 ? "-1" : S(it->exp - l.m.now); if (w != x.exp) l.fail("dump", "expiration " + x.exp + " listed for " + mc::esc(x.key, 40) + ", it is " + w); } if (!in_prefix(x.key, pre)) l.fail("dump", mc::esc(x.key, 40) + " does not have the prefix asked for"); if (seen.count(x.key)) l.fail("twice", mc::esc(x.key, 40) + " listed twice"); seen[x.key] = x.type; }
    size_t live = 0; vector<string> ks; for (auto &k : l.m.kv) ks.push_back(k.first); for (auto &k : ks) if (l.m.find(k) && in_prefix(k, pre)) { live++; if (!seen.count(k)) l.fail("missed", "the live key " + mc::esc(k, 40) + " is not in the dump"); }
    string want = "DUMP SUMMARY: { prefix=" + (pre ? *pre == "" ? "<null>" : *pre : string("<all>")) + ", count=" + S(live) + ", elapsed="; if (sum.compare(0, want.size(), want)) l.fail("summary", "the summary is " + mc::esc(sum, 300) + ", expected " + mc::esc(want, 300) + "...");
    auto s = st_of(l.c, "stats dump"); if (s["dumper:status"] != "stopped" || s["dumper:success"] != "true" || s["dumper:dumped"] != S(live) || s["dumper:mode"] != "key" || s["dumper:filepath"] != path || s["dumper:prefix"] != (pre ? *pre == "" ? "<null>" : *pre : string("<all>"))) l.fail("stats", "stats dump reports status " + s["dumper:status"] + " success " + s["dumper:success"] + " dumped " + s["dumper:dumped"] + " prefix " + mc::esc(s["dumper:prefix"], 60) + " filepath " + mc::esc(s["dumper:filepath"], 60)); l.ctx->evals();
}
static void settle(Lock &l) { sim::settle(); l.m.now = sim::now_s(); }
static string rq(Lock &l, const string &req) { string r = sim::rpc(l.c, req); l.hist.push_back({mc::esc(req, 200), mc::esc(r, 300)}); return r; }
static void expect(Lock &l, const string &req, const string &want, const char *key = "reply") { string r = rq(l, req); if (r != want) l.fail(key, mc::esc(req, 100) + " answered with " + mc::esc(r, 200) + " instead of " + mc::esc(want, 100)); }
static void dump(Lock &l, const string *pre, const string &path = "/vfs/d") { expect(l, "dump start key " + (pre ? (*pre == "" ? string("<null>") : *pre) + " " : string()) + path + "\r\n", "OK\r\n"); rq(l, "get zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz:y\r\n"); settle(l); check_dump(l, pre, path); }
static long long live(Lock &l, vector<string> *ks = nullptr) { vector<string> a; for (auto &k : l.m.kv) a.push_back(k.first); long long n = 0; for (auto &k : a) if (l.m.find(k)) { n++; if (ks) ks->push_back(k); } return n; }
static void wipe(Lock &l, uint64_t base) { vector<string> a; for (auto &k : l.m.kv) a.push_back(k.first); for (auto &k : a) { string r = sim::rpc(l.c, "delete " + k + "\r\n"); (void)r; } settle(l); if (sim::slab().live_bytes != base) l.fail("leak", mc::fmt("item memory in use after everything was removed: %llu bytes (before: %llu)", (unsigned long long)sim::slab().live_bytes, (unsigned long long)base)); vfs::oplog.clear(); l.m = model::Model(); l.m.now = sim::now_s(); for (auto &e : sim::sim_errors) l.fail("runtime", e); }
// a scrub during which nothing changes
static void scrub_still(Lock &l) { long long before = items(l.c), lv = live(l); expect(l, "scrub\r\n", "OK\r\n"); settle(l); auto s = st_of(l.c, "stats scrub"); if (s["scrubber:status"] != "stopped" || s["scrubber:run_mode"] != "scrub") l.fail("stats", "scrub status " + s["scrubber:status"] + " mode " + s["scrubber:run_mode"] + " after its end");
    if (s["scrubber:visited"] != S(before)) l.fail("visited", "the scrub visited " + s["scrubber:visited"] + " of " + S(before) + " items"); if (s["scrubber:cleaned"] != S(before - lv)) l.fail("cleaned", "the scrub reports " + s["scrubber:cleaned"] + " items removed, " + S(before - lv) + " were dead"); long long after = items(l.c); if (after != lv) l.fail("items", mc::fmt("%lld items are left after the scrub, %lld are live", after, lv)); l.ctx->evals(); }
// item states; "early" commands run before the flushes, "late" ones after
struct St { const char *name; const char *key; Strs early, late; };
static vector<St> sts() { return {
    {"live", "k%d", {}, {"set K 1 0 3\r\nabc\r\n"}}, {"ttl", "k%d", {}, {"set K 1 50 3\r\nabc\r\n"}}, {"expired", "k%d", {}, {"set K 1 1 3\r\nabc\r\n"}}, {"list", "k%d", {}, {"lop insert K 0 1 create 0 0 5\r\na\r\n"}}, {"expired tree", "k%d", {}, {"bop insert K 1 1 create 0 1 5\r\na\r\n", "bop insert K 2 1\r\nb\r\n"}},
    {"flushed", "k%d", {"set K 1 0 3\r\nabc\r\n"}, {}}, {"flushed map", "k%d", {"mop insert K f 1 create 0 0 5\r\na\r\n"}, {}}, {"prefixed", "p:k%d", {}, {"set K 1 0 3\r\nabc\r\n"}}, {"prefix flushed", "q:k%d", {"set K 1 0 3\r\nabc\r\n"}, {}}, {"sticky", "k%d", {}, {"set K 1 -1 3\r\nabc\r\n"}}, {"touched", "k%d", {}, {"set K 1 50 3\r\nabc\r\n", "touch K 1\r\n"}}, {"revived", "k%d", {"set K 1 0 3\r\nabc\r\n"}, {"set K 1 30 2\r\nab\r\n"}} }; }
static string sub(const string &c, const string &k) { size_t p = c.find(" K "); if (p == string::npos) return c; return c.substr(0, p + 1) + k + c.substr(p + 2); }
static void build(Lock &l, const vector<int> &w) { // the flushes and the clock only where needed
    auto ss = sts(); bool fl = false, qf = false, ex = false; vector<string> ks; for (size_t i = 0; i < w.size(); i++) { ks.push_back(mc::fmt(ss[w[i]].key, (int)i)); string n = ss[w[i]].name; fl |= n.compare(0, 7, "flushed") == 0 || n == "revived"; qf |= n == "prefix flushed"; ex |= n.find("expired") != string::npos || n == "touched"; }
    for (size_t i = 0; i < w.size(); i++) for (auto &c : ss[w[i]].early) if (string(ss[w[i]].name) != "prefix flushed") l.step(sub(c, ks[i])); if (fl) { l.step("+1"); l.step("flush_all\r\n"); l.step("+1"); }
    for (size_t i = 0; i < w.size(); i++) for (auto &c : ss[w[i]].early) if (string(ss[w[i]].name) == "prefix flushed") l.step(sub(c, ks[i])); if (qf) { l.step("+1"); l.step("flush_prefix q\r\n"); l.step("+1"); }
    for (size_t i = 0; i < w.size(); i++) for (auto &c : ss[w[i]].late) l.step(sub(c, ks[i])); if (ex) l.step("+2");
}
static void tuples(int n, int k, const std::function<void(const vector<int> &)> &f) { vector<int> v(n, 0); for (;;) { f(v); int i = n - 1; while (i >= 0 && ++v[i] == k) v[i--] = 0; if (i < 0) return; } }
SUITE("C28", scrub_states, "asmall", BOTH) { // every combination of item states: scrub, dump, both orders
    mc::boot_std({"-g", "10", "-X", "scrub.so"}); Lock l(ctx); l.connect(); sim::settle(); uint64_t base = sim::slab().live_bytes; int N = sts().size(), maxn = ctx.thorough ? 4 : 3; string p = "p", q = "q", nul, none = "nosuch";
    ctx.note_bound(mc::fmt("every tuple of up to %d items over %d states (live, TTL, expired, flushed, prefix flushed, sticky, of all types), scrubbed with scan batches of 1, 2 and 64 items and dumped (all, by prefix, null prefix, unknown prefix) before or after", maxn, N)); uint64_t cnt = 0;
    for (int n = 0; n <= maxn; n++) { bool stop = false; tuples(n, N, [&](const vector<int> &w) { if (stop || !ctx.mine()) return; if (ctx.out_of_time_fast()) { stop = true; return; }
        for (int sc : {1, 2, 64}) { if (!ctx.thorough && n == 3 && sc != 1 + (int)(mc::hash(string(w.begin(), w.end())) % 2)) continue; l.begin(); expect(l, "config scrub_count " + S(sc) + "\r\n", "END\r\n"); build(l, w); bool first = (sc + n) & 1; if (first) dump(l, nullptr); scrub_still(l); if (!first) dump(l, nullptr); for (auto x : {&p, &nul, &q, &none}) dump(l, x); vector<string> ks; live(l, &ks); for (auto &k : ks) l.step("getattr " + k + "\r\n"); scrub_still(l); wipe(l, base); ctx.trace(); ctx.trans(7); }
        ctx.distinct(mc::hash(string(w.begin(), w.end()))); if (cnt++ % 301 == 0) { string s; for (int x : w) s += string(sts()[x].name) + " "; ctx.sample(s + "| scrub, dumps"); } }); }
}
SUITE("C28", scrub_running, "asmall", BOTH) { // commands between the batches of a running scrub
    mc::boot_std({"-g", "10", "-X", "scrub.so"}); Lock l(ctx); l.connect(); sim::settle(); uint64_t base = sim::slab().live_bytes; expect(l, "config scrub_count 1\r\n", "END\r\n"); vector<vector<int>> sets = {{2, 0, 5, 3, 8, 7}, {0, 1, 3, 7, 9, 11}, {2, 4, 5, 6, 8, 10}, {2, 2, 2, 2}, {5, 0, 5, 0, 5, 0, 5, 0}, {4, 9, 6, 11, 2}};
    int B = ctx.thorough ? 10 : 7; vector<Strs> acts; for (int i = 0; i < 8; i++) { string k = "k" + S(i); acts.push_back({"delete " + k + "\r\n"}); acts.push_back({kset("set", k, "new")}); acts.push_back({"touch " + k + " 1\r\n", "+2"}); acts.push_back({"gets " + k + "\r\n", "lop get " + k + " 0..-1 drop\r\n"}); } acts.push_back({"flush_all\r\n"}); acts.push_back({"+1", "flush_all\r\n", "+1"}); acts.push_back({"flush_prefix p\r\n"}); acts.push_back({"+60"}); { Strs g; for (int i = 0; i < 9; i++) g.push_back(kset("set", "g" + S(i), "x")); acts.push_back(g); } { Strs g; for (int i = 0; i < 9; i++) g.push_back(kset("set", "g" + S(i), "x", 0, 1)); acts.push_back(g); } acts.push_back({"config scrub_count 3\r\n"}); acts.push_back({"scrub\r\n"}); acts.push_back({"dump\r\n"});
    ctx.note_bound(mc::fmt("6 item sets, a scrub taking one item per batch, one change (of %zu) after every batch up to %d, and pairs of changes at two batches", acts.size(), B));
    auto one = [&](const vector<int> &w, vector<std::pair<int, int>> ch) { l.begin(); build(l, w); settle(l); vector<string> lk; live(l, &lk); Sm tok; expect(l, "scrub\r\n", "OK\r\n"); bool clock = false, growth = false; size_t i = 0; bool conf = false; long long late = 0;
        for (int b = 0; i < ch.size(); b++) { while (i < ch.size() && ch[i].first == b) { for (auto &c : acts[ch[i].second]) { if (c[0] == '+' ) { clock = true; l.hist.push_back({"(the clock advances)", c}); l.step(c); } else if (c.compare(0, 6, "config") == 0) { expect(l, c, "END\r\n"); conf = true; } else if (c == "dump\r\n") { dump(l, nullptr); } else if (c == "scrub\r\n") { string r = rq(l, c); bool run = st_of(l.c, "stats scrub")["scrubber:status"] == "running"; if (r != "BUSY\r\n" && r != "OK\r\n") l.fail("reply", "scrub answered with " + mc::esc(r)); if (r == "BUSY\r\n" && !run) l.fail("reply", "BUSY although no scrub is running"); } else { if (c.compare(0, 5, "flush") == 0 ) clock = true; if (c[4] == 'g' && c[5] >= '0') growth = true; l.step(c); } } i++; } sim::advance_us(64); l.m.now = sim::now_s(); l.hist.push_back({"(one batch)", ""}); }
        settle(l); auto s = st_of(l.c, "stats scrub"); if (s["scrubber:status"] != "stopped") l.fail("running", "the scrub does not end"); long long it = items(l.c), lv = live(l); (void)growth; (void)late;
        if (it < lv) l.fail("items", mc::fmt("%lld items are left, %lld are live", it, lv)); if (!clock && it != lv) l.fail("items", mc::fmt("%lld items are left after the scrub although only %lld are live and none of the others died during the scrub", it, lv));
        vector<string> ks; live(l, &ks); for (auto &k : ks) { l.step("getattr " + k + "\r\n"); l.step("gets " + k + "\r\n"); } scrub_still(l); if (conf) expect(l, "config scrub_count 1\r\n", "END\r\n"); wipe(l, base); ctx.trace(); ctx.trans(ch.size() + 1); ctx.evals(); };
    for (auto &w : sets) for (int b = 0; b < B; b++) for (size_t a = 0; a < acts.size(); a++) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; one(w, {{b, (int)a}}); ctx.distinct(mc::hash(mc::fmt("%zu %d %zu", (size_t)(&w - &sets[0]), b, a))); }
    for (auto &w : sets) for (int b = 0; b < 5; b++) for (int b2 = b; b2 < 6; b2++) for (size_t a = 0; a < acts.size(); a++) for (size_t a2 = 0; a2 < acts.size(); a2++) { uint64_t h = mc::hash(mc::fmt("%zu %d %d %zu %zu", (size_t)(&w - &sets[0]), b, b2, a, a2)); if (!ctx.thorough && h % 24) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; one(w, {{b, (int)a}, {b2, (int)a2}}); ctx.distinct(h); if (h % 3001 == 0) ctx.sample(mc::fmt("batch %d: ", b) + mc::esc(acts[a][0], 40) + mc::fmt("; batch %d: ", b2) + mc::esc(acts[a2][0], 40)); }
}
SUITE("C28", scrub_in_use, "asmall", BOTH) { // items held by a reply that is being sent
    mc::boot_std({"-g", "10", "-X", "scrub.so"}); Lock l(ctx); l.connect(); settle(l); sim::slab_guard = true; sim::slab_quarantine = 60; uint64_t base = sim::slab().live_bytes; expect(l, "config scrub_count 1\r\n", "END\r\n");
    struct R { string init, read, rep; }; string big(3000, 'b'); vector<R> rs = {{"set K 1 %d 3000\r\n" + big + "\r\n", "get K\r\n", "VALUE K 1 3000\r\n" + big + "\r\nEND\r\n"}, {"lop insert K 0 3000 create 7 %d 5\r\n" + big + "\r\n", "lop get K 0..-1\r\n", "VALUE 7 1\r\n3000 " + big + "\r\nEND\r\n"}, {"sop insert K 3000 create 7 %d 5\r\n" + big + "\r\n", "sop get K 0\r\n", "VALUE 7 1\r\n3000 " + big + "\r\nEND\r\n"}, {"mop insert K f 3000 create 7 %d 5\r\n" + big + "\r\n", "mop get K 0 0\r\n", "VALUE 7 1\r\nf 3000 " + big + "\r\nEND\r\n"}, {"bop insert K 5 3000 create 7 %d 5\r\n" + big + "\r\n", "bop get K 0..9\r\n", "VALUE 7 1\r\n5 3000 " + big + "\r\nEND\r\n"}};
    ctx.note_bound("an item of each type held by a blocked reply (at 4 points), expired or flushed meanwhile, scrubbed and dumped before the reader goes on, closes or resets; freed memory is poisoned");
    for (auto &r : rs) for (int at : {0, 10, 100, 3005}) for (int how = 0; how < 4; how++) for (int last = 0; last < 3; last++) for (int k = 0; k < 3; k++) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; l.begin(); l.step(kset("set", "other", "x")); string in = r.init; size_t pc = in.find("%d"); in.replace(pc, 2, how == 0 ? "1" : "0"); l.step(in); if (how == 3) l.step("+1"); int c = sim::connect(); sim::run(); vector<int> sc; if (at) sc.push_back(at); sc.push_back(-1); sim::send_script(c, sc); sim::send(c, r.read); sim::run(); if (!sim::blocked(c)) l.fail("harness", "the reply does not block");
        l.hist.push_back({"reader", r.read + mc::fmt(" blocks after %d bytes", at)}); if (how == 0) l.step("+2"); else if (how == 1) { l.step("+1"); l.step("flush_all\r\n"); } else if (how == 2) l.step("touch K 1\r\n"), l.step("+2"); 
        for (int i = 0; i < k; i++) { scrub_still(l); dump(l, nullptr); } if (k == 1) l.step(kset("set", "K", "again")); if (last == 0) sim::unblock(c); else if (last == 1) { sim::shut(c); sim::unblock(c); } else sim::reset(c); sim::run(); string rep = sim::take(c); if (last == 0 && rep != r.rep) l.fail("changed", "the reply of the item in use is " + mc::esc(rep, 100) + "... (" + S(rep.size()) + " bytes)"); if (last == 0) { sim::shut(c); sim::run(); } if (!sim::closed(c)) l.fail("open", "the connection is still open"); sim::forget(c); scrub_still(l); wipe(l, base); ctx.trace(); ctx.distinct(mc::hash(r.read + mc::fmt("%d %d %d %d", at, how, last, k))); }
}
SUITE("C28", dump_misc, "asmall", BOTH) { // large dumps, long keys, refused and failing dumps
    mc::boot_std({"-g", "10", "-X", "scrub.so"}); Lock l(ctx); l.connect(); sim::settle(); uint64_t base = sim::slab().live_bytes; string nul, lp(250, 'x'), lq(249, 'y');
    ctx.note_bound("1..140 keys of 1..16000 bytes (the 64 KB dump buffer wraps at every offset class), prefixes of up to 250 bytes, malformed and refused dump commands, write and open failures at every write, stop requests");
    for (int len : {1, 2, 200, 249, 250, 1000, 4000, 15990, 16000}) for (int n = 0; n <= (len > 1000 ? 20 : 140); n += (len > 1000 ? 1 : 7)) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; l.begin(); Strs ks; for (int i = 0; i < n; i++) { string k = S(i); if ((int)k.size() < len) k += string(len - k.size() - (len > 10 && i % 3 == 0 ? i % 9 : 0), 'k'); k = "z" + k.substr(0, 15999); l.step(kset("set", k, "v", 0, i % 2 ? 2000000 : 0)); } dump(l, nullptr); dump(l, &nul); wipe(l, base); ctx.trace(); }
    for (int pl : {1, 2, 100, 180, 200, 220, 249, 250}) { if (!ctx.mine()) continue; l.begin(); string pr(pl, 'x'); for (int i = 0; i < 5; i++) l.step(kset("set", (i < 3 ? pr : string(pl, 'y')) + ":" + S(i), "v")); dump(l, &pr); expect(l, "dump start key " + string(251, 'x') + " /vfs/d\r\n", "CLIENT_ERROR too long prefix name\r\n"); dump(l, nullptr); dump(l, &pr); wipe(l, base); ctx.trace(); }
    if (ctx.mine()) { l.begin(); l.step(kset("set", "a", "1")); l.step(kset("set", "p:b", "2")); string BAD = "CLIENT_ERROR bad command line format\r\n"; for (auto &x : {"dump start\r\n", "dump start key\r\n", "dump stop now\r\n", "dump begin key /vfs/d\r\n", "dump start key a /vfs/d more\r\n", "dump stopp /vfs/x y\r\n"}) { string r = rq(l, x); if (r != BAD) l.fail("reply", string(x) + " answered with " + mc::esc(r)); } string r = rq(l, "dump start item /vfs/d\r\n"); if (r.compare(0, 2, "OK") == 0) l.fail("reply", "unsupported dump mode accepted"); r = rq(l, "dump start key /vfsnone/no/such/dir/d\r\n"); if (r.compare(0, 12, "SERVER_ERROR")) l.fail("reply", "dump into an impossible file answered with " + mc::esc(r)); expect(l, "dump stop\r\n", "OK\r\n"); dump(l, nullptr); dump(l, nullptr, "/vfs/other"); dump(l, nullptr); wipe(l, base); ctx.trace(); }
}
SUITE("C28", dump_faults, "asmall", BOTH) { // the file system fails at every call
    mc::boot_std({"-g", "10", "-X", "scrub.so"}); Lock l(ctx); l.connect(); sim::settle(); uint64_t base = sim::slab().live_bytes;
    ctx.note_bound("dumps of 3..60 items with 0..5 buffer writes; each open and write failing, failing from then on, or cut short; the next dump and the items are unaffected");
    for (int n : {3, 12, 20, 60}) for (int len : {10, 5000}) for (int mode = 1; mode <= 3; mode++) for (int at = 1; at <= 9; at++) { if (n == 60 && len > 10) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; l.begin(); for (int i = 0; i < n; i++) l.step(kset("set", "k" + S(i) + string(len, 'k'), "v"));
        l.hist.push_back({mc::fmt("(file system call %d fails, mode %d)", at, mode), ""}); vfs::fail_at = at; vfs::fail_mode = mode; vfs::failed = false; string r = rq(l, "dump start key /vfs/d\r\n"); settle(l); bool f = vfs::failed; vfs::fail_at = 0; auto s = st_of(l.c, "stats dump"); if (s["dumper:status"] != "stopped") l.fail("running", "the dump does not end");
        if (f && s["dumper:success"] != "false") l.fail("success", "the dump reports success although writing the file failed"); if (!f && (r != "OK\r\n" || s["dumper:success"] != "true")) l.fail("success", "the dump failed without a reason"); if (r != "OK\r\n" && r.compare(0, 12, "SERVER_ERROR")) l.fail("reply", "dump start answered with " + mc::esc(r)); if (!f) check_dump(l, nullptr, "/vfs/d"); dump(l, nullptr); wipe(l, base); ctx.trace(); ctx.distinct(at * 1000 + mode * 100 + n + len); }
}
// ---- schedules
struct Chk { Prog p; std::set<string> stable; };
static Strs keys_of(const Prog &p) { std::set<string> s; auto add = [&](const Strs &v) { for (auto &c : v) { auto t = model::split(c.substr(0, c.find("\r\n"))); if (t.size() > 1 && (t[0] == "set" || t[0] == "add" || t[0] == "incr" || t[0] == "delete" || t[0] == "touch" || t[0] == "getattr")) s.insert(t[1]); if (t.size() > 2 && t[0].size() == 3 && t[0].compare(1, 2, "op") == 0) s.insert(t[2]); } }; add(p.init); for (auto &c : p.conns) add(c); return Strs(s.begin(), s.end()); }
static bool foreign(const string &q) { return q.compare(0, 4, "dump") == 0 || q.compare(0, 5, "scrub") == 0 || q.compare(0, 5, "stats") == 0 || q.compare(0, 6, "config") == 0; }
static void drive(mc::Ctx &ctx, conc::Engine &e, vector<Prog> ps, const char *what) {
    const Prog *cur = nullptr; sim::early_wake_us = 10000; e.o.setup = [] { uint64_t t = sim::now_us() % 1000000; sim::advance_us(1000000 - t + 2000); vfs::load({}); vfs::oplog.clear(); };
    e.o.finish = [&](conc::Run &r) { int c = e.adm; sim::settle(); auto d = st_of(c, "stats dump"), s = st_of(c, "stats scrub"); auto im = vfs::image(); r.extra = d["dumper:status"] + "|" + d["dumper:success"] + "|" + d["dumper:dumped"] + "|" + s["scrubber:status"] + "|" + S(items(c)) + "|" + (im.count("/vfs/d") ? im["/vfs/d"] : string("(none)")); };
    e.o.judge = [&](const conc::Run &r) -> string {
        vector<conc::Op> ops; bool dumped = false, stopped = false; int okd = 0; for (auto &x : r.ops) { if (!foreign(x.req)) { ops.push_back(x); continue; } string w = x.req.substr(0, x.req.find("\r\n")); if (w.compare(0, 10, "dump start") == 0) { if (x.rep == "OK\r\n") { dumped = true; okd++; } else if (x.rep.compare(0, 12, "SERVER_ERROR")) return "dump: " + w + " answered with " + mc::esc(x.rep, 80); } else if (w == "dump stop") { stopped = true; if (x.rep != "OK\r\n") return "dump: stop answered with " + mc::esc(x.rep, 80); } else if (w == "scrub") { if (x.rep != "OK\r\n" && x.rep != "BUSY\r\n") return "scrub: answered with " + mc::esc(x.rep, 80); } else if (w == "stats") {} else if (x.rep.size() < 5 || x.rep.compare(x.rep.size() - 5, 5, "END\r\n")) return "stats: incomplete reply " + mc::esc(x.rep, 200); }
        string e1 = conc::linearize(*cur, r.init, ops, r.fin); if (!e1.empty()) return e1;
        vector<string> f; size_t p = 0; for (int i = 0; i < 5; i++) { size_t q = r.extra.find('|', p); f.push_back(r.extra.substr(p, q - p)); p = q + 1; } string file = r.extra.substr(p);
        // items that are live at the end, as seen by the final commands
        std::set<string> alive; std::map<string, string> typ; for (auto &x : r.fin) if (x.req.compare(0, 8, "getattr ") == 0 && x.rep.compare(0, 5, "ATTR ") == 0) alive.insert(x.req.substr(8, x.req.find_first_of(" \r", 8) - 8));
        bool scr = false; for (auto &x : r.ops) if (x.req.compare(0, 5, "scrub") == 0 && x.rep == "OK\r\n") scr = true;
        if (scr) { if (f[3] != "stopped") return "scrub: does not end, status " + f[3]; bool fl = false; for (auto &x : ops) if (x.req.compare(0, 5, "flush") == 0) fl = true; if (atoll(f[4].c_str()) < (long long)alive.size() || (!fl && atoll(f[4].c_str()) != (long long)alive.size())) return "scrub: " + f[4] + " items are left, " + S(alive.size()) + " of them are live"; }
        if (dumped) { if (f[0] != "stopped") return "dump: does not end, status " + f[0]; if (!stopped && f[1] != "true") return "dump: reports failure"; vector<Line> v; string sum, err; if (!parse_dump(file, v, sum, err) && f[1] == "true") return "dump: " + err; if (f[1] == "true" && sum.empty()) return "dump: no summary"; if (f[1] == "true" && (sum.find(", count=" + S(v.size()) + ",") == string::npos || f[2] != S(v.size()))) return "dump: " + S(v.size()) + " lines, stats " + f[2] + ", " + sum;
            string pre; bool haspre = false; for (auto &x : r.ops) if (x.req.compare(0, 11, "dump start ") == 0) { auto t = model::split(x.req); if (t.size() == 5) { haspre = true; pre = t[3] == "<null>" ? "" : t[3]; } }
            std::set<string> ever, touched; bool all = false; for (auto &k : keys_of(*cur)) ever.insert(k); Prog q; for (auto &x : ops) { if (x.req.compare(0, 5, "flush") == 0) all = true; Prog t; t.conns = {{x.req}}; for (auto &k : keys_of(t)) touched.insert(k); }
            // initial live set from the model
            model::Model m; m.now = sim::now_s(); string er; std::map<string, string> ty; int64_t back = 0; for (auto &x : r.init) if (x.req[0] == '+') back += atoll(x.req.c_str() + 1); m.now -= back; for (auto &x : r.init) { if (x.req[0] == '+') m.now += atoll(x.req.c_str() + 1); else m.exec(x.req, &x.rep, er); }
            std::map<string, int> cnt; for (auto &x : v) { cnt[x.key]++; if (!ever.count(x.key)) return "dump: lists " + mc::esc(x.key, 40) + ", which never existed"; if (haspre && !in_prefix(x.key, &pre)) return "dump: lists " + mc::esc(x.key, 40) + ", which has another prefix"; auto *it = m.find(x.key); if (!it && !touched.count(x.key)) return "dump: lists the dead item " + x.key; if (it && !touched.count(x.key)) { if (string(1, tchar(it->type)) != x.type) return "dump: wrong type for " + x.key; string w = it->exp == 0 ? "0" : it->exp < 0 ? "-1" : S(it->exp - m.now); if (w != x.exp) return "dump: expiration " + x.exp + " listed for " + x.key + ", it is " + w; } }
            vector<string> ks; for (auto &k : m.kv) ks.push_back(k.first); for (auto &k : ks) if (m.find(k) && !touched.count(k) && !all && (!haspre || in_prefix(k, &pre))) { if (cnt[k] > 1) return "dump: lists " + k + " " + S(cnt[k]) + " times"; if (f[1] == "true" && cnt[k] != 1) return "dump: the key " + k + " existed throughout but is not listed"; } }
        return ""; };
    for (auto &p : ps) { Strs ks = keys_of(p); for (auto &k : ks) p.final_.push_back("getattr " + k + "\r\n"); for (auto &k : ks) p.cleanup.push_back("delete " + k + "\r\n"); }
    { vector<Prog> w; for (size_t i = 0; i < ps.size(); i += ps.size() / 60 + 1) w.push_back(ps[i]); e.warm(w); }
    ctx.note_bound(mc::fmt("%zu programs (%s), all schedules with at most %d preemptions (background threads included)", ps.size(), what, e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; cur = &p; e.explore(p); if (ctx.case_index() % 97 == 1) { string t; for (auto &c : p.conns) for (auto &x : c) t += mc::esc(x, 40) + " ; "; ctx.sample(p.name + ": " + t + "so far " + e.report()); } if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
static const vector<Strs> INIT = { {kset("set", "a", "1"), "+1", "flush_all\r\n", "+1", kset("set", "b", "2"), kset("set", "c", "3", 0, 1), "lop insert d 0 1 create 0 50 5\r\nx\r\n", kset("set", "p:e", "5"), "sop insert p:f 1 create 0 1 5\r\ny\r\n", kset("set", "g", "7"), "+2"}, {kset("set", "b", "2"), kset("set", "c", "3"), kset("set", "p:e", "1"), kset("set", "p:f", "2"), kset("set", "g", "6"), kset("set", "h", "7"), kset("set", "i", "8")} };
static Strs muta() { return {kset("set", "a", "new"), "delete b\r\n", kset("set", "b", "22"), "gets c\r\n", kset("add", "c", "33"), "touch c 100\r\n", "lop insert d 0 1\r\nz\r\n", "lop get d 0..-1 drop\r\n", "delete p:e\r\n", "incr g 1\r\n", kset("set", "n", "9"), "flush_all\r\n", "flush_prefix p\r\n", "get b c g\r\n"}; }
SUITE("C28", scrub_sched, "tsan", BOTH) {
    mc::boot_std({"-t", "4", "-g", "10", "-X", "scrub.so"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 3 : 2; e.o.free_blocked = 0; sim::rpc(e.adm, "config scrub_count 2\r\n"); vector<Prog> ps; auto mu = muta();
    for (auto &in : INIT) for (size_t i = 0; i < mu.size(); i++) for (size_t j = 0; j < (ctx.thorough ? mu.size() : 4); j++) { Prog p; p.name = "scrub"; p.init = in; p.conns = {{"scrub\r\n"}, {mu[i], mu[(i * 5 + j + 3) % mu.size()]}}; ps.push_back(p); }
    for (auto &in : INIT) for (auto &m : Strs{"scrub\r\n", "stats scrub\r\n", "dump start key /vfs/d\r\n", "config scrub_count 1\r\n"}) { Prog p; p.name = "scrub and"; p.init = in; p.conns = {{"scrub\r\n"}, {m, "delete b\r\n"}}; ps.push_back(p); }
    drive(ctx, e, ps, "scrub next to a connection sending two commands");
}
SUITE("C28", dump_sched, "tsan", BOTH) {
    mc::boot_std({"-t", "4", "-g", "10", "-X", "scrub.so"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 3 : 2; e.o.free_blocked = 0; sim::rpc(e.adm, "config scrub_count 2\r\n"); vector<Prog> ps; auto mu = muta();
    for (auto &in : INIT) for (size_t i = 0; i < mu.size(); i++) for (size_t j = 0; j < (ctx.thorough ? mu.size() : 4); j++) { Prog p; p.name = "dump"; p.init = in; p.conns = {{"dump start key /vfs/d\r\n"}, {mu[i], mu[(i * 5 + j + 3) % mu.size()]}}; ps.push_back(p); }
    for (auto &in : INIT) for (auto &d : Strs{"dump start key p /vfs/d\r\n", "dump start key <null> /vfs/d\r\n"}) for (auto &m : Strs{"delete b\r\n", kset("set", "p:e", "2"), kset("set", "p:n", "2"), "dump stop\r\n", "stats dump\r\n", "get ppppppppppppppppppppppppppppppppppppppppppppppppppppp:e\r\n"}) { Prog p; p.name = "dump of a prefix"; p.init = in; p.conns = {{d, "get ppppppppppppppppppppppppppppppppppppppppppppppppppppppp:q\r\n"}, {m}}; ps.push_back(p); }
    drive(ctx, e, ps, "key dump next to a connection sending two commands");
}
SUITE("C28", dump_ctl, "tsan", BOTH) {
    mc::boot_std({"-t", "4", "-g", "10", "-X", "scrub.so"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 3 : 2; e.o.free_blocked = 0; sim::rpc(e.adm, "config scrub_count 2\r\n"); vector<Prog> ps;
    for (auto &in : INIT) for (auto &m : Strs{"dump stop\r\n", "dump start key /vfs/d\r\n", "stats dump\r\n", "scrub\r\n"}) { Prog p; p.name = "dump and"; p.init = in; p.conns = {{"dump start key /vfs/d\r\n"}, {m, "delete b\r\n"}}; ps.push_back(p); Prog q = p; q.conns = {{"dump start key /vfs/d\r\n", "dump stop\r\n"}, {m}}; ps.push_back(q); }
    drive(ctx, e, ps, "dumps that are stopped, started twice, inspected, next to scrubs");
}
