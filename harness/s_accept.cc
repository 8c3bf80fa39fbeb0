// C29 connections: reuse after a disconnect at any point, the connection limit, fairness, allocation failures, dispatch
#include "alpha.h"
#include "bin.h"
#include "conc.h"
#include <algorithm>
#include <cstring>
#include <cerrno>
using namespace ex; using namespace al; using std::string; using std::vector; using conc::Prog;
static const Strs DUMP = {"getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "gets other nk K2\r\n", "getattr nk\r\n"};
static string mask(const string &r) { string o; size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) { o += r.substr(p); break; } string ln = r.substr(p, e - p); if (ln.compare(0, 6, "VALUE ") == 0) { auto t = model::split(ln); if (t.size() == 5) ln = ln.substr(0, ln.rfind(' ')) + " #"; } o += ln + "\r\n"; p = e + 2; } return o; }
static string dump(int c) { string r; for (auto &d : DUMP) r += sim::rpc(c, d); return mask(r); }
static void clean(int c) { for (auto *k : {"K", "other", "K2", "nk", "P"}) sim::rpc(c, string("delete ") + k + "\r\n"); }
static std::map<string, string> stats(int c) { std::map<string, string> m; string r = sim::rpc(c, "stats\r\n"); size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) break; auto t = model::split(r.substr(p, e - p)); if (t.size() == 3) m[t[1]] = t[2]; p = e + 2; } return m; }
static bool fits(const char *n, const string &v) { string s = n; if (v == "lop") return s == "list"; if (v == "sop") return s == "set"; if (v == "mop") return s == "map"; if (v == "bop") return s == "tree"; return s == "kv" || s == "num"; }
// ------------------------------------------------------------------ reuse
struct A { Strs init; string stream; bool single; string name; };
static Strs PROBE0() { return {"get K other\r\n", "getattr K\r\n"}; }
static vector<Strs> probes() { return { {kset("set", "K", "abc", 3), "gets K other\r\n"}, {"delete K\r\n", "lop insert K 0 3 create 4 0 5\r\nxyz\r\n", "lop get K 0..-1\r\n"}, {"delete K\r\n", "mop insert K fld 2 create 4 0 5\r\nxy\r\n", "mop get K 3 1\r\nfld\r\n"}, {"delete K\r\n", "sop insert K 2 create 4 0 5\r\nxy\r\n", "sop exist K 2\r\nxy\r\n"}, {"delete K\r\n", bopi("K", "6", "zz", "0x02", "create 4 0 5"), "bop get K 0..100\r\n", "bop mget 7 2 0..100 5\r\nK other\r\n"}, {"mget 7 2\r\nK other\r\n", kset("append", "other", "q"), "get other\r\n"}, {kset("set", "other", "nr", 9, 0, "noreply"), "get other K\r\n", "bogus\r\n", "get other\r\n"}, {"incr other 5\r\n", "touch other 100\r\n", "getattr other\r\n"}, {"lop insert K 0 9000\r\n" + string(9000, 'L') + "\r\n", "get K other\r\n"}, {kset("set", "K", string(5000, 'v'), 3), "get K other\r\n"} }; }
static bool special(mc::Ctx &ctx, Lock &l, int k) { // pipelined and binary requests on the new connection
    auto want = [&](const string &q, const string &w) { string r = sim::rpc(l.c, q); l.hist.push_back({mc::esc(q, 300), mc::esc(r, 500)}); if (r != w) l.fail("reuse", "the next connection is answered " + mc::esc(r, 200) + " instead of " + mc::esc(w, 200)); }; (void)ctx;
    if (k == 0) { want("lop insert P 0 1 create 0 0 5 pipe\r\na\r\nlop insert P 0 2 pipe\r\nbb\r\nlop delete P 0\r\n", "RESPONSE 3\r\nCREATED_STORED\r\nSTORED\r\nDELETED\r\nEND\r\n"); want("get other\r\n", "VALUE other 7 4\r\nkeep\r\nEND\r\n"); want("delete P\r\n", "DELETED\r\n"); return true; }
    if (k == 1) { string g = bin::key(bin::GET, "other").str() + bin::simple(bin::NOOP).str(); string r = sim::rpc(l.c, g); vector<bin::R> v; l.hist.push_back({mc::esc(g, 200), mc::esc(r, 300)}); if (!bin::parse(r, v) || v.size() != 2 || v[0].status || v[0].val != "keep" || v[0].opq != 0x1234 || v[1].op != bin::NOOP) l.fail("reuse", "the next connection, speaking binary, is answered " + mc::esc(r, 200)); return true; }
    return false;
}
// how: 0 orderly close, 1 reset. mode 0: the stream is cut after at bytes; 1: all sent, the reply blocks after at bytes
static void one(mc::Ctx &ctx, Lock &l, const A &a, size_t at, int how, int mode, int probe, const string &d0, uint64_t fds, uint64_t slab0) {
    int adm = l.c; clean(adm); sim::reseed(); for (auto &i : a.init) sim::rpc(adm, i); l.begin(); int x = sim::connect(); sim::run();
    if (mode == 0) { sim::send(x, a.stream.substr(0, at)); sim::run(); } else { sim::send_script(x, at ? vector<int>{(int)at, -1} : vector<int>{-1}); sim::send(x, a.stream); sim::run(); }
    string d1 = dump(adm); l.hist.push_back({mc::esc(a.stream, 1500) + mc::fmt("   [%s %zu of %zu bytes, then %s]", mode ? "reply blocked after" : "cut after", at, a.stream.size(), how ? "reset" : "closed"), mc::esc(sim::peek(x), 500)});
    if (how) sim::reset(x); else sim::shut(x); sim::run(); if (mode) { sim::unblock(x); sim::run(); }
    if (!sim::closed(x)) l.fail("open", "the server keeps the connection open"); sim::forget(x);
    string d2 = dump(adm); if (d1 != d2 && (mode == 0 || a.single)) l.fail("state", "the disconnect changed the data: " + mc::esc(d1, 300) + " before, " + mc::esc(d2, 300) + " after"); if (mode == 0 && a.single && at < a.stream.size() && d1 != d0) l.fail("state", "an incomplete request changed the data: " + mc::esc(d0, 300) + " before, " + mc::esc(d1, 300) + " after");
    clean(adm); sim::settle(); if (sim::slab().live_bytes != slab0) l.fail("leak", mc::fmt("item memory held after the connection is gone: %llu bytes, before %llu", (unsigned long long)sim::slab().live_bytes, (unsigned long long)slab0)); if (sim::outstanding_fds() != fds) l.fail("fds", "the descriptor is not released");
    static const auto P = probes(); size_t hs = l.hist.size(); (void)hs; int y = sim::connect(); sim::run(); l.m = model::Model(); l.m.now = sim::now_s(); for (auto &i : a.init) l.step(i); l.c = y; probe %= (int)P.size() + 2; if (probe < 2) special(ctx, l, probe); else { for (auto &q : PROBE0()) l.step(q); for (auto &q : P[probe - 2]) l.step(q); } sim::shut(y); sim::run(); l.c = adm; sim::forget(y);
    ctx.trace(); ctx.trans(3); ctx.distinct(mc::hash(a.stream + a.name, at * 16 + how * 2 + mode));
}
static void group(mc::Ctx &ctx, Lock &l, const A &a, const vector<size_t> &cuts, const vector<size_t> &blocks, uint64_t fds, uint64_t slab0, int &rot) {
    clean(l.c); for (auto &i : a.init) sim::rpc(l.c, i); string d0 = dump(l.c); uint64_t h[4]; int reps = cuts.size() * 2 > 60 ? 1 : (int)(60 / (cuts.size() * 2 + 1)) + 1; if (a.stream.size() < 1500) reps = std::max(reps, 1);
    for (int pass = 0; pass < 4; pass++) { if (pass == 3 && h[2] <= h[1]) break; // memory kept per disconnect shows as growth in the repeated passes
        for (int r = 0; r < reps; r++) for (size_t c : cuts) for (int how = 0; how < 2; how++) { if (pass && !ctx.thorough && (c + how + pass) % 2 && cuts.size() > 30) continue; one(ctx, l, a, c, how, 0, rot++, d0, fds, slab0); } for (size_t b : blocks) for (int how = 0; how < 2; how++) one(ctx, l, a, b, how, 1, rot++, d0, fds, slab0);
        h[pass] = sim::heap().live_bytes; if (pass == 1 && h[1] <= h[0]) break; if (pass == 3 && h[3] > h[2] && h[2] > h[1] && h[1] > h[0]) { l.begin(); l.hist.push_back({mc::esc(a.stream, 500) + " cut everywhere, repeated", mc::fmt("heap in use %llu, %llu, %llu, %llu bytes", (unsigned long long)h[0], (unsigned long long)h[1], (unsigned long long)h[2], (unsigned long long)h[3])}); l.fail("heap", "memory in use grows with every round of broken off requests"); } }
}
static vector<size_t> upto(size_t n) { vector<size_t> r; for (size_t i = 0; i <= n; i++) r.push_back(i); return r; }
static const Strs MORE = {"get K other\r\n", "gets K other K\r\n", "mget 7 2\r\nK other\r\n", kset("set", "K", "va\r\nue", 1), kset("set", "K", "abc", 3, 0, "noreply"), "incr K 1 noreply\r\n", "lop insert K 0 3\r\nz\r\n\r\n", "lop insert K 0 1 create 0 0 5 noreply\r\nz\r\n", "mop get K 3 2\r\nf n\r\n", "mop delete K 3 2\r\nf g\r\n", "bop mget 7 2 0..100 5\r\nK other\r\n", "bop smget 7 2 0..100 5 unique\r\nK other\r\n", "stats\r\n", "stats prefixes\r\n", "bogus\r\n", "help\r\n", "scan key 0 count 10\r\n", "set K 0 0 2000000\r\n", "lop insert K 0 99999\r\nab", "mget 3 9\r\nK o\r\n"};
static Strs pipes() { Strs r; r.push_back("lop insert K 0 1 create 0 0 5 pipe\r\na\r\nlop insert K 1 2 pipe\r\nbb\r\nlop insert K 0 3\r\nccc\r\n"); r.push_back("sop insert K 1 create 0 0 5 pipe\r\na\r\nsop exist K 1 pipe\r\na\r\nsop delete K 1\r\nb\r\n"); r.push_back("bop insert K 1 1 create 0 0 5 pipe\r\na\r\nbop upsert K 1 2 pipe\r\nbb\r\nbop delete K 1\r\n"); r.push_back("mop insert K f 1 create 0 0 5 pipe\r\na\r\nmop update K f 2 pipe\r\nbb\r\nmop delete K 1 1\r\nf\r\n"); r.push_back("bop insert K 1 1 pipe\r\na\r\nbop incr K 1 1 pipe\r\nlop insert K 0 1\r\nx\r\n"); r.push_back("get K\r\nset K 0 0 3\r\nabc\r\nincr K 1\r\nget other\r\n"); return r; }
static size_t replen(int adm, const A &a) { clean(adm); for (auto &i : a.init) sim::rpc(adm, i); int x = sim::connect(); sim::run(); string r = sim::rpc(x, a.stream); sim::shut(x); sim::run(); sim::forget(x); return r.size(); }
struct Base { uint64_t fds, slab; };
static Base base(Lock &l) { l.pre = "next connection"; clean(l.c); for (int i = 0; i < 4; i++) { int y = sim::connect(); sim::run(); sim::rpc(y, kset("set", "K", "1")); sim::shut(y); sim::run(); } clean(l.c); sim::settle(); return {sim::outstanding_fds(), sim::slab().live_bytes}; }
SUITE("C29", conn_reuse, "asan", BOTH) {
    mc::boot_std({"-g", "10", "-t", "2"}); Lock l(ctx); l.connect(); Base b = base(l); auto ts = types16(); auto cs = cat({all_cmds(), MORE, pipes()}); auto bc = bin::corpus(); int rot = 0;
    ctx.note_bound(S(ts.size()) + " item states x " + S(cs.size()) + " ASCII requests and " + S(bc.size()) + " binary ones: broken off by a close and by a reset after every byte, and with the reply blocked after every byte; data, item memory and descriptors checked, then a connection that reuses the resources is driven in lock step with the model through 12 probes in rotation; every round repeated to expose memory kept");
    for (auto &t : ts) { size_t i = 0; for (auto &c : cs) { i++; string v = c.substr(0, c.find(' ')); bool fit = fits(t.name, v); if (!fit && !(ctx.thorough ? mc::hash(t.name + c) % 3 == 0 : mc::hash(t.name + c) % 24 == 0)) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; A a; a.init = t.init; a.init.push_back(kset("set", "other", "keep", 7)); a.stream = c; a.single = i <= cs.size() - pipes().size(); a.name = t.name; size_t n = replen(l.c, a); vector<size_t> bl; for (size_t k = 0; k < n && k < (ctx.thorough ? 200 : 40); k++) bl.push_back(k); group(ctx, l, a, upto(a.stream.size()), bl, b.fds, b.slab, rot); if (ctx.case_index() % 101 == 1) ctx.sample(mc::esc(c, 60) + " in state " + t.name); }
        for (auto &p : bc) { string nm = t.name; if (nm != "kv" && nm != "list" && nm != "set" && nm != "tree" && nm != "none") continue; if (!ctx.thorough && mc::hash(t.name + p.str()) % 3) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; A a; a.init = t.init; a.init.push_back(kset("set", "other", "keep", 7)); a.stream = p.str(); a.single = true; a.name = t.name; size_t n = replen(l.c, a); vector<size_t> bl; for (size_t k = 0; k < n && k < 60; k += ctx.thorough ? 1 : 5) bl.push_back(k); group(ctx, l, a, upto(a.stream.size()), bl, b.fds, b.slab, rot); } }
}
SUITE("C29", conn_reuse_large, "asan", BOTH) { // requests that enlarge buffers or take memory blocks
    mc::boot_std({"-g", "10", "-t", "2", "-m", "200"}); Lock l(ctx); l.connect(); Base b = base(l); int rot = 0; vector<A> v; auto add = [&](const Strs &in, const string &s, const string &n) { A a; a.init = in; a.init.push_back(kset("set", "other", "keep", 7)); a.stream = s; a.single = true; a.name = n; v.push_back(a); };
    for (size_t n : {3000u, 30000u, 32000u}) { add({"lop create K 0 0 5\r\n"}, "lop insert K 0 " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "list"); add({"mop create K 0 0 5\r\n"}, "mop insert K f " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "map"); add({"sop create K 0 0 5\r\n"}, "sop exist K " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "set"); add({"bop create K 0 0 5\r\n", bopi("K", "5", "x")}, "bop update K 5 " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "tree"); add({"bop create K 0 0 5\r\n"}, "bop upsert K 5 " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "tree"); }
    for (size_t n : {3000u, 100000u, 1000000u}) { add({}, kset("set", "K", string(n, 'v'), 3), "none"); add({kset("set", "K", "1")}, kset("append", "K", string(n, 'v')), "kv"); }
    for (int n : {10, 1000, 6000}) { string k; for (int i = 0; i < n; i++) k += (i ? " " : "") + string(i % 3 ? "other" : "K") ; add({kset("set", "K", "1")}, "mget " + S(k.size()) + " " + S(n) + "\r\n" + k + "\r\n", "kv"); add({kset("set", "K", "1")}, "mgets " + S(k.size()) + " " + S(n) + "\r\n" + k + "\r\n", "kv"); if (n <= 1000) { add({kset("set", "K", "1")}, "get " + k + "\r\n", "kv"); string f; for (int i = 0; i < n; i++) f += (i ? " " : "") + string("fl") + S(i); add({"mop create K 0 0 4000\r\n"}, "mop get K " + S(f.size()) + " " + S(n) + "\r\n" + f + "\r\n", "map"); add({"mop create K 0 0 4000\r\n"}, "mop delete K " + S(f.size()) + " " + S(n) + "\r\n" + f + "\r\n", "map"); } }
    { string k = string(200, 'a'); for (int i = 1; i < 200; i++) k += "," + string(200, 'a') + S(i); string k2 = k; for (auto &c : k2) if (c == ',') c = ' '; add({"bop create K 0 0 5\r\n", bopi("K", "5", "x")}, "bop mget " + S(k2.size()) + " 200 0..9 50\r\n" + k2 + "\r\n", "tree"); add({"bop create K 0 0 5\r\n", bopi("K", "5", "x")}, "bop smget " + S(k2.size()) + " 200 0..9 50 unique\r\n" + k2 + "\r\n", "tree"); add({"bop create K 0 0 5\r\n"}, "get " + string(15000, 'k') + " K\r\n", "tree"); }
    { Strs in{"lop create K 0 0 4000\r\n"}; for (int i = 0; i < 600; i++) in.push_back("lop insert K -1 3\r\nabc\r\n"); add(in, "lop get K 0..-1\r\n", "list"); add(in, "lop get K 0..-1 drop\r\n", "list"); Strs bi{"bop create K 0 0 4000\r\n"}; for (int i = 0; i < 600; i++) bi.push_back(bopi("K", S(i), "abc")); add(bi, "bop get K 0..9999\r\n", "tree"); add(bi, "bop get K 0..9999 delete\r\n", "tree"); add(bi, "bop mget 7 2 0..999 50\r\nK other\r\n", "tree"); string pl; for (int i = 0; i < 400; i++) pl += "lop insert K 0 1 pipe\r\na\r\n"; pl += "lop delete K 0\r\n"; add({"lop create K 0 0 4000\r\n"}, pl, "list"); v.back().single = false; }
    ctx.note_bound(S(v.size()) + " requests of up to 1 MB (multi-block elements, many keys and fields, long lines, long replies and pipelines), broken off around every line end and every power of two, replies blocked at such points");
    for (auto &a : v) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; std::set<size_t> c{0, 1, 7, a.stream.size(), a.stream.size() - 1, a.stream.size() - 2, a.stream.size() - 3, a.stream.size() / 2}; int k = 0; for (size_t p = 0; (p = a.stream.find("\r\n", p)) != string::npos; p++) { if (++k > 6) continue; for (int d = -2; d <= 3; d++) if ((long)p + d > 0 && p + d < a.stream.size()) c.insert(p + d); } for (size_t q = 1024; q < a.stream.size(); q *= 2) { c.insert(q); if (ctx.thorough) { c.insert(q - 1); c.insert(q + 1); } } size_t n = replen(l.c, a); std::set<size_t> bl{0, 1, n / 2, n ? n - 1 : 0}; for (size_t q = 2048; q < n; q *= 2) bl.insert(q); if (a.init.size() > 100 && !ctx.thorough) { std::set<size_t> k2; int z = 0; for (size_t x : c) if (z++ % 3 == 0 || x == a.stream.size()) k2.insert(x); c = k2; } group(ctx, l, a, vector<size_t>(c.begin(), c.end()), vector<size_t>(bl.begin(), bl.end()), b.fds, b.slab, rot); ctx.sample(mc::esc(a.stream, 50) + ": " + S(a.stream.size()) + " bytes cut at " + S(c.size()) + " points"); }
}
// ------------------------------------------------------------------ the limit
struct Cl { int c; bool admin; };
SUITE("C29", conn_limit, "std", BOTH) { // every sequence of opens, closes and changes of the limit
    mc::boot_std({"-c", "6", "-t", "2"}); Lock l(ctx); l.connect(); int keep = l.c; auto s0 = stats(keep); int listening = atoi(s0["curr_connections"].c_str()) - 1; uint64_t total0 = strtoull(s0["total_connections"].c_str(), 0, 10), rej0 = strtoull(s0["reject_connections"].c_str(), 0, 10); int maxc = 6;
    Strs al = {"open", "open", "admin", "close old", "close new", "reset new", "half", "max 5", "max 6", "max 9"}; al.erase(al.begin()); int depth = ctx.thorough ? 6 : 4; uint64_t fds = sim::outstanding_fds(); sim::rpc(keep, kset("set", "K", "v"));
    ctx.note_bound(mc::fmt("%d listening socket(s); limit 6 (and changed to 5, 6, 9 at run time); all %zu^%d sequences of opens (ordinary, administrative address), closes, resets, half sent requests and limit changes, from 0, 2 and 5 open connections; after every step each open connection is served, refused ones are closed at once, and the counters agree", listening, al.size(), depth));
    size_t n = al.size(); uint64_t N = 1; for (int i = 0; i < depth; i++) N *= n;
    for (int pre : {0, 2, 5, 14}) for (uint64_t code = 0; code < N; code++) { uint64_t x = code; vector<int> q; for (int i = 0; i < depth; i++) { q.push_back(x % n); x /= n; } if (pre == 14 && q[0] != 1 && q[0] != 2) continue; 
        if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; l.begin(); vector<Cl> open; uint64_t rej = 0, acc = 0; bool half = false;
        auto curr = [&] { return listening + 1 + (int)open.size(); };
        auto doopen = [&](bool adm) { int c = sim::connect(adm ? "127.0.0.1" : "10.1.2.3"); sim::run(); bool want = curr() < maxc || (adm && curr() < maxc + 10); bool got = !sim::closed(c); l.hist.push_back({adm ? "open (administrative)" : "open", got ? "accepted" : "refused"}); if (!sim::peek(c).empty()) l.fail("limit", "bytes sent to a new connection: " + mc::esc(sim::peek(c), 100)); if (want != got) l.fail("limit", mc::fmt("with %d connections and a limit of %d a new one is %s", curr(), maxc, got ? "accepted" : "refused")); if (got) { open.push_back({c, adm}); acc++; } else rej++; };
        auto serve = [&](bool all) { string r = sim::rpc(keep, "get K\r\n"); if (r != "VALUE K 0 1\r\nv\r\nEND\r\n") l.fail("served", "an open connection is answered " + mc::esc(r, 100)); for (auto &o : open) { if (sim::closed(o.c)) l.fail("served", "an open connection was closed"); if (all) { r = sim::rpc(o.c, half && o.c == open.back().c ? "K\r\n" : "get K\r\n"); if (r != "VALUE K 0 1\r\nv\r\nEND\r\n") l.fail("served", "an open connection is answered " + mc::esc(r, 100)); if (half && o.c == open.back().c) half = false; } } auto s = stats(keep); if (atoi(s["curr_connections"].c_str()) != curr()) l.fail("stats", "curr_connections is " + s["curr_connections"] + ", " + S(curr()) + " are open"); if (strtoull(s["reject_connections"].c_str(), 0, 10) != rej0 + rej) l.fail("stats", "reject_connections is " + s["reject_connections"] + ", expected " + S(rej0 + rej)); if (strtoull(s["total_connections"].c_str(), 0, 10) != total0 + acc) l.fail("stats", "total_connections is " + s["total_connections"] + ", expected " + S(total0 + acc)); };
        for (int i = 0; i < pre; i++) doopen(i >= 4); serve(false);
        for (int a : q) { const string &op = al[a]; if (op == "open") { half = false; doopen(false); } else if (op == "admin") { half = false; doopen(true); } else if (op == "half") { if (!open.empty() && !half) { sim::send(open.back().c, "get "); sim::run(); half = true; l.hist.push_back({"half a request", ""}); } }
            else if (op.compare(0, 3, "max") == 0) { int v = atoi(op.c_str() + 4); string r = sim::rpc(keep, "config maxconns " + S(v) + "\r\n"); l.hist.push_back({op, r}); if (r == "END\r\n") maxc = v; else if (r != "CLIENT_ERROR the value is out of range\r\n" || v >= curr() * 1.1) l.fail("limit", "config maxconns " + S(v) + " with " + S(curr()) + " connections is answered " + mc::esc(r, 80)); r = sim::rpc(keep, "config maxconns\r\n"); if (r != "maxconns " + S(maxc) + "\r\nEND\r\n") l.fail("limit", "config maxconns reports " + mc::esc(r, 80)); }
            else if (!open.empty()) { size_t k = op == "close old" ? 0 : open.size() - 1; if (k == open.size() - 1) half = false; int c = open[k].c; if (op == "reset new") sim::reset(c); else sim::shut(c); sim::run(); l.hist.push_back({op, ""}); if (!sim::closed(c)) l.fail("open", "a closed connection is kept"); sim::forget(c); open.erase(open.begin() + k); }
            ctx.trans(); ctx.state(mc::hash(S(open.size()) + "/" + S(maxc) + "/" + S(half))); serve(!half); }
        serve(true); for (auto &o : open) { sim::shut(o.c); sim::forget(o.c); } sim::run(); open.clear(); total0 += acc; rej0 += rej; acc = rej = 0; half = false; if (maxc != 6) { sim::rpc(keep, "config maxconns 6\r\n"); maxc = 6; } serve(false); if (sim::outstanding_fds() != fds) l.fail("fds", "descriptors are left open"); ctx.trace(); if (ctx.case_index() % 9973 == 1) { string t; for (auto &h : l.hist) t += h.first + "; "; ctx.sample(t); } }
}
SUITE("C29", conn_limit_big, "std", BOTH) { // configured limits of other sizes: exactly that many
    ctx.note_bound("limits 3..40, 100, 250: opened one past the limit, one closed and one opened again at every position, twice; also 10 administrative connections beyond it and no more");
    for (int lim : {3, 4, 5, 8, 10, 16, 25, 40, 100, 250}) { if (!ctx.mine()) continue; ctx.isolated([&] { mc::boot_std({"-c", S(lim), "-t", "3"}); Lock l(ctx); l.connect(); int keep = l.c; auto s = stats(keep); int have = atoi(s["curr_connections"].c_str()); vector<int> o; l.begin(); auto op = [&](const char *ip, bool want, const char *what) { int c = sim::connect(ip); sim::run(); bool got = !sim::closed(c) && sim::rpc(c, "version\r\n").compare(0, 8, "VERSION ") == 0; if (got != want) l.fail("limit", mc::fmt("limit %d, %d open: %s is %s", lim, have + (int)o.size(), what, got ? "accepted" : "refused")); if (got) o.push_back(c); ctx.trans(); };
        while (have + (int)o.size() < lim) op("10.0.0.1", true, "an ordinary connection"); op("10.0.0.1", false, "an ordinary connection"); op("10.0.0.1", false, "an ordinary connection");
        for (int round = 0; round < 2; round++) for (size_t k = 0; k < o.size(); k++) { sim::shut(o[k]); sim::run(); o.erase(o.begin() + k); op("10.0.0.2", true, "an ordinary connection"); op("10.0.0.2", false, "an ordinary connection"); if (sim::rpc(keep, "version\r\n").compare(0, 8, "VERSION ")) l.fail("served", "the first connection is not served"); }
        for (int i = 0; i < 10; i++) op("127.0.0.1", true, "an administrative connection"); op("127.0.0.1", false, "the eleventh administrative connection beyond the limit"); op("10.0.0.1", false, "an ordinary connection");
        for (size_t i = 0; i < o.size(); i++) { sim::shut(o[i]); } sim::run(); if (atoi(stats(keep)["curr_connections"].c_str()) != have) l.fail("stats", "curr_connections does not return to its first value"); ctx.trace(); ctx.state(lim); }, 60); }
}
// ------------------------------------------------------------------ fairness: the configured number of requests per turn
// the processor goes round at every turn of an event loop
struct RoundRobin : sim::Policy { int last = 0; int choose(const vector<int> &en, int cur, int kind, const void *) override { int r = cur; if (cur < 0 || kind == sim::PK_EVLOOP) { r = en[0]; for (int e : en) if (e > (cur > 0 ? cur : last)) { r = e; break; } } return last = r; } };
SUITE("C29", fairness, "std", BOTH) {
    ctx.note_bound("requests per turn 1, 2, 3, 5, 20 (default) and one worker thread: a connection sends 400 requests at once (8 forms, in one or many segments, as pipelines, before or after the other's), another sends one, or connects: it is answered before more than two turns (for a connect: eight)' worth of the flood has been answered since its request arrived");
    Strs fl = {"get K\r\n", kset("set", "K", "v"), "incr N 1\r\n", "bogus\r\n", "lop insert L 0 1\r\nx\r\n", "mget 1 1\r\nK\r\n", "incr N 1 noreply\r\n", "bop incr B 1 1 pipe\r\n"};
    for (int R : {1, 2, 3, 5, 20}) for (size_t f = 0; f < fl.size(); f++) { if (!ctx.mine()) continue; ctx.isolated([&] { mc::boot_std({"-R", S(R), "-t", "1"}); Lock l(ctx); l.connect(); RoundRobin rr; sim::policy = &rr; sim::points_enabled = true; int adm = l.c; sim::rpc(adm, kset("set", "K", "v")); sim::rpc(adm, kset("set", "N", "1")); sim::rpc(adm, "lop create L 0 0 5\r\n"); sim::rpc(adm, kset("set", "other", "keep", 7)); sim::rpc(adm, bopi("B", "1", "1", "", "create 0 0 5"));
        for (int seg = 0; seg < 3; seg++) for (int when = 0; when < (f >= 6 ? 2 : 4); when++) { sim::rpc(adm, kset("set", "N", "0")); sim::rpc(adm, "bop update B 1 1\r\n0\r\n"); int x = sim::connect(), y = sim::connect(); sim::run(); string one = fl[f]; int cnt = 400; bool nr = one.find("noreply") != string::npos, pp = one.find("pipe") != string::npos; l.begin(); int done = 0; int at = -1, at0 = -1; bool sent = false;
            auto probe = [&] { sent = true; at0 = done; if (when == 3) { y = sim::connect(); sim::send(y, "get other\r\n"); sim::set_on_reply(y, [&](int) { if (at < 0) at = done; }); } else sim::send(y, pp ? "bop get B 1\r\n" : nr ? "get N\r\n" : "get other\r\n"); };
            // requests of the flood carried out so far: lines of replies, or the number the other connection reads
            size_t per = 0; if (!nr && !pp) { string r = sim::rpc(x, one); per = std::count(r.begin(), r.end(), '\n'); } size_t tot = 0; sim::set_on_reply(x, [&](int) { if (per) { auto &pk = sim::peek(x); tot += std::count(pk.begin(), pk.end(), '\n'); sim::take(x); done = tot / per; } if (when >= 2 && !sent) probe(); });
            if (when != 3) sim::set_on_reply(y, [&](int) { if (at < 0) at = done; });
            string all; if (pp) { for (int i = 0; i < cnt; i++) { all += one; } all += "bop incr B 1 1\r\n"; } else for (int i = 0; i < cnt; i++) all += one; 
            if (when == 0) probe(); if (seg == 0) sim::send(x, all); else for (size_t p = 0; p < all.size(); p += seg == 1 ? one.size() : 777) sim::send(x, all.substr(p, seg == 1 ? one.size() : 777)); if (when == 1) probe(); sim::run(); string yr = sim::take(y); if (nr || pp) { size_t e = yr.find("\r\n"); at = -1; if (e != string::npos) { string ln = yr.substr(e + 2, yr.find("\r\n", e + 2) - e - 2); auto t = model::split(ln); if (!t.empty()) at = atoi(t.back().c_str()); } }
            l.hist.push_back({mc::fmt("%s x %d, one other connection (-R %d, segments %d, moment %d)", mc::esc(one, 60).c_str(), cnt, R, seg, when), mc::fmt("answered after %d, asked after %d", at, at0)});
            if (at < 0) l.fail("fair", "the other connection is never answered"); int slack = when == 3 ? 8 * R + 8 : 2 * R + 2; if (at - at0 > slack) l.fail("fair", mc::fmt("the other connection is answered only after %d further requests of the first (at most %d per turn)", at - at0, R));
            if (!nr && !pp && yr != "VALUE other 7 4\r\nkeep\r\nEND\r\n") l.fail("fair", "wrong reply"); if (!nr && !pp && done != cnt) l.fail("fair", mc::fmt("only %d of %d requests of the flood are answered", done, cnt)); if (sim::unread(x)) l.fail("fair", "the flood is never read");
            sim::set_on_reply(x, nullptr); sim::set_on_reply(y, nullptr); if (f == 4) { sim::rpc(adm, "delete L\r\n"); sim::rpc(adm, "lop create L 0 0 5\r\n"); } sim::shut(x); sim::shut(y); sim::run(); ctx.trace(); ctx.trans(cnt); ctx.distinct(mc::hash(one, R * 100 + seg * 10 + when)); } }, 60); }
}
// ------------------------------------------------------------------ faults while a connection is set up, served and torn down
SUITE("C29", conn_faults, "asan", BOTH) {
    mc::boot_std({"-t", "2", "-c", "300"}); Lock l(ctx); l.connect(); int adm = l.c; sim::rpc(adm, kset("set", "other", "keep", 7)); vector<Strs> w = { {"get other\r\n"}, {kset("set", "K", string(3000, 'x')), "get K other\r\n"}, {"lop insert K 0 1 create 0 0 5 pipe\r\na\r\nlop insert K 0 1\r\nb\r\n"}, {"mget 11 2\r\nother other\r\n"}, {bin::simple(bin::NOOP).str()}, {"get " + string(3000, 'k') + " other\r\n"}, {"lop create K 0 0 9\r\n", "lop insert K 0 9000\r\n" + string(9000, 'y') + "\r\n"} };
    ctx.note_bound(mc::fmt("the n-th memory allocation fails (only it, or all from then on), for every n, while %zu kinds of connections (new connection structures included) are opened, served and closed, 3 and 80 at a time; accept failing with EMFILE, ECONNABORTED, EAGAIN, EINTR 1..5 times; afterwards the connection counts are exact, new connections are served and nothing is held", w.size()));
    auto cnt = [&] { return atoi(stats(adm)["curr_connections"].c_str()); }; int c0 = cnt(); uint64_t fds = sim::outstanding_fds();
    for (size_t k = 0; k < w.size(); k++) for (int many : {3, 80}) { if (!ctx.mine()) continue; ctx.isolated([&] { bool hit = true; for (int mode = 1; mode <= 2; mode++) for (int n = 1, miss = 0; n < 4000 && miss < 2; n++) { if (ctx.out_of_time_fast()) return; if (many == 80 && n > 40 && n % 7) continue; l.begin(); sim::malloc_failed = false; sim::malloc_fail_mode = mode; sim::malloc_fail_at = n; vector<int> cs; for (int i = 0; i < many; i++) { cs.push_back(sim::connect()); sim::run(); } for (auto &q : w[k]) for (int c : cs) { if (!sim::closed(c)) { sim::send(c, q); sim::run(); } } for (int c : cs) { sim::shut(c); sim::run(); } sim::malloc_fail_at = 0; hit = sim::malloc_failed; if (!hit) miss++;
            l.hist.push_back({mc::fmt("%d connections, %s; allocation %d fails (mode %d)", many, mc::esc(w[k][0], 40).c_str(), n, mode), hit ? "" : "not reached"}); sim::settle(); for (int c : cs) { if (!sim::closed(c)) l.fail("open", "a connection is never closed"); sim::forget(c); }
            if (sim::outstanding_fds() != fds) l.fail("fds", "descriptors are left open"); int cn = cnt(); if (cn != c0) l.fail("stats", mc::fmt("curr_connections is %d, %d are open", cn, c0)); for (int i = 0; i < 2; i++) { int y = sim::connect(); sim::run(); string r = sim::rpc(y, "get other\r\n"); if (r != "VALUE other 7 4\r\nkeep\r\nEND\r\n") l.fail("served", "a later connection is answered " + mc::esc(r, 80)); sim::shut(y); sim::run(); sim::forget(y); } sim::rpc(adm, "delete K\r\n"); ctx.trace(); ctx.trans(); ctx.distinct(mc::hash(w[k][0], n * 100 + mode * 10 + many)); } }, 200); }
    for (int e : {EMFILE, ECONNABORTED, EAGAIN, EINTR}) for (int n = 1; n <= 5; n++) for (int m = 1; m <= 3; m++) { if (!ctx.mine()) continue; l.begin(); sim::accept_fail = n; sim::accept_errno = e; vector<int> cs; for (int i = 0; i < m; i++) cs.push_back(sim::connect()); sim::run(); sim::accept_fail = 0; sim::run(); l.hist.push_back({mc::fmt("accept fails %d times with %s, %d connections waiting", n, strerror(e), m), ""}); for (int c : cs) { string r = sim::rpc(c, "get other\r\n"); if (r != "VALUE other 7 4\r\nkeep\r\nEND\r\n") l.fail("served", "the connection is answered " + mc::esc(r, 80)); sim::shut(c); sim::run(); sim::forget(c); } if (cnt() != c0) l.fail("stats", "curr_connections is wrong"); ctx.trace(); ctx.trans(); ctx.distinct(e * 100 + n * 10 + m); }
}
// ------------------------------------------------------------------ schedules
SUITE("C29", dispatch_sched, "tsan", BOTH) {
    mc::boot_std({"-t", "2"}); conc::Engine e(ctx); e.connect(0); e.o.bound = ctx.thorough ? 3 : 2; vector<Prog> ps; Strs q = {"get K\r\n", kset("set", "K", "22", 2), "delete K\r\n", "lop insert L 0 1 create 0 0 5\r\nx\r\n"};
    auto add = [&](const vector<Strs> &cs, const char *n) { Prog p; p.name = n; p.init = {kset("set", "K", "1", 1)}; p.conns = cs; p.fresh = cs.size(); p.final_ = {"gets K\r\n", "lop get L 0..-1\r\n"}; p.cleanup = {"delete K\r\n", "delete L\r\n"}; ps.push_back(p); };
    for (size_t i = 0; i < q.size(); i++) for (size_t j = i; j < q.size(); j++) { add({{q[i]}, {q[j]}}, "two connections"); add({{q[i], "!shut"}, {q[j]}, {"get K\r\n"}}, "three connections, one leaves"); add({{"!shut"}, {q[i]}, {q[j]}}, "three connections, one leaves at once"); }
    add({{q[0]}, {q[1]}, {q[0]}, {q[2]}}, "four connections"); add({{q[0]}, {"!reset"}, {q[1]}, {"!shut"}, {q[0]}}, "five connections"); for (auto &x : q) { add({{x, "!reset"}, {x, "!shut"}, {q[0]}}, "leaving after a request"); add({{kset("set", "K", "9", 9, 0, "noreply"), "!shut"}, {x}}, "silent request then gone"); }
    uint64_t fds = 0; int c0 = 0; e.o.setup = [&] { fds = sim::outstanding_fds(); if (!c0) c0 = atoi(stats(e.adm)["curr_connections"].c_str()); }; e.o.finish = [&](conc::Run &r) { if (sim::outstanding_fds() != fds) r.problems.push_back("descriptors: a connection is not released"); auto s = stats(e.adm); if (atoi(s["curr_connections"].c_str()) != c0) r.problems.push_back("curr_connections: " + s["curr_connections"] + " instead of " + S(c0)); };
    e.warm(ps); ctx.note_bound(mc::fmt("%zu programs of 2..5 connections that arrive at the same time on two workers, some leaving again, all schedules with at most %d preemptions: every request answered, counts and descriptors exact", ps.size(), e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; e.explore(p); if (ctx.case_index() % 17 == 1) ctx.sample(p.name + ": so far " + e.report()); if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
