// C22 segmentation of the request stream, C23 short writes / blocking / peers that go away
#include "alpha.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using std::string; using std::vector; using std::pair;
static const Strs DUMP = {"getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "gets other\r\n"};
// cas tokens and set / map order of elements with equal names are not compared literally: tokens are masked
static string mask(const string &r) { string o; size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) { o += r.substr(p); break; } string ln = r.substr(p, e - p); if (ln.compare(0, 6, "VALUE ") == 0) { auto t = model::split(ln); if (t.size() == 5) ln = ln.substr(0, ln.rfind(' ')) + " #"; } o += ln + "\r\n"; p = e + 2; } return o; }
static string dump(int c) { string r; for (auto &d : DUMP) r += sim::rpc(c, d); return mask(r); }
static void clean(int c) { sim::rpc(c, "delete K\r\n"); sim::rpc(c, "delete other\r\n"); sim::rpc(c, "delete K2\r\n"); }
// the token of K is put into the stream with a fixed width when the stream is sent
static const string PH = "@@@@@@@@@@@@@@@@@@@@";
static string holder(const string &cmd, const string &req) { size_t p = cmd.find("@L(K)"); return p == string::npos ? req : cmd.substr(0, p) + PH + cmd.substr(p + 5); }
static string filled(int adm, const string &st) { size_t p = st.find(PH); if (p == string::npos) return st; string r = sim::rpc(adm, "gets K\r\n"), tok(20, '0'); auto t = model::split(r.substr(0, r.find("\r\n"))); if (t.size() == 5) tok = string(20 - t[4].size(), '0') + t[4]; string o = st; for (; p != string::npos; p = o.find(PH)) o.replace(p, 20, tok); return o; }
struct St22 { Strs init; string stream; string want, end; };
// run the stream in the given pieces on a fresh connection. mode 0: every piece is a wake-up of its own; 1: all there, short reads; 2: short reads with would-block between
static string play(int adm, const St22 &s, const vector<size_t> &cuts, int mode, string &end, bool &cl) { sim::reseed();
    for (auto &i : s.init) sim::rpc(adm, i); string stream = filled(adm, s.stream);
    int c = sim::connect(); sim::run(); string rep; size_t p = 0;
    if (mode == 0) { for (size_t q : cuts) { sim::send(c, stream.substr(p, q - p)); sim::run(); p = q; } sim::send(c, stream.substr(p)); sim::run(); }
    else { vector<int> sc; for (size_t q : cuts) { sc.push_back(q - p); if (mode == 2) sc.push_back(-1); p = q; } sim::read_script(c, sc); sim::send(c, stream); sim::run(); for (int i = 0; i < (int)cuts.size() + 2 && sim::unread(c); i++) { sim::send(c, ""); sim::run(); } }
    rep = sim::take(c); cl = sim::closed(c); if (sim::unread(c) && !cl) rep += "[" + S(sim::unread(c)) + " bytes never read]"; sim::shut(c); sim::run(); sim::forget(c); end = dump(adm); clean(adm); return rep;
}
static void base(mc::Ctx &ctx, Lock &l, St22 &s, const Strs &cmds) { // unsplit, one request at a time, against the model
    sim::reseed(); l.begin(); l.m = model::Model(); l.m.now = sim::now_s(); for (auto &i : s.init) l.step(i); string rep; bool lk = false; for (auto &c : cmds) if (c.find("@L(K)") != string::npos) lk = true; if (lk) l.step("gets K\r\n"); for (auto &c : cmds) { l.step(c); s.stream += holder(c, l.last_req); rep += l.last_rep; } s.want = mask(rep); s.end = dump(l.c); clean(l.c); (void)ctx; }
static void cmp(mc::Ctx &ctx, Lock &l, const St22 &s, const vector<size_t> &cuts, int mode) {
    string end; bool cl; string rep = play(l.c, s, cuts, mode, end, cl); ctx.trace(); ctx.trans(cuts.size() + 1); ctx.distinct(mc::hash(s.stream, mode * 31 + (cuts.empty() ? 0 : cuts[0]) * 1000003 + (cuts.size() > 1 ? cuts[1] * 7919 : 0) + cuts.size()));
    string m = mask(rep); if (m == s.want && end == s.end) { if (ctx.case_index() % 4001 == 1) ctx.sample(mc::esc(s.stream, 60) + " cut at " + (cuts.empty() ? "-" : S(cuts[0])) + " mode " + S(mode)); return; }
    l.begin(); string cs; for (size_t q : cuts) { cs += " " + S(q); if (cs.size() > 200) break; } for (auto &i : s.init) l.hist.push_back({mc::esc(i, 200), ""}); l.hist.push_back({mc::esc(s.stream, 3000) + mc::fmt("   [%zu bytes, cut at%s, mode %d%s]", s.stream.size(), cs.c_str(), mode, cl ? ", then closed" : ""), mc::esc(rep, 3000)}); l.hist.push_back({"unsplit", mc::esc(s.want, 3000)});
    if (m != s.want) l.fail("reply", "replies differ from those to the unsplit stream (" + mc::esc(m, 200) + " instead of " + mc::esc(s.want, 200) + ")"); else l.fail("state", "final state differs: " + mc::esc(end, 400) + " instead of " + mc::esc(s.end, 400)); }
static string SENT = "get other\r\n";
static const Strs REP = {"get K other\r\n", "mget 7 2\r\nK other\r\n", kset("set", "K", "va\r\nue", 1), kset("append", "K", "\r\n"), kset("cas", "K", "n", 1, 0, "@L(K)"), kset("set", "K", "", 3, 0, "noreply"), "incr K 1\r\n", "touch K 100\r\n", "getattr K\r\n", "delete K\r\n", "lop insert K 0 3\r\nz\r\n\r\n", "lop get K 0..-1\r\n", "lop insert K 0 1 create 0 0 5 noreply\r\nz\r\n", "sop insert K 2 create 0 0 5\r\n\r\n\r\n", "sop exist K 1\r\na\r\n", "mop insert K n 1 create 0 0 5\r\nz\r\n", "mop get K 3 2\r\nf n\r\n", bopi("K", "6", "zz", "0x02", "create 0 0 5"), "bop get K 0..100\r\n", "bop mget 7 2 0..100 5\r\nK other\r\n", "bop smget 7 2 0..100 5 unique\r\nK other\r\n", "bop incr K 5 1\r\n", "bogus\r\n", "\r\n", "get\r\n"};
static Strs pipes() { Strs r; r.push_back("lop insert K 0 1 create 0 0 5 pipe\r\na\r\nlop insert K 1 2 pipe\r\nbb\r\nlop insert K 0 3\r\nccc\r\n"); r.push_back("sop insert K 1 create 0 0 5 pipe\r\na\r\nsop exist K 1 pipe\r\na\r\nsop delete K 1\r\nb\r\n"); r.push_back("bop insert K 1 1 create 0 0 5 pipe\r\na\r\nbop upsert K 1 2 pipe\r\nbb\r\nbop delete K 1\r\n"); r.push_back("mop insert K f 1 create 0 0 5 pipe\r\na\r\nmop update K f 2 pipe\r\nbb\r\nmop delete K 1 1\r\nf\r\n"); r.push_back("bop insert K 1 1 pipe\r\na\r\nbop incr K 1 1 pipe\r\nlop insert K 0 1\r\nx\r\n"); return r; }
static bool fits(const char *n, const string &v) { string s = n; if (v == "lop") return s == "list"; if (v == "sop") return s == "set"; if (v == "mop") return s == "map"; if (v == "bop") return s == "tree"; return s == "kv" || s == "num"; }
SUITE("C22", seg_two, "std", BOTH) { // every two-way split of every command, then a sentinel; 1-byte reads; three-way splits in the fitting state
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds(); for (auto &r : REP) cs.push_back(r); l.pre = "unsplit"; uint64_t fds = sim::outstanding_fds();
    ctx.note_bound(S(ts.size()) + " item states x " + S(cs.size()) + " commands followed by a further read: every two-way split, single bytes, and every three-way split where type and command fit; each as separate wake-ups, as short reads, and as short reads with would-block in between");
    for (auto &t : ts) for (auto &c : cs) { string v = c.substr(0, c.find(' ')); bool fit = fits(t.name, v); if (!ctx.thorough && !fit && mc::hash(t.name + c) % 4) continue; 
        if (!ctx.mine()) continue; St22 s; s.init = t.init; s.init.push_back(kset("set", "other", "keep", 7)); base(ctx, l, s, {c, SENT}); size_t n = s.stream.size();
        for (size_t a = 1; a < n; a++) for (int m = 0; m < 3; m++) cmp(ctx, l, s, {a}, m); vector<size_t> all; for (size_t a = 1; a < n; a++) all.push_back(a); for (int m = 0; m < 3; m++) cmp(ctx, l, s, all, m);
        if (fit) for (size_t a = 1; a < n; a++) for (size_t b = a + 1; b < n; b++) cmp(ctx, l, s, {a, b}, (a + b) % 3 == 0 || ctx.thorough ? 2 : (int)((a + b) % 2)); }
    if (sim::outstanding_fds() != fds) l.fail("fds", "connections are left open");
}
SUITE("C22", seg_pairs, "std", BOTH) { // two commands back to back, split anywhere, in one or several reads
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); l.pre = "unsplit"; ctx.note_bound("ordered pairs of " + S(REP.size()) + " commands (with and without data, noreply, refused) in 5 item states: every two-way split; and pipelines of three commands: every two-way" + (ctx.thorough ? " and three-way" : "") + " split");
    for (auto &t : ts) { string tn = t.name; if (tn != "kv" && tn != "list" && tn != "set" && tn != "map" && tn != "tree" && tn != "none") continue; if (tn == "none" && !ctx.thorough) continue;
        for (auto &a : REP) for (auto &b : REP) { if (!ctx.thorough && !fits(t.name, a.substr(0, a.find(' '))) && !fits(t.name, b.substr(0, b.find(' ')))) continue; if (!ctx.mine()) continue; St22 s; s.init = t.init; s.init.push_back(kset("set", "other", "keep", 7)); base(ctx, l, s, {a, b, SENT}); cmp(ctx, l, s, {}, 0); for (size_t q = 1; q < s.stream.size(); q++) cmp(ctx, l, s, {q}, q % 3); } }
    for (auto &t : ts) for (auto &p : pipes()) { if (!ctx.mine()) continue; St22 s; s.init = t.init; s.init.push_back(kset("set", "other", "keep", 7)); s.stream = p + SENT; bool cl; s.want = ""; s.end = ""; string e, r = play(l.c, s, {}, 0, e, cl); s.want = mask(r); s.end = e; if (r.find("RESPONSE") == string::npos && r.find("PIPE_ERROR") == string::npos) { l.begin(); l.fail("pipe", "no RESPONSE block: " + mc::esc(r, 200)); }
        size_t n = s.stream.size(); for (size_t a = 1; a < n; a++) { for (int m = 0; m < 3; m++) cmp(ctx, l, s, {a}, m); if (ctx.thorough) for (size_t b = a + 1; b < n; b++) cmp(ctx, l, s, {a, b}, (a + b) % 3); } }
}
SUITE("C22", seg_bad, "asan", BOTH) { // refused, oversized and badly terminated requests: same stream, every two-way split
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto bad = bad_cmds(); for (auto &x : Strs{"set K 0 0 -1\r\n", "set K 0 0 x\r\n", "set K 0 0 0\r\nab\r\n", "lop insert K 0 1 creat 0 0 0\r\nz\r\n", "mop insert K f -1\r\n", "bop insert K zz 1\r\nq\r\n", "bop insert K 0x1 1\r\nq\r\n", "mget 3 9\r\nK o\r\n", "mget 7 2\r\nK,other\r\n", "mop get K 3 1\r\na,b\r\n", "get " + string(300, 'k') + " K\r\n", "set\r\n", "   get K\r\n", "get K\n", "set K 0 0 2\nab\r\n", "  \r\n", "\n", "set " + string(250, 'p') + "a:b 0 0 1\r\nx\r\n", "set " + string(251, 'p') + ":b 0 0 1\r\nx\r\n"}) bad.push_back(x);
    ctx.note_bound(S(bad.size()) + " refused, oversized or badly terminated requests followed by a valid one, in 5 item states: every two-way split (large ones: around every boundary), same replies, same final state");
    for (auto &t : ts) { string tn = t.name; if (tn != "kv" && tn != "list" && tn != "set" && tn != "map" && tn != "tree") continue; for (auto &b : bad) { if (!ctx.mine()) continue; St22 s; s.init = t.init; s.init.push_back(kset("set", "other", "keep", 7)); s.stream = b + SENT + kset("set", "K2", "x") + "delete K2\r\n"; bool cl; string e, r = play(l.c, s, {}, 0, e, cl); s.want = mask(r); s.end = e;
        size_t n = s.stream.size(); if (r.size() < 30 || (s.want.compare(s.want.size() - 17, 17, "STORED\r\nDELETED\r\n") && !cl)) { l.begin(); l.hist.push_back({mc::esc(s.stream, 300), r}); l.fail("sync", "the commands after it are not answered normally: " + mc::esc(r, 300)); }
        for (size_t a = 1; a < n; a++) { if (n > 400 && a > 60 && a + 60 < n && a % 2048 > 3 && a % 2048 < 2045) continue; if (n > 400 && a > 2100 && a + 2100 < n && (a & (a - 1)) && a % 16384 > 1) continue; cmp(ctx, l, s, {a}, a % 3); } } }
}
SUITE("C22", seg_large, "asan", BOTH) { // lines and values larger than the read buffer
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); l.pre = "unsplit"; vector<pair<Strs, Strs>> v; // init, commands
    for (size_t n : {1000u, 2030u, 2031u, 2032u, 2033u, 2034u, 2035u, 2040u, 2047u, 2048u, 2049u, 4090u, 4096u, 8191u, 8192u, 16384u, 40000u, 70000u, 200000u}) { if (n > 50000 && !ctx.thorough && n != 70000) continue; v.push_back({{}, {"get other\r\n", kset("set", "K", string(n, 'v'), 3), "get K other\r\n"}}); v.push_back({{kset("set", "K", "1")}, {kset("append", "K", string(n, 'v'), 3), kset("prepend", "K", string(n / 2, 'w'), 3), "delete K\r\n"}}); }
    for (size_t n : {100u, 2000u, 2030u, 2040u, 2046u, 2047u, 2048u, 2049u, 4000u, 4095u, 4096u, 8000u, 15900u}) { string k = string(n, 'k'); v.push_back({{kset("set", "K", "1")}, {"get " + k + " K\r\n", kset("set", "K", "zz"), "get K " + k + "\r\n"}}); v.push_back({{}, {kset("set", "K", "zz"), "mget " + S(n + 2) + " 2\r\n" + k + " K\r\n", "get K\r\n"}}); }
    for (size_t n : {500u, 2000u, 4000u, 14000u}) { v.push_back({{"lop create K 0 0 5\r\n"}, {"lop insert K 0 " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "lop get K 0..-1\r\n"}}); v.push_back({{"mop create K 0 0 5\r\n"}, {"mop insert K f " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "mop get K 1 1\r\nf\r\n", "mop delete K 0 0\r\n"}}); v.push_back({{"bop create K 0 0 5\r\n"}, {bopi("K", "5", string(n, 'e'), "0x01"), "bop get K 0..9 delete\r\n"}}); v.push_back({{"sop create K 0 0 5\r\n"}, {"sop insert K " + S(n) + "\r\n" + string(n, 'e') + "\r\n", "sop exist K " + S(n) + "\r\n" + string(n, 'e') + "\r\n"}}); }
    { string ks; for (int i = 0; i < 900; i++) ks += (i ? " " : "") + string(i % 2 ? "K" : "other"); v.push_back({{kset("set", "K", "1")}, {"get " + ks + "\r\n", "mget " + S(ks.size()) + " 900\r\n" + ks + "\r\n"}}); }
    ctx.note_bound(S(v.size()) + " streams with lines, key blocks and values from 100 bytes to 200 KB: every two-way split within 40 bytes of the ends of each request, each data block and of every power-of-two buffer size; pairs of such cuts near block ends; the small blocks byte by byte");
    for (auto &x : v) { if (!ctx.mine()) continue; St22 s; s.init = x.first; s.init.push_back(kset("set", "other", "keep", 7)); base(ctx, l, s, x.second); size_t n = s.stream.size(); 
        vector<size_t> pts, close; auto near = [&](size_t b, size_t w, vector<size_t> &o) { for (size_t q = b > w ? b - w : 1; q <= b + w && q < n; q++) if (q) o.push_back(q); };
        for (size_t p = 0; (p = s.stream.find("\r\n", p)) != string::npos; p++) { near(p + 1, n > 20000 ? 4 : 20, pts); near(p + 1, 1, close); } for (size_t b = 1024; b < n + 40; b *= 2) { near(b, n > 20000 ? 4 : 40, pts); near(b, 1, close); } near(1, 20, pts); near(n - 1, 20, pts); 
        for (auto *o : {&pts, &close}) { std::sort(o->begin(), o->end()); o->erase(std::unique(o->begin(), o->end()), o->end()); } if (!ctx.thorough && n > 30000) { vector<size_t> t; for (size_t i = 0; i < pts.size(); i += 3) t.push_back(pts[i]); pts = t; }
        cmp(ctx, l, s, {}, 0); for (size_t a : pts) for (int m = 0; m < 3; m++) { if (!ctx.thorough && (int)(a % 3) != m && n > 3000) continue; cmp(ctx, l, s, {a}, m); }
        if (n < 9000 || ctx.thorough) for (size_t i = 0; i < close.size(); i++) for (size_t j = i + 1; j < close.size(); j++) { if (close.size() > 60 && (i % 3 || j % 3)) continue; cmp(ctx, l, s, {close[i], close[j]}, (i + j) % 3); }
        if (n < 5000) { vector<size_t> all; for (size_t a = 1; a < n; a++) all.push_back(a); for (int m = 0; m < 3; m++) cmp(ctx, l, s, all, m); } else for (size_t step : {1000u, 2048u, 4096u, 7u}) { if (step == 7 && n > 20000) continue; vector<size_t> all; for (size_t a = step; a < n; a += step) all.push_back(a); for (int m = 0; m < 3; m++) cmp(ctx, l, s, all, m); } }
}
// ------------------------------------------------------------------ C23
struct St23 { Strs init; string stream; string want; };
static bool live(Lock &l, const char *when) { string r = sim::rpc(l.c, "get other\r\n"); if (r != "VALUE other 7 4\r\nkeep\r\nEND\r\n") { l.fail("others", string("another connection is answered ") + mc::esc(r, 100) + " " + when); return false; } return true; }
// the peer takes the reply as scripted; every would-block lasts until the other connection has been served and a timer tick has passed
static void take23(mc::Ctx &ctx, Lock &l, const St23 &s, const vector<int> &sc, const string &more, const string &morewant) {
    sim::reseed(); int c = sim::connect(); sim::run(); for (auto &i : s.init) sim::rpc(l.c, i); sim::send_script(c, sc); sim::send(c, filled(l.c, s.stream)); sim::run(); string rep = sim::take(c); int nb = 0; bool first = true;
    for (int k = 0; k < 100 && sim::blocked(c); k++) { nb++; if (first && !more.empty()) { sim::send(c, more); first = false; sim::run(); } live(l, "while a reply is blocked"); sim::unblock(c); sim::run(); rep += sim::take(c); }
    string want = s.want; if (!more.empty()) { if (first) { sim::send(c, more); sim::run(); rep += sim::take(c); for (int k = 0; k < 100 && sim::blocked(c); k++) { sim::unblock(c); sim::run(); rep += sim::take(c); } } want += morewant; }
    if ((rep != want && mask(rep) != mask(want)) || sim::closed(c)) { l.begin(); size_t d = 0; while (d < rep.size() && d < want.size() && rep[d] == want[d]) d++; string t; for (int x : sc) t += " " + S(x); l.hist.push_back({mc::esc(s.stream, 300) + "   [sends accept" + t + "]", mc::esc(rep, 3000)}); l.fail("reply", mc::fmt("reply of %zu bytes differs from the unhindered %zu bytes from position %zu on (%s instead of %s)%s", rep.size(), want.size(), d, mc::esc(rep.substr(d, 60)).c_str(), mc::esc(want.substr(std::min(d, want.size()), 60)).c_str(), sim::closed(c) ? ", connection closed" : "")); }
    sim::shut(c); sim::run(); sim::forget(c); clean(l.c); ctx.trace(); ctx.trans(nb + 1); ctx.distinct(mc::hash(s.stream, sc.empty() ? 0 : sc[0] * 31 + sc.size()));
}
// the peer goes away (how: 0 error on send, 1 reset while blocked, 2 half close while blocked, 3 reset with data unread, 4 closed while the request is incomplete)
static void gone23(mc::Ctx &ctx, Lock &l, const St23 &s, size_t at, int how, uint64_t fds, uint64_t base) {
    int c = sim::connect(); sim::run(); for (auto &i : s.init) sim::rpc(l.c, i); vector<int> sc; if (at) sc.push_back(at); sc.push_back(how == 0 ? -2 : -1);
    if (how == 4) { sim::send(c, s.stream.substr(0, at)); sim::run(); sim::shut(c); sim::run(); }
    else { sim::send_script(c, sc); sim::send(c, filled(l.c, s.stream)); sim::run(); live(l, "while a reply is blocked"); if (how == 3) { sim::send(c, "get K\r\nset K 0 0 5\r\nab"); sim::run(); } if (how == 1 || how == 3) sim::reset(c); if (how == 2) sim::shut(c); sim::run(); if (how == 1 || how == 2 || how == 3) sim::unblock(c); sim::run(); }
    bool bad = !sim::closed(c); sim::take(c); l.begin(); l.hist.push_back({mc::esc(s.stream, 300) + mc::fmt("   [%zu bytes accepted, then the peer goes away, way %d]", at, how), ""});
    if (bad) l.fail("open", "the connection is not closed"); live(l, "after a peer went away"); clean(l.c); sim::settle();
    if (sim::outstanding_fds() != fds) l.fail("fds", "the connection's descriptor is not released"); if (sim::slab().live_bytes != base) l.fail("leak", mc::fmt("item memory held after the connection is gone: %llu, before %llu", (unsigned long long)sim::slab().live_bytes, (unsigned long long)base));
    sim::forget(c); sim::rpc(l.c, kset("set", "other", "keep", 7)); ctx.trace(); ctx.trans(2); ctx.distinct(mc::hash(s.stream, at * 16 + how + 7777));
}
static St23 base23(Lock &l, const Strs &init, const Strs &cmds) { sim::reseed(); St23 s; s.init = init; s.init.push_back(kset("set", "other", "keep", 7)); l.begin(); l.m = model::Model(); l.m.now = sim::now_s(); for (auto &i : s.init) l.step(i); bool lk = false; for (auto &c : cmds) if (c.find("@L(K)") != string::npos) lk = true; if (lk) l.step("gets K\r\n"); for (auto &c : cmds) { l.step(c); s.stream += holder(c, l.last_req); s.want += l.last_rep; } clean(l.c); return s; }
SUITE("C23", short_writes, "std", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds(); l.pre = "unhindered"; 
    ctx.note_bound(S(ts.size()) + " item states x " + S(cs.size()) + " commands and pipelined command groups: the peer accepts every number of bytes of the reply then blocks (then takes the rest; or 1 byte at a time; or blocks at every second point), with further requests arriving while blocked");
    for (auto &t : ts) for (auto &c : cs) { bool fit = fits(t.name, c.substr(0, c.find(' '))); if (!fit && !ctx.thorough && mc::hash(t.name + c) % 6) continue; if (!ctx.mine()) continue; St23 s = base23(l, t.init, {c}); size_t n = s.want.size(); if (!n) continue; string more = "get other\r\nbogus\r\n", mw = "VALUE other 7 4\r\nkeep\r\nEND\r\nERROR unknown command\r\n";
        for (size_t a = 1; a < n; a++) { take23(ctx, l, s, {(int)a}, "", ""); take23(ctx, l, s, {(int)a, -1}, a % 2 ? more : "", mw); if (fit) for (size_t b = 1; a + b < n && (b < 9 || ctx.thorough); b++) take23(ctx, l, s, {(int)a, -1, (int)b, -1}, b % 2 ? more : "", mw); }
        take23(ctx, l, s, {-1}, more, mw); take23(ctx, l, s, vector<int>(n, 1), more, mw); vector<int> alt; for (size_t i = 0; i < n; i++) { alt.push_back(1); alt.push_back(-1); } if (n < 45) take23(ctx, l, s, alt, more, mw); }
    vector<pair<Strs, Strs>> v; for (auto &p : pipes()) v.push_back({{}, {p}}); 
    for (auto &t : ts) for (auto &a : REP) for (auto &b : REP) { if (!ctx.thorough && !(fits(t.name, a.substr(0, a.find(' '))) && fits(t.name, b.substr(0, b.find(' '))))) continue; if (!ctx.mine()) continue; St23 s = base23(l, t.init, {a, b, "get other\r\n"}); for (size_t q = 1; q < s.want.size(); q++) { take23(ctx, l, s, {(int)q, -1}, "", ""); take23(ctx, l, s, {-1, (int)q}, "", ""); } }
    for (auto &p : pipes()) { if (!ctx.mine()) continue; St23 s; s.init.push_back(kset("set", "other", "keep", 7)); s.stream = p; int c = sim::connect(); sim::run(); s.want = sim::rpc(c, p); clean(l.c); sim::shut(c); sim::run(); for (size_t q = 1; q < s.want.size(); q++) { take23(ctx, l, s, {(int)q}, "", ""); take23(ctx, l, s, {(int)q, -1}, "get other\r\n", "VALUE other 7 4\r\nkeep\r\nEND\r\n"); } }
}
SUITE("C23", peer_gone, "asan", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds(); l.pre = "unhindered"; sim::rpc(l.c, kset("set", "other", "keep", 7)); clean(l.c); sim::settle(); uint64_t fds = sim::outstanding_fds(), base = sim::slab().live_bytes; sim::rpc(l.c, kset("set", "other", "keep", 7));
    ctx.note_bound(S(ts.size()) + " item states x " + S(cs.size()) + " commands: send error, reset, half close, reset with unread pipelined requests after every accepted number of reply bytes; connection closed after every number of request bytes; connection, item memory and descriptor released, the other connection served throughout");
    for (auto &t : ts) for (auto &c : cs) { bool fit = fits(t.name, c.substr(0, c.find(' '))); if (!fit && !ctx.thorough && mc::hash(t.name + c) % 6) continue; if (!ctx.mine()) continue; St23 s = base23(l, t.init, {c}); sim::rpc(l.c, kset("set", "other", "keep", 7));
        for (size_t a = 0; a < s.want.size(); a++) for (int how = 0; how < 4; how++) { if (!fit && (a + how) % 3) continue; gone23(ctx, l, s, a, how, fds, base); } for (size_t a = 0; a < s.stream.size(); a++) gone23(ctx, l, s, a, 4, fds, base); }
}
SUITE("C23", large_replies, "asan", BOTH) { // many items: several messages, vectors beyond the system limit, buffers reused
    mc::boot_std({"-g", "10", "-m", "300"}); Lock l(ctx); l.connect(); vector<pair<Strs, Strs>> v; l.pre = "unhindered";
    auto many = [&](int n) { string s; for (int i = 0; i < n; i++) s += (i ? " " : "") + string(i % 3 ? "K" : "other"); return s; };
    for (int n : {1, 2, 3, 100, 339, 340, 341, 342, 343, 400, 511, 512, 513, 682, 683, 1023, 1024, 1025, 2100, 9999, 10000}) { if (n > 3000 && !ctx.thorough && n != 10000) continue; string k = many(n); v.push_back({{kset("set", "K", "vv", 1)}, {"mget " + S(k.size()) + " " + S(n) + "\r\n" + k + "\r\n"}}); if (n < 2000) { v.push_back({{kset("set", "K", "vv", 1)}, {"get " + k + "\r\n"}}); v.push_back({{kset("set", "K", "vv", 1)}, {"gets " + k + "\r\n"}}); } }
    for (int n : {10, 300, 339, 341, 342, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2050, 4000}) { if (!ctx.thorough && n != 10 && n != 341 && n != 342 && n != 512 && n != 1025 && n != 2050) continue; Strs a{"lop create K 0 0 5000\r\n"}, b{"bop create K 0 0 5000\r\n"}, d{"sop create K 0 0 5000\r\n"}, e{"mop create K 0 0 5000\r\n"}; for (int i = 0; i < n; i++) { string x = S(i); a.push_back("lop insert K -1 " + S(x.size()) + "\r\n" + x + "\r\n"); b.push_back(bopi("K", x, "v" + x, i % 4 ? "" : "0x01")); d.push_back("sop insert K " + S(x.size()) + "\r\n" + x + "\r\n"); e.push_back("mop insert K " + x + " 1\r\nx\r\n"); }
        v.push_back({a, {"lop get K 0..-1\r\n"}}); v.push_back({a, {"lop get K -1..0 delete\r\n"}}); v.push_back({b, {"bop get K 0..99999\r\n"}}); v.push_back({b, {"bop get K 99999..0 drop\r\n"}}); v.push_back({e, {"mop get K 0 0\r\n"}}); if (n <= 1000) v.push_back({b, {"bop gbp K asc 0..-1\r\n"}}), v.back().second = {"bop gbp K asc 0..4999\r\n"}; v.push_back({d, {"sop get K 0\r\n"}}); }
    for (int n : {50, 200}) { string k = "K"; for (int i = 1; i < n; i++) k += ",none" + S(i); string k2 = "K"; for (int i = 1; i < n; i++) k2 += " none" + S(i); Strs b{"bop create K 0 0 5000\r\n"}; for (int i = 0; i < 50; i++) b.push_back(bopi("K", S(i), "v", i % 4 ? "" : "0x01")); v.push_back({b, {"bop mget " + S(k2.size()) + " " + S(n) + " 0..99 50\r\n" + k2 + "\r\n"}}); v.push_back({b, {"bop smget " + S(k2.size()) + " " + S(n) + " 0..99 50 duplicate\r\n" + k2 + "\r\n"}}); }
    for (size_t n : {1400u, 65536u, 300000u, 1000000u}) v.push_back({{kset("set", "K", string(n, 'v'), 1)}, {"get K other K other\r\n"}});
    ctx.note_bound(S(v.size()) + " replies of 1..10000 items or elements and up to 2 MB (around the multiples of the message vector limit): blocked, and broken off, at every point within 2 bytes of message boundaries, at powers of two and at the ends; accepted in fixed chunks of several sizes with would-block in between");
    sim::rpc(l.c, kset("set", "other", "keep", 7)); clean(l.c); sim::settle(); uint64_t fds = sim::outstanding_fds(), base = sim::slab().live_bytes;
    for (auto &x : v) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; St23 s = base23(l, x.first, x.second); size_t n = s.want.size(); vector<size_t> ln; for (size_t p = 0; (p = s.want.find("\r\n", p)) != string::npos; p++) ln.push_back(p + 2); if (ctx.case_index() % 11 == 0) ctx.sample(mc::esc(s.stream, 50) + ": reply of " + S(n) + " bytes");
        std::set<size_t> pts{1, 2, n - 1, n - 2, n / 2}; for (size_t b = 64; b < n; b *= 2) { if (ctx.thorough) pts.insert(b - 1); pts.insert(b); } for (size_t i = 0; i < ln.size(); i++) { size_t k = i + 1; bool edge = i < 1 || i + 2 > ln.size(); for (size_t m : {340, 341, 512, 682, 683, 1023, 1024}) if (k % m <= 1 && k >= m && (ctx.thorough || k / m <= 2 || k + 2 * m > ln.size())) edge = true; if (edge) for (int d = -1; d <= 1; d++) if (ln[i] + d > 0 && ln[i] + d < n) pts.insert(ln[i] + d); }
        bool slow = x.first.size() > 600; int st = 0; auto again = [&](const vector<int> &sc) { if (slow && !ctx.thorough && st++ % 24) return; take23(ctx, l, s, sc, "get other\r\n", "VALUE other 7 4\r\nkeep\r\nEND\r\n"); };
        for (size_t p : pts) if (p && p < n) { again({(int)p, -1}); if (!slow || ctx.thorough || p % 29 == 0) { sim::rpc(l.c, kset("set", "other", "keep", 7)); gone23(ctx, l, s, p, p % 4, fds, base); } }
        for (size_t ch : {1000u, 1460u, 8192u, 65537u}) { if (n / ch > 1500 || n <= ch) continue; vector<int> sc; for (size_t q = 0; q < n; q += ch) { sc.push_back(ch); if ((q / ch) % 2 && sc.size() < 150) sc.push_back(-1); } again(sc); } }
}
