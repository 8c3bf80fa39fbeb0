// C27: key and prefix scans under concurrent changes and hash table growth
#include "alpha.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using std::string; using std::vector;
extern "C" uint32_t mc_hash(const void *key, size_t length, const uint32_t initval);
static bool glob(const string &p, size_t i, const string &t, size_t j) {
    if (i == p.size()) return j == t.size();
    if (p[i] == '*') { for (size_t k = j; k <= t.size(); k++) if (glob(p, i + 1, t, k)) return true; return false; }
    if (j == t.size()) return false;
    if (p[i] == '\\' && i + 1 < p.size()) return p[i + 1] == t[j] && glob(p, i + 2, t, j + 1);
    return (p[i] == '?' || p[i] == t[j]) && glob(p, i + 1, t, j + 1);
}
struct Ent { string name, a, b, c; };
static bool parse_scan(const string &rep, const char *head, int cols, vector<Ent> &out, string &cursor, string &err) {
    size_t p = rep.find("\r\n"); if (p == string::npos) { err = "no complete line"; return false; } auto h = model::split(rep.substr(0, p)); if (h.size() != 3 || h[0] != head) { err = "unexpected header"; return false; } long n = atol(h[1].c_str()); cursor = h[2]; if (cursor.empty() || cursor.find_first_not_of("0123456789") != string::npos || (cursor.size() > 1 && cursor[0] == '0')) { err = "bad cursor"; return false; } p += 2;
    for (long i = 0; i < n; i++) { size_t q = rep.find("\r\n", p); if (q == string::npos) { err = "fewer lines than announced"; return false; } auto t = model::split(rep.substr(p, q - p)); if ((int)t.size() != cols) { err = "bad line " + rep.substr(p, q - p); return false; } out.push_back({t[0], t[1], t[2], cols > 3 ? t[3] : ""}); p = q + 2; }
    if (rep.substr(p) != "END\r\n") { err = "lines do not end with END as announced"; return false; } return true;
}
static char tchar(model::Type t) { return "KLSMB"[(int)t]; }
static string left(const model::Model &m, const model::Item &it) { return it.exp == 0 ? "0" : it.exp < 0 ? "-1" : S(it.exp - m.now); }
static Strs mk(int type, const string &k, long exp = 0) { string e = S(exp); switch (type) { case 0: return {kset("set", k, "v", 0, exp)}; case 1: return {"lop create " + k + " 0 " + e + " 5\r\n"}; case 2: return {"sop create " + k + " 0 " + e + " 5\r\n"}; case 3: return {"mop create " + k + " 0 " + e + " 5\r\n"}; default: return {"bop create " + k + " 0 " + e + " 5\r\n"}; } }
// one scan step; checks everything that can be said about the reply alone
static bool scan_key(Lock &l, string &cursor, int count, const string &opt, std::map<string, int> &seen, const string &pat = "", char type = 'A') {
    string req = "scan key " + cursor + (count ? " count " + S(count) : "") + opt + "\r\n", rep = sim::rpc(l.c, req); l.hist.push_back({req, mc::esc(rep, 400)}); l.ctx->evals(); vector<Ent> v; string e;
    if (!parse_scan(rep, "KEYS", 3, v, cursor, e)) { l.fail("reply", "scan key: " + e); return false; }
    for (auto &x : v) { auto *it = l.m.find(x.name); if (!it) l.fail("ghost", "scan reports the key " + x.name + " which does not exist"); else { if (string(1, tchar(it->type)) != x.a) l.fail("type", "scan reports a wrong type for " + x.name); if (left(l.m, *it) != x.b) l.fail("exptime", "scan reports expiretime " + x.b + " for " + x.name + ", it is " + left(l.m, *it)); if (!pat.empty() && !glob(pat, 0, x.name, 0)) l.fail("match", x.name + " does not match the pattern"); if (type != 'A' && tchar(it->type) != type) l.fail("match", x.name + " is not of the type asked for"); }
        seen[x.name]++; }
    return true;
}
static Strs names(int n) { Strs r; for (int i = 0; i < n; i++) r.push_back(i % 3 == 2 ? "p:k" + S(i) : "k" + S(i)); return r; }
// n keys stored first (the table grows on the way), then a scan with `acts` between its steps
static void scan_case(mc::Ctx &ctx, Lock &l, int n, int count, const vector<std::pair<int, int>> &acts, int steps_max) {
    l.begin(); l.connect(); l.m = model::Model(); l.m.now = sim::now_s(); Strs N = names(64); int nk = 0; for (; nk < n; nk++) for (auto &c : mk(nk % 5, N[nk], nk % 4 == 3 ? 50 : 0)) l.step(c);
    std::set<string> stable; for (auto &k : l.m.kv) stable.insert(k.first); std::map<string, int> seen; string cur = "0"; int calls = 0; size_t ai = 0; bool changed = false;
    do { if (calls) while (ai < acts.size() && acts[ai].first == calls) { int a = acts[ai].second; ai++; changed = true;
            if (a < 4) { for (int i = 0; i < (1 << a); i++, nk++) for (auto &c : mk(0, N[nk])) l.step(c); } // 1,2,4,8 new keys
            else if (a == 4) { l.step("+60"); for (int i = 0; i < n; i++) if (i % 4 == 3) stable.erase(N[i]); }
            else { int i = (a - 5) / 2; if (i >= n) i = n - 1; if (a & 1) { l.step("delete " + N[i] + "\r\n"); stable.erase(N[i]); } else { l.step(kset("set", N[i], "new")); } }
            for (auto it = stable.begin(); it != stable.end();) if (!l.m.find(*it)) it = stable.erase(it); else ++it; }
        if (!scan_key(l, cur, count, "", seen)) return; if (++calls > steps_max) { l.fail("endless", "the scan does not end"); return; } } while (cur != "0");
    for (auto &k : stable) { if (!seen.count(k)) { l.fail("missed", "the key " + k + " existed during the whole scan but was not reported"); return; } if (!changed && seen[k] != 1) { l.fail("twice", "the key " + k + " was reported " + S(seen[k]) + " times although nothing changed"); return; } }
    for (int i = 0; i < nk; i++) l.step("getattr " + N[i] + " type\r\n"); ctx.trace(); ctx.trans(calls + acts.size());
    ctx.distinct(mc::hash(mc::fmt("%d %d %s", n, count, [&] { string s; for (auto &a : acts) s += S(a.first) + "," + S(a.second) + ";"; return s; }().c_str())));
}
SUITE("C27", scan_grow, "small", BOTH) {
    mc::boot_std({}); int maxn = ctx.thorough ? 27 : 14; int na = 5 + 2 * (ctx.thorough ? 6 : 3), pos = ctx.thorough ? 12 : 7; Strs cs;
    ctx.note_bound(mc::fmt("hash index started with 2 chains (grows at 4, 7, 13, 25 keys); 0..%d keys of all types stored, then a scan with count 1..5, 20: alone, with one change, and with two changes (thorough: three for small sets), each change (store 1,2,4,8 new keys / delete key i / replace key i / expiry) after every scan step up to %d", maxn, pos));
    auto one = [&](int n, int c, vector<std::pair<int, int>> a) { if (!ctx.mine()) return; ctx.isolated([&] { Lock l(ctx); scan_case(ctx, l, n, c, a, 300); }); };
    vector<int> counts = {1, 2, 3, 5, 20};
    for (int n = 0; n <= maxn; n++) for (int c : counts) one(n, c, {});
    for (int n = 0; n <= maxn; n++) for (int c : counts) for (int p = 1; p <= pos; p++) for (int a = 0; a < na; a++) { if (ctx.out_of_time_fast()) return; one(n, c, {{p, a}}); }
    vector<int> n2 = ctx.thorough ? vector<int>{3, 4, 5, 6, 8, 9, 12, 13, 14, 24, 25} : vector<int>{3, 4, 6, 9, 12}; int pos2 = ctx.thorough ? 8 : 5;
    for (int n : n2) for (int c : {1, 2}) for (int p = 1; p <= pos2; p++) for (int q = p; q <= pos2 + 3; q++) for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) { if (ctx.out_of_time_fast()) return; one(n, c, {{p, a}, {q, b}}); }
    if (ctx.thorough) for (int n : {3, 6, 9}) for (int p = 1; p <= 4; p++) for (int q = p; q <= 6; q++) for (int r = q; r <= 8; r++) for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int d = 0; d < 8; d++) { if (ctx.out_of_time_fast()) return; one(n, 1, {{p, a}, {q, b}, {r, d}}); }
}
// filters on a static set
SUITE("C27", scan_filter, "small", BOTH) {
    mc::boot_std({}); Lock l(ctx); Strs keys = {"a", "b", "aa", "ab", "ba", "abc", "a:b", "a*b", "a?b", "a\\b", "\\", "*", "?", "\\*", "\\a", "aab", "abab", "xaby", string(64, 'a'), string(300, 'a'), "p:a", "p:"};
    string al = "ab*?\\"; Strs pats; int maxl = ctx.thorough ? 5 : 4; vector<string> cur = {""}; for (int n = 1; n <= maxl; n++) { vector<string> nx; for (auto &p : cur) for (char c : al) nx.push_back(p + c); for (auto &p : nx) pats.push_back(p); cur = nx; }
    for (auto &p : Strs{"*a*b*c*", "****", "*****", "a*****", "\\*\\*\\*\\*\\*", string(64, 'a'), string(65, 'a'), string(63, 'a') + "*", string(64, '?'), "*" + string(63, 'a'), "p:*", "*:*", "?:?", "*\\", "\\\\", "\\\\\\", "\\\\\\*", "\\x", "*aab", "*a*ab", "<null>", "a\\?b", "a\\\\b"}) pats.push_back(p);
    ctx.note_bound(mc::fmt("%d keys of all types (glob characters inside); every pattern of up to %d characters over {a b * ? \\} and special ones (%d), times every type and counts 1, 3, 20, 2000, options in every order", (int)keys.size(), maxl, (int)pats.size()));
    l.connect(); l.begin(); l.m.now = sim::now_s(); int i = 0; for (auto &k : keys) { for (auto &c : mk(i % 5, k, i % 3 == 1 ? 500 : 0)) l.step(c); i++; }
    auto valid = [](const string &p) { int st = 0; if (p.size() > 64) return false; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '\\') { if (i + 1 >= p.size() || !strchr("*?\\", p[i + 1])) return false; i++; } else if (p[i] == '*' && ++st > 4) return false; } return true; };
    int combo = 0; for (auto &p : pats) for (char t : string("AKLSMB")) { combo++; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; l.begin(); int count = vector<int>{1, 3, 0, 2000}[combo % 4]; string opt = combo % 3 == 0 ? string(" match ") + p + " type " + t : string(" type ") + t + " match " + p;
        if (!valid(p)) { string rep = sim::rpc(l.c, "scan key 0" + opt + "\r\n"); l.hist.push_back({"scan key 0" + opt, rep}); if (rep != "CLIENT_ERROR bad pattern string\r\n") l.fail("badpattern", "an invalid pattern is answered " + rep); rep = sim::rpc(l.c, "scan prefix 0 match " + p + "\r\n"); if (rep != "CLIENT_ERROR bad pattern string\r\n") l.fail("badpattern", "scan prefix: an invalid pattern is answered " + rep); ctx.trace(); continue; }
        std::map<string, int> seen; string c = "0"; int calls = 0; do { if (!scan_key(l, c, count, opt, seen, p, t)) break; if (++calls > 300) l.fail("endless", "scan does not end"); } while (c != "0");
        for (auto &k : keys) { auto *it = l.m.find(k); bool want = (t == 'A' || tchar(it->type) == t) && glob(p, 0, k, 0); if (seen[k] != (want ? 1 : 0)) { l.fail("filter", "pattern " + p + " type " + t + ": the key " + k + " is reported " + S(seen[k]) + " times"); } }
        if (t == 'A') { string rep = sim::rpc(l.c, "scan prefix 0 count 100 match " + p + "\r\n"); l.hist.push_back({"scan prefix match " + p, rep}); vector<Ent> v; string cu, e; if (!parse_scan(rep, "PREFIXES", 4, v, cu, e)) l.fail("reply", "scan prefix: " + e); std::set<string> got; for (auto &x : v) got.insert(x.name); for (auto &pf : Strs{"a", "p"}) if (got.count(pf) != (size_t)glob(p, 0, pf, 0)) l.fail("filter", "pattern " + p + ": prefix " + pf + (got.count(pf) ? " is" : " is not") + " reported"); got.erase("a"); got.erase("p"); got.erase("<null>"); if (!got.empty()) l.fail("ghost", "unknown prefix " + *got.begin()); }
        ctx.trace(); ctx.distinct(mc::hash(p + t + S(count))); }
}
// command line forms
SUITE("C27", scan_args, "small", BOTH) {
    mc::boot_std({}); Lock l(ctx); l.connect(); l.m.now = sim::now_s(); for (int i = 0; i < 3; i++) for (auto &c : mk(i, "q" + S(i))) l.step(c); ctx.note_bound("every combination of up to 3 options out of 20 (counts at the limits, broken patterns and types, unknown, repeated and incomplete ones) with every of 14 cursors, for key and prefix scans");
    Strs opts = {"count 1", "count 2000", "count 2001", "count 0", "count -1", "count 4294967297", "count x", "count", "match *", "match", "match \\", "type A", "type K", "type k", "type AB", "type", "foo 1", "count 20", "match a?", "END"}, cursors = {"0", "1", "00", "99999", "4294967295", "4294967296", "-1", "-0", "x", "0x1", "1x", "1234567890123456789012345678901", "12345678901234567890123456789012", "3"};
    auto expect = [&](bool key, const string &cur, const Strs &o, bool &maybe) -> string { maybe = false; if (cur.size() > 31) return "CLIENT_ERROR bad cursor value\r\n"; string all; for (auto &x : o) all += (all.empty() ? "" : " ") + x; auto t = all.empty() ? Strs{} : model::split(all); size_t i = 0;
        for (; i + 1 < t.size(); i += 2) { uint32_t u; if (t[i] == "count") { if (!model::parse_u32(t[i + 1], u) || u == 0 || u > 2000) return "CLIENT_ERROR bad count value\r\n"; } else if (t[i] == "match") { if (t[i + 1] == "\\") return "CLIENT_ERROR bad pattern string\r\n"; if (strchr(t[i + 1].c_str(), '\\')) maybe = true; } else if (key && t[i] == "type") { if (t[i + 1].size() != 1 || !strchr("AKLSMB", t[i + 1][0])) return "CLIENT_ERROR bad item type\r\n"; } else break; }
        if (i < t.size()) return "CLIENT_ERROR bad command line format\r\n"; uint32_t u; if (!model::parse_u32(cur, u)) return "CLIENT_ERROR invalid cursor\r\n"; return "ok"; };
    auto one = [&](const string &cur, const Strs &o) { for (bool key : {true, false}) { if (!ctx.mine()) continue; l.begin(); string req = string("scan ") + (key ? "key " : "prefix ") + cur; for (auto &x : o) req += " " + x; req += "\r\n"; bool maybe; string want = expect(key, cur, o, maybe), rep = sim::rpc(l.c, req); l.hist.push_back({req, rep}); ctx.evals(); ctx.trace(); ctx.distinct(mc::hash(req));
            if (want == "ok") { vector<Ent> v; string c, e; bool inval = rep.compare(0, 27, "CLIENT_ERROR invalid cursor") == 0 && atoll(cur.c_str()) > 1; /* a number that is no position */ if (!inval && !parse_scan(rep, key ? "KEYS" : "PREFIXES", key ? 3 : 4, v, c, e)) l.fail("args", req + ": " + e); }
            else if (want == "CLIENT_ERROR invalid cursor\r\n") { if (rep.compare(0, 27, "CLIENT_ERROR invalid cursor")) l.fail("args", req + ": expected " + want); } else if (rep != want && !(want.find("bad c") != string::npos && rep.find("CLIENT_ERROR bad") == 0)) l.fail("args", req + ": expected " + want); if (sim::closed(l.c)) { l.fail("args", "connection closed"); l.connect(); } } };
    for (auto &c : cursors) { one(c, {}); for (auto &a : opts) { one(c, {a}); for (auto &b : opts) { one(c, {a, b}); if (c == "0" || c == "x") for (auto &d : opts) one(c, {a, b, d}); } } }
}
// prefixes: creation and removal between the steps and while a reply is on its way
static bool scan_prefix(Lock &l, string &cursor, int count, std::map<string, int> &seen, const std::map<string, int> &cnt) {
    string req = "scan prefix " + cursor + " count " + S(count) + "\r\n", rep = sim::rpc(l.c, req); l.hist.push_back({req, mc::esc(rep, 400)}); l.ctx->evals(); vector<Ent> v; string e;
    if (!parse_scan(rep, "PREFIXES", 4, v, cursor, e)) { l.fail("reply", "scan prefix: " + e); return false; }
    for (auto &x : v) { auto i = cnt.find(x.name); if (i == cnt.end() || !i->second) l.fail("ghost", "scan reports the prefix " + x.name + " which has no items"); else if (atol(x.a.c_str()) != i->second) l.fail("count", "prefix " + x.name + " is reported with " + x.a + " items, it has " + S(i->second)); if (x.c.size() != 14) l.fail("reply", "bad creation time " + x.c); seen[x.name]++; }
    return true;
}
SUITE("C27", scan_prefix, "asmall", BOTH) {
    mc::boot_std({}); int maxn = ctx.thorough ? 9 : 6, pos = ctx.thorough ? 5 : 3; ctx.note_bound(mc::fmt("prefix index of 2 chains; 0..%d prefixes (and keys without one), scans with count 1,2,3,20; up to %d changes (new prefix, last item of prefix i removed, item added to prefix i) after every step up to %d; also while the reply waits for the client, with the removed prefix created again", maxn, ctx.thorough ? 3 : 2, pos));
    auto run = [&](int n, int count, bool nul, vector<std::pair<int, int>> acts, bool blockd) { if (!ctx.mine()) return; ctx.isolated([&] { Lock l(ctx); l.begin(); l.connect(); int w = sim::connect(); sim::run(); l.m.now = sim::now_s(); std::map<string, int> cnt; int nk = 0, serial = 0; auto put = [&](const string &p) { string k = p == "<null>" ? "n" + S(serial++) : p + ":x" + S(serial++); string r = sim::rpc(w, kset("set", k, "v")); if (r != "STORED\r\n") l.fail("setup", r); cnt[p]++; }; std::map<string, Strs> kept;
            auto wipe = [&](const string &p) { for (int i = 0; i < serial; i++) sim::rpc(w, "delete " + (p == "<null>" ? "n" + S(i) : p + ":x" + S(i)) + "\r\n"); cnt[p] = 0; };
            for (; nk < n; nk++) { put("p" + S(nk)); if (nk % 2) put("p" + S(nk)); } if (nul) put("<null>");
            std::set<string> stable; for (auto &x : cnt) stable.insert(x.first); std::map<string, int> seen; string cur = "0"; int calls = 0; size_t ai = 0; bool changed = false;
            auto act = [&](int a) { changed = true; l.hist.push_back({"change", S(a)}); if (a == 0) put("p" + S(nk++)); else if (a % 2) { string p = "p" + S((a - 1) / 2); wipe(p); stable.erase(p); if (blockd) put(p); } else put("p" + S((a - 2) / 2)); };
            do { while (ai < acts.size() && acts[ai].first == calls && calls && !blockd) act(acts[ai++].second);
                if (blockd && ai < acts.size() && acts[ai].first == calls + 1) { sim::send_script(l.c, {-1}); string req = "scan prefix " + cur + " count " + S(count) + "\r\n"; auto before = cnt; sim::send(l.c, req); sim::run(); act(acts[ai++].second); sim::unblock(l.c); sim::run(); string rep = sim::take(l.c); l.hist.push_back({req, rep}); vector<Ent> v; string e; if (!parse_scan(rep, "PREFIXES", 4, v, cur, e)) { l.fail("reply", e); return; } for (auto &x : v) { if (!before[x.name]) l.fail("ghost", "scan reports the prefix " + x.name + " which had no items"); else if (atol(x.a.c_str()) != before[x.name]) l.fail("count", "prefix " + x.name + " is reported with " + x.a + " items, it had " + S(before[x.name])); seen[x.name]++; } }
                else if (!scan_prefix(l, cur, count, seen, cnt)) return; if (++calls > 100) { l.fail("endless", "the scan does not end"); return; } } while (cur != "0");
            for (auto &p : stable) { if (!seen.count(p)) l.fail("missed", "the prefix " + p + " existed during the whole scan but was not reported"); if (!changed && seen[p] != 1) l.fail("twice", "prefix " + p + " reported more than once"); } seen.clear(); cur = "0"; do { if (!scan_prefix(l, cur, 2, seen, cnt)) return; } while (cur != "0" && ++calls < 100); for (auto &p : cnt) if (p.second && seen[p.first] != 1) l.fail("missed", "later scan: prefix " + p.first + " reported " + S(seen[p.first]) + " times"); 
            ctx.trace(); ctx.trans(calls); string s = S(n) + S(count) + S(nul) + S(blockd); for (auto &a : acts) s += S(a.first) + "," + S(a.second) + ";"; ctx.distinct(mc::hash(s)); }); };
    for (int n = 0; n <= maxn; n++) for (int c : {1, 2, 3, 20}) for (bool nul : {false, true}) for (bool b : {false, true}) { run(n, c, nul, {}, b); int na = 1 + 2 * n; for (int p = 1; p <= pos; p++) for (int a = 0; a < na; a++) { if (ctx.out_of_time_fast()) return; run(n, c, nul, {{p, a}}, b); if (c <= 2 && n <= (ctx.thorough ? 7 : 4)) for (int q = p + b; q <= pos; q++) for (int d = 0; d < na; d++) { run(n, c, nul, {{p, a}, {q, d}}, b); if (ctx.thorough && n <= 4) for (int r = q + b; r <= pos; r++) for (int e = 0; e < na; e++) run(n, c, nul, {{p, a}, {q, d}, {r, e}}, b); } } }
}
// long chains: keys and prefixes colliding in the real (not shrunken) tables
SUITE("C27", scan_chain, "asan", BOTH) {
    mc::boot_std({}); Strs kc, pc; for (uint32_t i = 0; kc.size() < 520; i++) { string k = "c" + S(i); if ((mc_hash(k.data(), k.size(), 0) & 0xffff) == 23) kc.push_back(k); } for (uint32_t i = 0; pc.size() < 520; i++) { string k = "q" + S(i); if ((mc_hash(k.data(), k.size(), 0) & 1023) == 7) pc.push_back(k); }
    ctx.note_bound("up to 520 keys (prefixes) in one chain of the full-size tables, scans with every count class: all are reported as long as a chain has at most max(200, count+100) entries; longer chains never break the server");
    for (bool pfx : {false, true}) for (int n : {99, 100, 101, 119, 120, 121, 150, 199, 200, 201, 202, 220, 250, 299, 300, 310, 399, 400, 401, 500, 520}) for (int count : {1, 2, 20, 99, 100, 101, 150, 199, 200, 201, 220, 300, 399, 401, 500, 2000}) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return;
        ctx.isolated([&] { Lock l(ctx); l.begin(); l.connect(); l.m.now = sim::now_s(); string buf; for (int i = 0; i < n; i++) { string k = pfx ? pc[i] + ":x" : kc[i]; sim::rpc(l.c, kset("set", k, "v")); if (!pfx) { l.m.kv[k].type = model::KV; } } std::map<string, int> seen, cnt; for (auto &p : pc) cnt[p] = 1; string cur = "0"; int calls = 0; do { bool ok = pfx ? scan_prefix(l, cur, count, seen, cnt) : scan_key(l, cur, count, "", seen); if (!ok) return; if (++calls > 40) break; } while (cur != "0" && seen.size() < (size_t)n);
            int missed = 0; for (int i = 0; i < n; i++) missed += !seen.count(pfx ? pc[i] : kc[i]); if (missed) { if (n <= std::max(200, count + 100)) l.fail("missed", mc::fmt("%d of %d colliding %s are not reported by a scan with count %d", missed, n, pfx ? "prefixes" : "keys", count)); else l.fail("chain", mc::fmt("%d of %d colliding %s are not reported by a scan with count %d (its result array is smaller than the chain)", missed, n, pfx ? "prefixes" : "keys", count)); }
            ctx.trace(); ctx.trans(calls); ctx.distinct(mc::hash(S(pfx) + " " + S(n) + " " + S(count))); }, 60); }
}
// C30: every operation at every point of the growth of the hash index
static void grow_case(mc::Ctx &ctx, Lock &l, int n, const vector<int> &acts, int fail) {
    l.begin(); l.connect(); l.m = model::Model(); l.m.now = sim::now_s(); Strs N = names(80); string all = "get"; for (int i = 0; i < 70; i++) all += " " + N[i]; all += "\r\n"; std::map<string, string> val; int nk = 0; auto say = [&](const string &c) { string r = sim::rpc(l.c, c); l.hist.push_back({c, mc::esc(r, 200)}); ctx.evals(); return r; };
    auto store = [&](int i, const string &cmd, bool want) { string v = "v" + S(ctx.case_index() % 7) + S((int)l.hist.size()); string r = say(kset(cmd, N[i], v)); if (r != (want ? "STORED\r\n" : "NOT_STORED\r\n")) l.fail("reply", cmd + " " + N[i] + ": " + r); if (want) val[N[i]] = v; };
    if (fail) { sim::malloc_fail_at = -1; }
    auto verify = [&] { string r = say(all), want; std::map<string, string> got; size_t p = 0; while (r.compare(p, 6, "VALUE ") == 0) { size_t q = r.find("\r\n", p); auto t = model::split(r.substr(p, q - p)); long n = atol(t[3].c_str()); if (got.count(t[1])) l.fail("twice", "key " + t[1] + " returned twice"); got[t[1]] = r.substr(q + 2, n); p = q + 4 + n; } if (r.substr(p) != "END\r\n") l.fail("reply", "get: " + mc::esc(r)); if (got != val) { for (auto &x : val) if (!got.count(x.first)) l.fail("lost", "key " + x.first + " is not found"); else if (got[x.first] != x.second) l.fail("wrong", "key " + x.first + " has value " + got[x.first] + " instead of " + x.second); for (auto &x : got) if (!val.count(x.first)) l.fail("ghost", "key " + x.first + " is found but was deleted or never stored"); }
        string st = say("stats\r\n"); size_t q = st.find("STAT curr_items "); if (q == string::npos || atol(st.c_str() + q + 16) != (long)val.size()) l.fail("count", "curr_items is not " + S(val.size())); };
    for (; nk < n; nk++) store(nk, "set", true);
    for (int a : acts) { if (a == 0) { store(nk, "set", true); nk++; } else if (a == 1) { for (int i = 0; i < 3; i++, nk++) store(nk, "add", true); } else if (a == 2) { sim::malloc_fail_mode = 2; sim::malloc_fail_at = 1; for (int i = 0; i < 4; i++, nk++) { string v = "w" + S(nk), r = say(kset("set", N[nk], v)); if (r == "STORED\r\n") val[N[nk]] = v; } sim::malloc_fail_at = 0; }
        else { int i = (a - 3) / 3; if (i >= nk) i = nk - 1; if (i < 0) continue; bool have = val.count(N[i]); switch ((a - 3) % 3) { case 0: { string r = say("delete " + N[i] + "\r\n"); if (r != (have ? "DELETED\r\n" : "NOT_FOUND\r\n")) l.fail("reply", "delete: " + r); val.erase(N[i]); break; } case 1: store(i, "set", true); break; case 2: store(i, "add", !have); break; } }
        verify(); }
    if (acts.empty()) verify(); ctx.trace(); ctx.trans(acts.size() + n); string s = S(n); for (int a : acts) s += "," + S(a); ctx.distinct(mc::hash(s));
}
SUITE("C30", grow_ops, "small", BOTH) {
    mc::boot_std({}); int maxn = ctx.thorough ? 53 : 27; ctx.note_bound(mc::fmt("hash index of 2 chains growing at 4, 7, 13, 25, 49 keys; from every number of stored keys 0..%d every sequence of 2 operations (thorough also 3) out of: store 1 or 3 new keys, store while no memory can be allocated, delete / replace / add key i for every i%s; after each all keys are looked up", maxn, ctx.thorough ? "" : " up to 9"));
    auto one = [&](int n, vector<int> a) { if (!ctx.mine()) return; ctx.isolated([&] { Lock l(ctx); grow_case(ctx, l, n, a, 0); }); };
    for (int n = 0; n <= maxn; n++) { one(n, {}); int na = 3 + 3 * std::min(n + 1, ctx.thorough ? 40 : 10); for (int a = 0; a < na; a++) { if (ctx.out_of_time_fast()) return; for (int b = 0; b < na; b++) one(n, {a, b}); } }
    if (ctx.thorough) for (int n : {2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 24, 25}) { int na = 3 + 3 * std::min(n + 1, 12); for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int c = 0; c < na; c++) { if (ctx.out_of_time_fast()) return; one(n, {a, b, c}); } }
}
// the full-size table really grows: 98304 keys and beyond
SUITE("C30", grow_full, "std", BOTH) {
    mc::boot_std({"-m", "400"}); ctx.note_bound("the full-size index (65536 chains): 98304 + 70000 keys stored through two growths' worth of migration, every key looked up at several points; one execution"); if (!ctx.mine()) return; Lock l(ctx); l.connect(); l.begin(); const int N = ctx.thorough ? 420000 : 170000; std::vector<char> have(N + 200000, 0); auto check = [&](int upto) { for (int i = 0; i < upto; i += 50) { string c = "get"; for (int j = i; j < i + 50; j++) c += " g" + S(j); string r = sim::rpc(l.c, c + "\r\n"); int n = 0, want = 0; for (size_t p = 0; (p = r.find("VALUE g", p)) != string::npos; p += 7, n++) { int k = atoi(r.c_str() + p + 7); if (!have[k]) l.fail("ghost", "key g" + S(k) + " found"); } for (int j = i; j < i + 50; j++) want += have[j]; if (n != want) l.fail("lost", mc::fmt("%d of the %d keys g%d..g%d are found after storing %d keys", n, want, i, i + 49, upto)); } };
    for (int i = 0; i < N; i++) { string k = "g" + S(i); if (sim::rpc(l.c, kset("set", k, "v")) != "STORED\r\n") { l.fail("reply", "not stored"); return; } have[i] = 1; if (i % 7 == 3) { int d = (int)(((uint64_t)i * 7919) % i); if (have[d]) { if (sim::rpc(l.c, "delete g" + S(d) + "\r\n") != "DELETED\r\n") l.fail("lost", "key g" + S(d) + " is not deleted"); have[d] = 0; } } ctx.evals(); if (i % 20000 == 19999 || (i > 98000 && i % 9999 == 0)) check((i / 50) * 50); }
    check(N); ctx.trace(); ctx.trans(N); ctx.distinct(N);
}
