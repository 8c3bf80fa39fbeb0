// C09-C13: b+trees
#include "explore.h"
#include <algorithm>
#include <cstring>
#include <cmath>
using namespace ex; using std::string; using std::vector;
static string S(long n) { return std::to_string(n); }
static string bopi(const string &k, const string &bk, const string &v, const string &ef = "", const string &tail = "", const char *op = "insert") { return string("bop ") + op + " " + k + " " + bk + (ef.empty() ? "" : " " + ef) + " " + S(v.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + v + "\r\n"; }
static string blob(size_t n, int seed) { string v(n, 0); uint32_t x = seed * 2654435761u + 777; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; v[i] = (char)(x >> 24); } return v; }
static void drop(Lock &l, const string &k) { l.step("delete " + k + "\r\n"); }
template <class F> static void perms(int n, F f) { vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do f(p); while (std::next_permutation(p.begin(), p.end())); }
static string hexs(const string &b) { string r = "0x"; for (unsigned char c : b) { char t[3]; snprintf(t, 3, "%02x", c); r += t; } return r; }
static string keyspec(const Strs &ks) { string d; for (auto &k : ks) d += (d.empty() ? "" : " ") + k; return d; }
static string bmget(const Strs &ks, const string &args) { string d = keyspec(ks); return "bop mget " + S(d.size()) + " " + S(ks.size()) + " " + args + "\r\n" + d + "\r\n"; }
static string bsmget(const Strs &ks, const string &args) { string d = keyspec(ks); return "bop smget " + S(d.size()) + " " + S(ks.size()) + " " + args + "\r\n" + d + "\r\n"; }
// insertion orders that produce different tree shapes
static vector<vector<int>> orders(int n) {
    vector<vector<int>> r; vector<int> a(n); for (int i = 0; i < n; i++) a[i] = i; r.push_back(a); vector<int> b(a.rbegin(), a.rend()); r.push_back(b);
    vector<int> c; for (int i = 0; i < n; i += 2) c.push_back(i); for (int i = 1; i < n; i += 2) c.push_back(i); r.push_back(c);
    vector<int> d; for (int i = 0, j = n - 1; i <= j; i++, j--) { d.push_back(i); if (i != j) d.push_back(j); } r.push_back(d); vector<int> e(d.rbegin(), d.rend()); r.push_back(e);
    vector<int> f; for (int s = 0; s < 5; s++) for (int i = s; i < n; i += 5) f.push_back(i); r.push_back(f);
    vector<int> g; for (int i = 0; i < n; i++) g.push_back((i * 7 + 3) % n); std::sort(g.begin(), g.end()); if (std::unique(g.begin(), g.end()) == g.end()) { g.clear(); for (int i = 0; i < n; i++) g.push_back((i * 7 + 3) % n); r.push_back(g); }
    return r;
}
static void verify_tree(Lock &l, const string &k, int n, bool pos = false) {
    l.step("bop get " + k + " 0.." + S(4 * n + 10) + "\r\n"); l.step("bop get " + k + " " + S(4 * n + 10) + "..0\r\n"); l.step("bop count " + k + " 0.." + S(4 * n + 10) + "\r\n");
    l.step("bop gbp " + k + " asc 0..1000\r\n"); l.step("bop gbp " + k + " desc 0..1000\r\n");
    if (pos) for (int i = 0; i < n; i++) { l.step("bop position " + k + " " + S(2 * i + 1) + " asc\r\n"); l.step("bop position " + k + " " + S(2 * i + 1) + " desc\r\n"); }
}
// ------------------------------------------------------------------ C09
SUITE("C09", tree_seq, "small", BOTH) { // short sequences from several start trees (node capacity 4)
    mc::boot_std(); Lock l(ctx); l.connect(); (void)l;
    for (int st = 0; st < 4; st++) { Spec s; s.init = {"bop create b 5 0 0\r\n"}; static const int shapes[4][13] = {{-1}, {1, 3, 5, 7, 9, -1}, {13, 11, 9, 7, 5, 3, 1, -1}, {1, 13, 3, 11, 5, 9, 7, 15, 17, 19, 21, 23, -1}};
        for (int i = 0; shapes[st][i] >= 0; i++) s.init.push_back(bopi("b", S(shapes[st][i]), "v" + S(shapes[st][i])));
        s.alpha = {bopi("b", "2", "x"), bopi("b", "4", "yy", "0x01"), bopi("b", "6", ""), bopi("b", "8", "zzz"), bopi("b", "3", "new", "0x0a0b", "", "upsert"), bopi("b", "10", "up", "", "create 1 0 0", "upsert"), "bop delete b 3\r\n", "bop delete b 5..9 2\r\n", "bop delete b 9..1\r\n", "bop delete b 0..4 drop\r\n", "bop get b 7..2 1 2 delete\r\n", "bop get b 0..100 drop\r\n", "bop delete b 11..23\r\n"};
        s.observe = {"bop get b 0..100\r\n", "bop get b 100..0 1 3\r\n", "bop count b 3..9\r\n", "bop gbp b asc 0..100\r\n", "bop position b 5 desc\r\n", "getattr b\r\n"}; s.cleanup = {"delete b\r\n"}; s.depth = ctx.thorough ? 5 : 4; all_sequences(ctx, s); }
}
SUITE("C09", tree_perm, "asmall", BOTH) { // every insertion order, every deletion subset
    mc::boot_std(); Lock l(ctx); l.connect(); int n = 7;
    ctx.note_bound(ctx.thorough ? "all insertion orders of 7 elements x all 128 deletion subsets, and all insertion orders of 9; node capacity 4" : "all insertion orders of 7 elements x 16 deletion subsets of different sizes, and all of 8; node capacity 4");
    perms(n, [&](const vector<int> &p) { for (int m = 0; m < 128; m++) { if (!ctx.thorough && ((m * 37 + p[0] * 11 + p[3]) & 7)) continue; if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : p) l.step(bopi("b", S(2 * i + 1), "v" + S(i)));
        for (int i = 0; i < n; i++) if (m >> i & 1) l.step("bop delete b " + S(2 * p[(i * 3) % 7] + 1) + "\r\n"); verify_tree(l, "b", n); l.step(bopi("b", "4", "n4")); l.step(bopi("b", "8", "n8")); l.step(bopi("b", "0", "n0")); l.step("bop get b 0..100\r\n"); l.step("bop gbp b asc 0..100\r\n"); l.step("bop delete b 0..100 drop\r\n"); drop(l, "b"); ctx.trace(); ctx.distinct(mc::hash(string(p.begin(), p.end()) + S(m))); } });
    perms(ctx.thorough ? 9 : 8, [&](const vector<int> &p) { if (!ctx.mine()) return; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : p) l.step(bopi("b", S(2 * i + 1), "")); l.step("bop gbp b asc 0..100\r\n"); l.step("bop delete b 0..6\r\n"); l.step("bop get b 100..0\r\n"); drop(l, "b"); ctx.trace(); });
}
SUITE("C09", tree_ranges, "asmall", BOTH) { // larger trees: every range removed, by range / count / get delete
    mc::boot_std(); Lock l(ctx); l.connect(); vector<int> ns = {5, 9, 13, 17, 24, 33}; if (ctx.thorough) { ns.push_back(48); ns.push_back(70); }
    ctx.note_bound("trees of 5..33 (thorough 70) elements built in 6-7 different orders with node capacity 4 x every contiguous range removed in 5 ways, re-verified, refilled and re-verified");
    for (int n : ns) for (auto &o : orders(n)) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) { int op = (a * 7 + b * 3 + n) % 6; if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : o) l.step(bopi("b", S(2 * i + 1), "v" + S(i), i % 3 ? "" : "0x0" + S(i % 8)));
        string up = S(2 * a + (a & 1)) + ".." + S(2 * b + 1 + (b & 1)), dn = S(2 * b + 1 + (b & 1)) + ".." + S(2 * a + (a & 1));
        switch (op) { case 0: l.step("bop delete b " + up + "\r\n"); break; case 1: l.step("bop delete b " + dn + " " + S((b - a) / 2 + 1) + "\r\n"); break; case 2: l.step("bop get b " + up + " delete\r\n"); break; case 3: l.step("bop get b " + dn + " " + S((b - a) / 3) + " " + S((b - a) / 2 + 1) + " delete\r\n"); break; case 4: for (int i = a; i <= b; i++) l.step("bop delete b " + S(2 * i + 1) + "\r\n"); break; default: for (int i = b; i >= a; i--) l.step("bop get b " + S(2 * i + 1) + " delete\r\n"); }
        verify_tree(l, "b", n, true); for (int i = b; i >= a; i--) l.step(bopi("b", S(2 * i + 2), "w" + S(i), "", "", i & 1 ? "upsert" : "insert")); verify_tree(l, "b", n); l.step("bop delete b 0..1000 drop\r\n"); drop(l, "b"); ctx.trace(); ctx.distinct(mc::hash(S(n) + "," + S(a) + "," + S(b) + "," + S(o[0]) + S(o[1]) + S(o[n / 2]))); }
}
SUITE("C09", tree_queries, "small", BOTH) { // query grid
    mc::boot_std(); Lock l(ctx); l.connect(); int N = ctx.thorough ? 14 : 11;
    ctx.note_bound(mc::fmt("trees of 0..%d elements x all (from,to) x offsets 0..3 x counts 0..4 x get/delete/drop/count", N));
    for (int n = 0; n <= N; n++) for (int a = 0; a <= 2 * n + 2; a++) for (int b = 0; b <= 2 * n + 2; b++) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i = 0; i < n; i++) l.step(bopi("b", S(2 * ((i * 5) % n) + 1), "v" + S(i))); for (int i = 0; i < n; i++) l.step(bopi("b", S(2 * i + 1), "u" + S(i), "", "", "upsert"));
        string r = S(a) + ".." + S(b); l.step("bop count b " + r + "\r\n"); l.step("bop get b " + S(a) + "\r\n");
        for (int off = 0; off <= 3; off++) for (int c = 0; c <= 4; c++) { l.step("bop get b " + r + " " + S(off) + " " + S(c) + "\r\n"); }
        for (int c = 0; c <= 3; c++) for (int way = 0; way < 4; way++) { l.step(way == 0 ? "bop delete b " + r + " " + S(c) + "\r\n" : way == 1 ? "bop get b " + r + " 1 " + S(c) + " delete\r\n" : way == 2 ? "bop delete b " + r + " " + S(c) + " drop\r\n" : "bop get b " + r + " " + S(c) + " drop\r\n"); l.step("bop get b 0..100\r\n"); for (int i = 0; i < n; i++) l.step(bopi("b", S(2 * i + 1), "w" + S(i), "", "create 1 0 0", "upsert")); }
        drop(l, "b"); ctx.trace(); ctx.distinct(n * 10000 + a * 100 + b); if (ctx.case_index() % 401 == 0) ctx.sample("range " + r + " on " + S(n) + " elements");
    }
}
SUITE("C09", tree_binary, "asmall", BOTH) { // binary and extreme bkeys
    mc::boot_std(); Lock l(ctx); l.connect(); vector<string> ks; for (unsigned char a : {0x00, 0x01, 0x7f, 0x80, 0xff}) { ks.push_back(string(1, a)); for (unsigned char b : {0x00, 0x01, 0xff}) { ks.push_back(string(1, a) + (char)b); } } ks.push_back(string(31, '\xff')); ks.push_back(string(31, 0)); ks.push_back(string(30, '\xff')); ks.push_back(string("\x01\x00\x00", 3)); ks.push_back(string("\x01\x00\x01", 3));
    ctx.note_bound("25 binary bkeys of 1..31 bytes (prefixes of one another, extreme bytes) in 7 insertion orders x all (from,to) pairs; every bkey length 1..31; unsigned bkeys at the 2^32, 2^63, 2^64 boundaries");
    int n = ks.size(); for (auto &o : orders(n)) for (int a = 0; a < n; a++) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : o) l.step(bopi("b", hexs(ks[i]), "v" + S(i))); for (int b = 0; b < n; b++) { l.step("bop get b " + hexs(ks[a]) + ".." + hexs(ks[b]) + "\r\n"); l.step("bop count b " + hexs(ks[a]) + ".." + hexs(ks[b]) + "\r\n"); } l.step("bop get b 5\r\n"); l.step("bop get b 0..10\r\n"); l.step(bopi("b", "5", "x")); l.step("bop position b " + hexs(ks[a]) + " asc\r\n"); l.step("getattr b\r\n"); l.step("bop delete b " + hexs(ks[a]) + "\r\n"); l.step("bop get b 0x00.." + hexs(string(31, '\xff')) + "\r\n"); l.step("bop delete b 0x00.." + hexs(string(31, '\xff')) + "\r\n"); l.step(bopi("b", "5", "x")); l.step("bop get b 5\r\n"); l.step("bop delete b 5\r\n"); l.step(bopi("b", "0x05", "x")); l.step("bop get b 0x05\r\n"); drop(l, "b"); ctx.trace(); ctx.distinct(a * 100 + o[0]); }
    for (int ln = 1; ln <= 31; ln++) for (int l2 = 1; l2 <= 31; l2++) { if (!ctx.mine()) continue; l.begin(); string x = blob(ln, 1), y = blob(l2, 1); l.step(bopi("b", hexs(x), "1", "", "create 0 0 0")); l.step(bopi("b", hexs(y), "2")); l.step("bop get b " + hexs(x) + ".." + hexs(y) + "\r\n"); l.step("bop get b " + hexs(y) + ".." + hexs(x) + "\r\n"); l.step("bop get b 0x00.." + hexs(string(31, '\xff')) + "\r\n"); l.step("bop delete b " + hexs(y) + "\r\n"); l.step("getattr b minbkey maxbkey\r\n"); drop(l, "b"); ctx.trace(); }
    Strs us = {"0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615"};
    for (auto &f : us) for (auto &t : us) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (size_t i = 0; i < us.size(); i++) l.step(bopi("b", us[(i * 3 + 1) % 10], "v")); for (auto &x : {"get", "count"}) l.step(string("bop ") + x + " b " + f + ".." + t + "\r\n"); l.step("bop get b " + f + ".." + t + " 1 2\r\n"); l.step("getattr b\r\n"); l.step("bop delete b " + f + ".." + t + " 3\r\n"); l.step("bop get b 0.." + us.back() + "\r\n"); drop(l, "b"); ctx.trace(); }
}
SUITE("C09", tree_big, "asan", BOTH) { // shipped node capacity (32): two and three levels
    mc::boot_std(); Lock l(ctx); l.connect(); vector<int> ns; for (int i = 28; i <= (ctx.thorough ? 140 : 70); i++) ns.push_back(i); for (int i : {500, 1000, 1100, 2100}) ns.push_back(i);
    ctx.note_bound("trees of 28..70 (thorough 140), 500, 1000, 1100 and 2100 elements with node capacity 32, 6-7 insertion orders, range and single deletions, every element re-read, element lengths 0..600");
    for (int n : ns) for (auto &o : orders(n)) for (int way = 0; way < 2; way++) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 10000\r\n"); for (int i : o) l.step(bopi("b", S(2 * i + 1), string(i % 13, 'v') + S(i))); verify_tree(l, "b", n, n < 100); for (int i = 0; i < n; i++) if ((i * 7 + way) % 3) { if (way) l.step("bop delete b " + S(2 * i + 1) + "\r\n"); else l.step("bop get b " + S(2 * (n - 1 - i) + 1) + " delete\r\n"); } verify_tree(l, "b", n); l.step("bop delete b " + S(n / 2) + ".." + S(n) + "\r\n"); for (int i = 0; i < n; i++) l.step(bopi("b", S(2 * i), "w", "", "", "upsert")); verify_tree(l, "b", n); l.step("bop delete b " + S(2 * n) + "..0 " + S(n / 3) + "\r\n"); verify_tree(l, "b", n); l.step("bop delete b 0..100000 drop\r\n"); drop(l, "b"); l.step("~"); ctx.trace(); ctx.distinct(n * 20 + o[0] * 3 + way); }
    for (int n = 0; n <= 600; n++) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 10\r\n"); l.step(bopi("b", "1", blob(n, n), n % 3 ? "0x" + string(2 * (n % 31 + 1), 'a') : "")); l.step("bop get b 1\r\n"); l.step(bopi("b", "1", blob(n * 3 % 700, 2), "", "", "upsert")); l.step("bop get b 1\r\n"); l.step("bop update b 1 " + S(n) + "\r\n" + blob(n, 4) + "\r\n"); l.step("bop get b 1 delete\r\n"); drop(l, "b"); ctx.trace(); }
}
// ------------------------------------------------------------------ C10
SUITE("C10", eflag_filters, "asan", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect(); Strs ef = {"", "0x00", "0x01", "0xff", "0x0001", "0x01ff", "0xffff", "0x8000", "0x010203", "0xff00ff", "0x7fffffff"};
    Strs ops = {"EQ", "NE", "LT", "LE", "GT", "GE"}, bit = {"", "&", "|", "^"}; Strs v1 = {"0x00", "0x01", "0x7f", "0x80", "0xff"}, v2 = {"0x0000", "0x0001", "0x01ff", "0xff00", "0xffff"};
    vector<string> fl; for (int off = 0; off <= 3; off++) for (auto &b : bit) for (auto &vs : {v1, v2}) for (auto &bv : b.empty() ? Strs{""} : vs) for (auto &op : ops) for (auto &v : vs) fl.push_back(S(off) + (b.empty() ? "" : " " + b + " " + bv) + " " + op + " " + v);
    for (int off = 0; off <= 2; off++) for (auto &b : Strs{"", "& 0x0f", "^ 0xff"}) for (auto &op : {"EQ", "NE"}) for (auto &l1 : v1) for (auto &l2 : v1) fl.push_back(S(off) + (b.empty() ? "" : " " + b) + " " + op + " " + l1 + "," + l2);
    for (auto &op : ops) { fl.push_back("0 " + op + " 0x01,0x02,0x03"); fl.push_back("1 " + op + " 0x0203,0xff00"); fl.push_back("0 " + op + " 0x01,0x0203"); fl.push_back("30 " + op + " 0x01"); fl.push_back("31 " + op + " 0x01"); fl.push_back("30 " + op + " 0x0101"); fl.push_back("0 " + op + " 0x" + string(62, 'a')); fl.push_back("0 " + op + " 0x" + string(64, 'a')); fl.push_back("0 & 0x0001 " + op + " 0x01"); }
    for (int n : {99, 100}) { string x; for (int i = 0; i < n; i++) { char t[8]; snprintf(t, 8, "%s0x%02x", i ? "," : "", i); x += t; } fl.push_back("0 EQ " + x); fl.push_back("0 NE " + x); }
    ctx.note_bound(mc::fmt("%zu filters (offset x bitwise operand x compare operator x one / several values) over 11 element flags of 0..4 bytes, through get, count, delete, get delete, mget and smget", fl.size()));
    for (auto &f : fl) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); auto fill = [&] { for (size_t i = 0; i < ef.size(); i++) l.step(bopi("b", S(i), "v" + S(i), ef[i], "", "upsert")); }; fill();
        l.step("bop get b 0..100 " + f + "\r\n"); l.step("bop get b 100..0 " + f + " 1 3\r\n"); l.step("bop get b 3 " + f + "\r\n"); l.step("bop count b 0..100 " + f + "\r\n"); l.step("bop count b 4 " + f + "\r\n"); if (l.last_rep.compare(0, 12, "CLIENT_ERROR") == 0) { drop(l, "b"); ctx.trace(); continue; }
        l.step(bmget({"b", "b"}, "0..100 " + f + " 4")); l.step(bsmget({"b"}, "0..100 " + f + " 50 duplicate")); l.step("bop get b 0..100 " + f + " 0 2 delete\r\n"); l.step("bop get b 0..100\r\n"); fill(); l.step("bop delete b 100..0 " + f + " 3\r\n"); l.step("bop get b 0..100\r\n"); fill(); l.step("bop delete b 0..100 " + f + " drop\r\n"); l.step("bop get b 0..100\r\n"); drop(l, "b"); ctx.trace(); ctx.distinct(mc::hash(f)); if (ctx.case_index() % 397 == 0) ctx.sample("filter " + f); }
}
SUITE("C10", eflag_update, "asan", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect(); Strs ef = {"", "0x00", "0x0f", "0x1234", "0xffffff", "0x" + string(62, '5')}, up; for (auto &x : Strs{"0", "0x00", "0xab", "0xabcd", "0x" + string(62, 'c')}) up.push_back(x);
    for (int off : {0, 1, 2, 30, 31}) for (auto &b : {"&", "|", "^"}) for (auto &v : {"0xf0", "0x0ff0", "0xaaaaaa"}) up.push_back(S(off) + " " + b + " " + v); up.push_back("");
    Strs vals = {"-1", "", "5", "newval", string(300, 'z')}; ctx.note_bound("bop update: 6 stored flags x " + S(up.size()) + " flag changes x 5 value changes (shrink, equal, grow, none); bop incr/decr: 30 numbers x 8 deltas x flags kept");
    for (auto &e : ef) for (auto &u : up) for (auto &v : vals) for (int twice = 0; twice < 2; twice++) { if (u.compare(0, 2, "31") == 0 && v != "-1") continue; if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i = 0; i < 6; i++) l.step(bopi("b", S(i), "value", e)); string c = "bop update b 3" + (u.empty() ? "" : " " + u) + " " + (v == "-1" ? "-1\r\n" : S(v.size()) + "\r\n" + v + "\r\n");
        l.step(c); if (l.last_rep.compare(0, 12, "CLIENT_ERROR") != 0) { if (twice) l.step(c); l.step("bop get b 0..9\r\n"); l.step("bop update b 77" + (u.empty() ? "" : " " + u) + " " + (v == "-1" ? "-1\r\n" : S(v.size()) + "\r\n" + v + "\r\n")); l.step("bop get b 0..9\r\n"); l.step("bop get b 0..9 0 EQ 0x00\r\n"); drop(l, "b"); } else { sim::shut(l.c); sim::run(); l.connect(); drop(l, "b"); } ctx.trace(); ctx.distinct(mc::hash(e + "|" + u + "|" + v)); }
    Strs nums = {"0", "1", "9", "10", "99", "100", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "", "abc", "12a", "-1", " ", "18446744073709551616"}, ds = {"1", "2", "9", "10", "4294967296", "9223372036854775808", "18446744073709551615", "0"};
    for (auto &n : nums) for (auto &d : ds) for (auto op : {"incr", "decr"}) for (auto &e : {string(""), string("0x0102")}) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); l.step(bopi("b", "1", "before")); l.step(bopi("b", "2", n, e)); l.step(bopi("b", "3", "after")); l.step(string("bop ") + op + " b 2 " + d + "\r\n"); l.step("bop get b 0..9\r\n"); l.step(string("bop ") + op + " b 2 " + d + "\r\n"); l.step("bop get b 0..9\r\n"); l.step(string("bop ") + op + " b 7 " + d + " 40 0xff\r\n"); l.step(string("bop ") + op + " b 8 " + d + "\r\n"); l.step(string("bop ") + op + " b 9 " + d + " 18446744073709551615\r\n"); l.step("bop get b 0..9\r\n"); drop(l, "b"); ctx.trace(); }
}
SUITE("C10", update_seq, "small", BOTH) {
    mc::boot_std(); Spec s; s.init = {"bop create b 5 0 0\r\n"}; for (int i = 1; i < 12; i += 2) s.init.push_back(bopi("b", S(i), S(i * 9), i % 4 == 1 ? "0x0102" : ""));
    s.alpha = {"bop update b 5 0x77 3\r\nnew\r\n", "bop update b 5 0 -1\r\n", "bop update b 5 1 | 0xf0 -1\r\n", "bop update b 9 1\r\n7\r\n", "bop incr b 7 1\r\n", "bop incr b 9 99999\r\n", "bop decr b 11 1000\r\n", "bop incr b 4 1 10 0x05\r\n", "bop incr b 6 1 18446744073709551615\r\n", "bop delete b 5\r\n", bopi("b", "5", "55", "0xaabb", "", "upsert"), "bop delete b 0..100 0 EQ 0x01\r\n", "bop decr b 5 7\r\n"};
    s.observe = {"bop get b 0..100\r\n", "bop count b 0..100 0 NE 0x01\r\n", "bop get b 100..0 1 & 0xf0 GT 0x00\r\n", "bop gbp b asc 0..100\r\n"}; s.cleanup = {"delete b\r\n"}; s.depth = ctx.thorough ? 5 : 4; s.all_lengths = true; all_sequences(ctx, s);
}
// ------------------------------------------------------------------ C11
SUITE("C11", positions, "small", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect(); vector<int> ns; for (int i = 0; i <= (ctx.thorough ? 40 : 26); i++) ns.push_back(i);
    ctx.note_bound("trees of 0.." + S(ns.back()) + " elements in all generated shapes (6-7 insertion orders, with and without deletions): every position and pwg of every bkey, both orders, pwg widths 0..4; gbp of every index pair");
    for (int n : ns) { auto os = n ? orders(n) : vector<vector<int>>{{}}; for (auto &o : os) for (int del = 0; del < 4; del++) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : o) l.step(bopi("b", S(2 * i + 1), "v" + S(i), i % 2 ? "0x0a" : "")); if (del) for (int i = 0; i < n; i++) if ((i * del + 1) % 4 == 0) l.step("bop delete b " + S(2 * i + 1) + "\r\n");
        for (int k = 0; k <= 2 * n + 1; k++) for (auto od : {"asc", "desc"}) { l.step("bop position b " + S(k) + " " + od + "\r\n"); if (k & 1 || k == 0) for (int c = 0; c <= 4; c++) l.step("bop pwg b " + S(k) + " " + od + (c ? " " + S(c) : "") + "\r\n"); }
        for (int a = 0; a <= n + 1; a++) for (int b = 0; b <= n + 1; b++) for (auto od : {"asc", "desc"}) { if (n > 14 && ((a * 5 + b) % 4)) continue; l.step("bop gbp b " + string(od) + " " + S(a) + ".." + S(b) + "\r\n"); if (b == 0) l.step("bop gbp b " + string(od) + " " + S(a) + "\r\n"); }
        drop(l, "b"); ctx.trace(); ctx.distinct(n * 100 + (o.empty() ? 0 : o[0]) * 4 + del); if (ctx.case_index() % 97 == 0) ctx.sample("positions in a tree of " + S(n)); } }
}
SUITE("C11", position_seq, "small", BOTH) {
    mc::boot_std(); Spec s; s.init = {"bop create b 5 0 0\r\n"}; for (int i : {9, 1, 17, 5, 13, 21, 3}) s.init.push_back(bopi("b", S(i), "v"));
    s.alpha = {bopi("b", "2", "a"), bopi("b", "4", "b"), bopi("b", "6", "c"), bopi("b", "20", "d"), bopi("b", "30", "e"), "bop delete b 1\r\n", "bop delete b 13..5 2\r\n", "bop delete b 17..30\r\n", "bop delete b 9\r\n", "bop delete b 0..4\r\n", bopi("b", "9", "up", "", "", "upsert")};
    for (int k : {1, 2, 5, 9, 13, 20, 21}) { s.observe.push_back("bop position b " + S(k) + " asc\r\n"); s.observe.push_back("bop pwg b " + S(k) + " desc 2\r\n"); } s.observe.push_back("bop gbp b asc 1..3\r\n"); s.observe.push_back("bop gbp b desc 0..2\r\n"); s.observe.push_back("bop gbp b asc 100..0\r\n");
    s.cleanup = {"delete b\r\n"}; s.depth = ctx.thorough ? 6 : 4; s.all_lengths = true; all_sequences(ctx, s);
}
SUITE("C11", positions_big, "asan", BOTH) { // shipped node capacity
    mc::boot_std(); Lock l(ctx); l.connect(); ctx.note_bound("trees of 30..100 and 1100 elements with node capacity 32: every position, sampled gbp windows across node borders");
    for (int n : {30, 32, 33, 34, 48, 64, 65, 66, 97, 100, 1100}) for (auto &o : orders(n)) { if (!ctx.mine()) continue; l.begin(); l.step("bop create b 1 0 0\r\n"); for (int i : o) l.step(bopi("b", S(2 * i + 1), "v" + S(i))); for (int r = 0; r < 2; r++) { for (int i = 0; i < n; i++) { l.step("bop position b " + S(2 * i + 1) + (i & 1 ? " asc\r\n" : " desc\r\n")); if (n < 200) { l.step("bop pwg b " + S(2 * i + 1) + (i & 1 ? " desc" : " asc") + " " + S(i % 40) + "\r\n"); l.step("bop gbp b " + string(i & 1 ? "asc " : "desc ") + S(i) + ".." + S((i * 13) % n) + "\r\n"); } else if (i % 50 == 0) l.step("bop gbp b asc " + S(i) + ".." + S(i + 70) + "\r\n"); } for (int i = 0; i < n; i += 3) l.step("bop delete b " + S(2 * i + 1) + "\r\n"); } drop(l, "b"); l.step("~"); ctx.trace(); ctx.distinct(n * 10 + o[0]); }
}
// ------------------------------------------------------------------ C12
SUITE("C12", list_ovf, "std", BOTH) {
    mc::boot_std(); for (auto act : {"error", "head_trim", "tail_trim"}) for (int mx = 1; mx <= 3; mx++) { Spec s; s.init = {"lop create l 1 0 " + S(mx) + " " + act + "\r\n"};
        int c = 0; for (int ix : {0, -1, 1, -2, 2, -3}) { string v(1, 'a' + c++); s.alpha.push_back("lop insert l " + S(ix) + " 1\r\n" + v + "\r\n"); } for (auto &x : Strs{"lop delete l 0\r\n", "lop delete l -1\r\n", "setattr l maxcount=2\r\n", "setattr l maxcount=1\r\n", "setattr l overflowaction=error\r\n", "setattr l overflowaction=head_trim\r\n", "setattr l maxcount=4\r\n"}) s.alpha.push_back(x);
        s.observe = {"lop get l 0..-1\r\n", "getattr l\r\n", "lop insert l 0 1\r\nX\r\n", "lop insert l -1 1\r\nY\r\n", "lop get l 0..-1\r\n"}; s.cleanup = {"delete l\r\n"}; s.depth = ctx.thorough ? 5 : 4; all_sequences(ctx, s); }
}
SUITE("C12", sm_ovf, "small", BOTH) {
    mc::boot_std(); for (int mx = 1; mx <= 3; mx++) { Spec s; s.init = {"sop create s 1 0 " + S(mx) + "\r\n", "mop create m 1 0 " + S(mx) + " error\r\n"};
        for (auto &x : Strs{"a", "b", "c"}) { s.alpha.push_back("sop insert s 1\r\n" + x + "\r\n"); s.alpha.push_back("mop insert m " + x + " 1\r\n1\r\n"); } s.alpha.push_back("mop upsert m c 2\r\n22\r\n"); s.alpha.push_back("mop upsert m d 1\r\n2\r\n"); s.alpha.push_back("sop delete s 1\r\na\r\n"); s.alpha.push_back("mop delete m 1 1\r\na\r\n"); s.alpha.push_back("setattr s maxcount=2\r\n"); s.alpha.push_back("setattr m maxcount=1\r\n"); s.alpha.push_back("setattr m maxcount=3\r\n");
        s.observe = {"sop get s 0\r\n", "mop get m 0 0\r\n", "getattr s\r\n", "getattr m\r\n"}; s.cleanup = {"delete s\r\n", "delete m\r\n"}; s.depth = ctx.thorough ? 5 : 4; all_sequences(ctx, s); }
}
SUITE("C12", bt_ovf, "small", BOTH) {
    mc::boot_std(); for (auto act : {"error", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"}) for (int mx = 1; mx <= (ctx.thorough ? 5 : 3); mx++) { Spec s; s.init = {"bop create b 1 0 " + S(mx) + " " + act + "\r\n"};
        for (int k : {1, 3, 5, 7, 9}) s.alpha.push_back(bopi("b", S(k), "v" + S(k))); s.alpha.push_back(bopi("b", "4", "g", "0x01", "getrim")); s.alpha.push_back(bopi("b", "6", "u", "", "getrim", "upsert")); s.alpha.push_back("bop incr b 8 1 5\r\n"); s.alpha.push_back("bop delete b 0..3\r\n"); s.alpha.push_back("bop delete b 9..5 1\r\n"); s.alpha.push_back("setattr b maxcount=2\r\n"); s.alpha.push_back("setattr b overflowaction=smallest_trim\r\n"); s.alpha.push_back("setattr b overflowaction=largest_trim\r\n");
        s.observe = {"bop get b 0..100\r\n", "bop get b 100..0 2\r\n", "bop get b 0..3\r\n", "bop get b 7..100\r\n", "bop get b 0\r\n", "bop get b 99\r\n", "bop count b 0..100\r\n", "getattr b\r\n"}; s.cleanup = {"delete b\r\n"}; s.depth = 4; all_sequences(ctx, s); }
}
SUITE("C12", bt_range, "small", BOTH) {
    mc::boot_std(); for (auto act : {"error", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"}) for (auto rg : {"4", "0x04"}) for (int mx : {0, 3}) { Spec s; bool hx = rg[1] == 'x'; auto K = [&](int k) { char t[8]; snprintf(t, 8, hx ? "0x%02x" : "%d", k); return string(t); };
        s.init = {"bop create b 1 0 " + S(mx) + " " + act + "\r\n", string("setattr b maxbkeyrange=") + rg + "\r\n"};
        for (int k : {1, 3, 5, 7, 9, 20}) s.alpha.push_back(bopi("b", K(k), "v" + S(k))); s.alpha.push_back(bopi("b", K(6), "g", "0x01", "getrim", "upsert")); s.alpha.push_back("bop delete b " + K(0) + ".." + K(4) + "\r\n"); s.alpha.push_back("setattr b maxbkeyrange=" + K(2) + "\r\n"); s.alpha.push_back("setattr b maxbkeyrange=0\r\n"); s.alpha.push_back("setattr b maxbkeyrange=" + K(15) + "\r\n"); s.alpha.push_back("bop delete b " + K(0) + ".." + K(200) + "\r\n"); s.alpha.push_back(bopi("b", hx ? "5" : "0x05", "other"));
        s.observe = {"bop get b " + K(0) + ".." + K(200) + "\r\n", "bop get b " + K(200) + ".." + K(0) + "\r\n", "bop get b " + K(0) + ".." + K(4) + "\r\n", "bop count b " + K(0) + ".." + K(200) + "\r\n", "getattr b\r\n"}; s.cleanup = {"delete b\r\n"}; s.depth = ctx.thorough ? 5 : 4; all_sequences(ctx, s); }
}
SUITE("C12", limits_default, "asan", BOTH) { // maxcount default, unlimited and the configured ceilings
    mc::boot_std(); Lock l(ctx); l.connect(); ctx.note_bound("maxcount 0 (default 4000), -1 (ceiling), ceiling-1..ceiling+1 for all four types; default limit filled to the brim");
    for (auto ty : {"lop", "sop", "mop", "bop"}) for (auto mc_ : {"0", "-1", "-5", "1", "3999", "4000", "4001", "49999", "50000", "50001", "2147483647"}) { if (!ctx.mine()) continue; l.begin(); l.step(string(ty) + " create k 1 0 " + mc_ + "\r\n"); l.step("getattr k\r\n"); for (auto m2 : {"0", "-1", "5", "50000", "50001", "60000"}) { l.step(string("setattr k maxcount=") + m2 + "\r\n"); l.step("getattr k maxcount\r\n"); } drop(l, "k"); ctx.trace(); ctx.distinct(mc::hash(string(ty) + mc_)); }
    for (int ty = 0; ty < 4; ty++) { if (!ctx.mine()) continue; l.begin(); const char *n[] = {"lop", "sop", "mop", "bop"}; l.step(string(n[ty]) + " create k 1 0 0 error\r\n"); for (int i = 0; i < 4003; i++) { l.hist.clear(); string v = S(i); l.step(ty == 0 ? "lop insert k -1 1\r\nx\r\n" : ty == 1 ? "sop insert k " + S(v.size()) + "\r\n" + v + "\r\n" : ty == 2 ? "mop insert k f" + v + " 1\r\nx\r\n" : bopi("k", v, "x")); } l.step("getattr k count maxcount\r\n"); drop(l, "k"); l.step("~"); ctx.trace(); }
}
// ------------------------------------------------------------------ C13
SUITE("C13", smget_grid, "small", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect();
    // tree kinds: subset of bkeys {1,2,3,4} or special
    vector<Strs> kinds; for (int m = 0; m < 16; m++) { Strs s{"bop create K 1 0 0\r\n"}; for (int i = 0; i < 4; i++) if (m >> i & 1) s.push_back(bopi("K", S(i + 1), "v" + S(i), i % 2 ? "0x01" : "")); kinds.push_back(s); }
    kinds.push_back({}); kinds.push_back({"bop create K 1 0 0 unreadable\r\n"}); { Strs s{"bop create K 2 0 2 smallest_trim\r\n"}; for (int i = 1; i <= 4; i++) s.push_back(bopi("K", S(i), "t")); kinds.push_back(s); } { Strs s{"bop create K 3 0 2 largest_trim\r\n"}; for (int i = 4; i >= 1; i--) s.push_back(bopi("K", S(i), "l")); kinds.push_back(s); } kinds.push_back({"set K 0 0 1\r\nx\r\n"}); kinds.push_back({"bop create K 1 0 0\r\n", bopi("K", "0x01", "bin")});
    Strs qs; for (auto r : {"0..9", "9..0", "2..3", "3..1", "2", "5..9"}) for (auto f : {"", " 0 EQ 0x01"}) { for (auto t : {"1 duplicate", "3 duplicate", "20 duplicate", "1 unique", "2 unique", "20 unique", "2", "20", "1 2", "0 20"}) qs.push_back(string(r) + f + " " + t); for (auto t : {"1", "20", "1 2"}) qs.push_back(string("M") + r + f + " " + t); }
    int nk = kinds.size(); ctx.note_bound(mc::fmt("two trees of %d kinds each (all subsets of 4 bkeys, missing, unreadable, trimmed either end, other type, binary bkeys) in both key orders, and three trees over a reduced set of kinds, x %zu mget/smget queries", nk, qs.size()));
    auto run = [&](const vector<int> &ks, const Strs &names, const vector<Strs> &qorder, int qstep) { l.begin(); for (size_t i = 0; i < ks.size(); i++) for (auto c : kinds[ks[i]]) { size_t p; while ((p = c.find(" K ")) != string::npos) c.replace(p + 1, 1, names[i]); l.step(c); }
        int q = ks[0]; for (auto &ord : qorder) for (size_t i = 0; i < qs.size(); i++) { if (qstep > 1 && (q++ % qstep)) continue; l.step(qs[i][0] == 'M' ? bmget(ord, qs[i].substr(1)) : bsmget(ord, qs[i])); if (l.hist.size() > 60) l.hist.erase(l.hist.begin() + 20, l.hist.end() - 20); } for (auto &n : names) l.step("delete " + n + "\r\n"); ctx.trace(); ctx.distinct(mc::hash(string(ks.begin(), ks.end()))); if (ctx.case_index() % 499 == 0) ctx.sample("kinds of the trees: " + S(ks[0]) + "," + S(ks[1]) + " -> " + l.last_rep); };
    for (int a = 0; a < nk; a++) for (int b = 0; b < nk; b++) { if (!ctx.mine()) continue; run({a, b}, {"bb", "ab"}, {{"bb", "ab"}, {"ab", "bb"}, {"ab", "bb", "zz"}}, 1); }
    vector<int> red = {0, 1, 2, 5, 6, 9, 11, 15, 16, 17, 18, 19}; if (ctx.thorough) { red.clear(); for (int i = 0; i < nk - 2; i++) red.push_back(i); }
    for (int a : red) for (int b : red) for (int c : red) { if (!ctx.mine()) continue; run({a, b, c}, {"k1", "k2", "k3"}, {{"k1", "k2", "k3"}, {"k3", "k1", "k2"}, {"k2", "k3", "k1"}}, ctx.thorough ? 2 : 5); }
}
SUITE("C13", smget_big, "asan", BOTH) { // longer lists: the merge window slides; duplicate bkeys across many keys; many keys
    mc::boot_std(); Lock l(ctx); l.connect(); ctx.note_bound("2..20 trees of 0..40 elements with overlapping bkeys x counts 1..2000, offsets, both directions, unique/duplicate/old form; mget up to 200 keys; argument limits");
    for (int nt : {1, 2, 3, 5, 10, 20}) for (int n : {0, 1, 3, 10, 40}) for (int stride = 1; stride <= 3; stride++) { if (!ctx.mine()) continue; l.begin(); Strs ks; for (int t = 0; t < nt; t++) { string k = "t" + S((t * 7) % nt) + "x"; ks.push_back(k); l.step("bop create " + k + " " + S(t) + " 0 " + S(t % 4 == 3 ? 5 : 0) + "\r\n"); for (int i = 0; i < n; i++) l.step(bopi(k, S(i * stride + t % 3), "v" + S(t) + "-" + S(i))); }
        for (auto r : {"0..1000", "1000..0", "5..20", "20..5", "7", "0..3"}) for (auto c : {"1", "7", "50", "500", "2000"}) for (auto m : {"", " duplicate", " unique"}) { l.hist.clear(); l.step(bsmget(ks, string(r) + " " + c + m)); if (!*m) l.step(bsmget(ks, string(r) + " 3 " + S(atoi(c) > 1990 ? 1990 : atoi(c)))); if (atoi(c) <= 50) { l.step(bmget(ks, string(r) + " " + c)); l.step(bmget(ks, string(r) + " 2 " + S(atoi(c) > 40 ? 40 : atoi(c)))); } }
        for (auto &k : ks) drop(l, k); ctx.trace(); ctx.distinct(nt * 1000 + n * 10 + stride); }
    { if (ctx.mine()) { l.begin(); Strs ks; for (int i = 0; i < 200; i++) { string k = "m" + S(i); ks.push_back(k); if (i % 3) { l.step("bop create " + k + " 1 0 0\r\n"); l.step(bopi(k, S(i % 7), "v")); } } l.step(bmget(ks, "0..10 50")); l.step(bmget(ks, "10..0 0 1")); l.step(bsmget(ks, "0..10 2000 duplicate")); l.step(bsmget(ks, "0..10 2000 unique")); l.step(bsmget(ks, "10..0 100")); for (auto &k : ks) l.step("delete " + k + "\r\n"); ctx.trace(); } }
}
