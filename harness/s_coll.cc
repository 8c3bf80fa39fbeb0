// C06-C13: collections
#include "explore.h"
#include <algorithm>
#include <cstring>
#include <cmath>
using namespace ex; using std::string; using std::vector;
static string S(long n) { return std::to_string(n); }
static string lopi(const string &k, long ix, const string &v, const string &tail = "") { return "lop insert " + k + " " + S(ix) + " " + S(v.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + v + "\r\n"; }
static string sopi(const string &k, const string &v, const string &tail = "", const char *op = "insert") { return string("sop ") + op + " " + k + " " + S(v.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + v + "\r\n"; }
static string mopi(const string &k, const string &f, const string &v, const string &tail = "", const char *op = "insert") { return string("mop ") + op + " " + k + " " + f + " " + S(v.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + v + "\r\n"; }
static string mopg(const string &k, const Strs &fs, const string &tail = "", const char *op = "get") { string d; for (auto &f : fs) d += (d.empty() ? "" : " ") + f; return string("mop ") + op + " " + k + " " + S(d.size()) + " " + S(fs.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + (fs.empty() ? "" : d + "\r\n"); }
static string bopi(const string &k, const string &bk, const string &v, const string &ef = "", const string &tail = "", const char *op = "insert") { return string("bop ") + op + " " + k + " " + bk + (ef.empty() ? "" : " " + ef) + " " + S(v.size()) + (tail.empty() ? "" : " " + tail) + "\r\n" + v + "\r\n"; }
static string blob(size_t n, int seed) { string v(n, 0); uint32_t x = seed * 2654435761u + 777; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; v[i] = (char)(x >> 24); } return v; }
static void drop(Lock &l, const string &k) { l.step("delete " + k + "\r\n"); }
struct Case { mc::Ctx &x; Lock &l; uint64_t base; };

// ------------------------------------------------------------------ C06
SUITE("C06", list_seq, "std", BOTH) {
    mc::boot_std(); Spec s;
    s.alpha = {"lop create l 3 0 4\r\n", lopi("l", 0, "a", "create 1 0 0"), lopi("l", -1, "bb", "create 1 0 0"), lopi("l", 1, "ccc"), lopi("l", -2, ""), lopi("l", 2, "e", "create 2 0 3 error"), "lop delete l 0\r\n", "lop delete l -1\r\n", "lop delete l 1\r\n", "lop delete l 0..1 drop\r\n", "lop delete l -2..-1\r\n", "lop get l 0..-1 delete\r\n", "lop get l -1..1 drop\r\n", "delete l\r\n"};
    s.observe = {"lop get l 0..-1\r\n", "lop get l -1..0\r\n", "lop get l 1\r\n", "lop get l -2\r\n", "getattr l\r\n"}; s.cleanup = {"delete l\r\n"}; s.depth = ctx.thorough ? 6 : 5;
    all_sequences(ctx, s);
}
SUITE("C06", list_ranges, "asan", BOTH) { // every pair of indexes on every size, read and removed
    mc::boot_std(); Lock l(ctx); l.connect(); int N = ctx.thorough ? 12 : 8;
    ctx.note_bound(mc::fmt("lists of 0..%d elements x all index pairs in [-n-2, n+2] (and single indexes) x get / get delete / get drop / delete / delete drop / insert at index, whole list re-read both ways", N));
    for (int n = 0; n <= N; n++) for (int a = -n - 2; a <= n + 2; a++) for (int b = -n - 3; b <= n + 2; b++) for (int op = 0; op < 6; op++) {
        if (!ctx.mine()) continue; l.begin(); l.step("lop create l 7 0 " + S(N + 5) + "\r\n");
        for (int i = 0; i < n; i++) l.step(lopi("l", i % 3 == 0 ? -1 : i % 3 == 1 ? 0 : i / 2, string(i % 4, 'a' + i) + S(i)));
        string r = b == -n - 3 ? S(a) : S(a) + ".." + S(b);
        if (op == 5) { if (b == -n - 3) l.step(lopi("l", a, "NEW")); } else l.step(string(op < 3 ? "lop get l " : "lop delete l ") + r + (op == 1 ? " delete" : op == 2 || op == 4 ? " drop" : "") + "\r\n");
        l.step("lop get l 0..-1\r\n"); l.step("lop get l -1..0\r\n"); l.step(lopi("l", -1, "z")); l.step(lopi("l", 0, "y")); l.step("lop get l 0..-1\r\n"); l.step("getattr l count\r\n"); ctx.trace(); ctx.distinct(mc::hash(l.m.canon()));
        if (ctx.case_index() % 1999 == 0) ctx.sample("list of " + S(n) + ": range " + r + " op " + S(op) + " -> " + l.last_rep);
        drop(l, "l");
    }
}
SUITE("C06", list_long, "asan", BOTH) { // element lengths and long lists
    mc::boot_std(); Lock l(ctx); l.connect(); l.m.lim.max_elem = 16384;
    vector<int> lens; for (int i = 0; i <= 300; i++) lens.push_back(i); for (int b : {512, 1024, 2048, 4096, 8192, 16384}) for (int d = -12; d <= 12; d++) lens.push_back(b + d - 8);
    for (int n : lens) { if (!ctx.mine()) continue; if (n < 0) continue; l.begin(); l.step("lop create l 1 0 10\r\n"); l.step(lopi("l", 0, blob(n, n))); if (n <= 16382) { l.step(lopi("l", -1, blob((n * 7) % 300, 3))); l.step(lopi("l", 1, blob(n, 5))); l.step("lop get l 0..-1\r\n"); l.step("lop delete l 0\r\n"); l.step("lop get l 0..-1\r\n"); } drop(l, "l"); ctx.trace(); ctx.distinct(n); if (n > 16382) { sim::shut(l.c); sim::run(); l.connect(); } }
    for (int n : {50, 200, 501, 1000}) for (int m = 0; m < 8; m++) { if (!ctx.mine()) continue; l.begin(); l.step("lop create l 1 0 5000\r\n");
        for (int i = 0; i < n; i++) l.step(lopi("l", m & 1 ? -1 : 0, S(i))); for (int i = 0; i < 20; i++) { int ix = (i * 37 + m * 11) % n; l.step("lop get l " + S(m & 2 ? ix - n : ix) + "\r\n"); l.step(lopi("l", m & 4 ? -1 - ix : ix, "ins" + S(i))); }
        l.step("lop get l 0..-1\r\n"); l.step("lop get l 10..40 delete\r\n"); l.step("lop delete l " + S(n / 2) + "..-3\r\n"); l.step("lop get l -1..0\r\n"); drop(l, "l"); l.step("~"); ctx.trace(); }
}
// ------------------------------------------------------------------ hash collisions for sets and maps
static uint32_t djb(const string &s) { uint32_t h = 5381; for (signed char c : s) h = ((h << 5) + h) ^ (uint32_t)c; return h; }
// groups of short printable strings: g[0] full 32-bit collisions, then equal low 12 / 8 / 4 bits, then others
static Strs colliding(int want_full, int n) {
    static vector<string> all; if (all.empty()) { string A = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"; for (char a : A) for (char b : A) for (char c : A) all.push_back(string() + a + b + c); }
    static std::map<uint32_t, Strs> by; if (by.empty()) for (auto &s : all) by[djb(s)].push_back(s);
    Strs r; for (auto &p : by) if ((int)p.second.size() >= want_full) { r.assign(p.second.begin(), p.second.begin() + want_full); break; }
    if (r.empty()) r.push_back("abc"); uint32_t h = djb(r[0]); auto add = [&](uint32_t mask, size_t k) { for (auto &s : all) { if (k == 0) return; if ((djb(s) & mask) == (h & mask) && djb(s) != h && std::find(r.begin(), r.end(), s) == r.end()) { bool dup = false; for (auto &x : r) if (djb(x) == djb(s)) dup = true; if (dup) continue; r.push_back(s); k--; } } };
    int left = n - r.size(); add(0xffff, left / 4); add(0xfff, left / 4 + (left % 4 > 0)); add(0xff, left / 4 + (left % 4 > 1)); add(0xf, n - r.size()); return r;
}
template <class F> static void perms(int n, F f) { vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do f(p); while (std::next_permutation(p.begin(), p.end())); }
// ------------------------------------------------------------------ C07
SUITE("C07", set_seq, "small", BOTH) {
    mc::boot_std(); Spec s; Strs e = colliding(3, 5);
    for (auto &x : e) { s.alpha.push_back(sopi("s", x, "create 1 0 0")); s.alpha.push_back(sopi("s", x, "", "delete")); }
    for (auto &x : Strs{"sop get s 1 delete\r\n", "sop get s 2 drop\r\n", "sop get s 0 delete\r\n", "delete s\r\n", "sop create s 9 0 3\r\n"}) s.alpha.push_back(x);
    s.alpha.push_back(sopi("s", e[0], "drop", "delete"));
    for (auto &x : e) s.observe.push_back(sopi("s", x, "", "exist")); s.observe.push_back("sop get s 0\r\n"); s.observe.push_back("sop get s 2\r\n"); s.observe.push_back("getattr s count\r\n"); s.cleanup = {"delete s\r\n"}; s.depth = ctx.thorough ? 6 : 5;
    all_sequences(ctx, s);
}
static void set_case(mc::Ctx &ctx, Lock &l, const Strs &e, const vector<int> &ins, const vector<int> &del) {
    l.begin(); l.step("sop create s 1 0 0\r\n");
    for (int i : ins) l.step(sopi("s", e[i])); l.step("sop get s 0\r\n");
    for (int i : del) { l.step(sopi("s", e[i], "", "delete")); l.step(sopi("s", e[i], "", "exist")); l.step("sop get s 0\r\n"); }
    for (auto &x : e) l.step(sopi("s", x, "", "exist")); for (auto &x : e) l.step(sopi("s", x)); for (size_t c = 1; c <= e.size() + 1; c++) l.step("sop get s " + S(c) + "\r\n");
    l.step("sop get s " + S(e.size() / 2) + " delete\r\n"); for (auto &x : e) l.step(sopi("s", x, "", "exist")); l.step("sop get s 0 drop\r\n"); l.step("getattr s\r\n"); drop(l, "s"); ctx.trace(); ctx.distinct(mc::hash(string(ins.begin(), ins.end()) + "|" + string(del.begin(), del.end())));
}
SUITE("C07", set_perm, "asmall", BOTH) { // all insertion orders of colliding members, all deletion subsets
    mc::boot_std(); Lock l(ctx); l.connect(); int n = ctx.thorough ? 7 : 6; Strs e = colliding(2, n);
    ctx.note_bound(mc::fmt("all insertion orders of %d members that share 32/16/12/8/4 hash bits x all %d deletion subsets (in insertion order)", n, 1 << n));
    perms(n, [&](const vector<int> &p) { for (int m = 0; m < (1 << n); m++) { if (n == 7 && __builtin_popcount(m) % 3) continue; if (!ctx.mine()) continue; vector<int> d; for (int i = 0; i < n; i++) if (m >> i & 1) d.push_back(p[n - 1 - i]); set_case(ctx, l, e, p, d); } });
}
SUITE("C07", set_big, "asan", BOTH) { // sizes around node splits and merges with the shipped node sizes
    mc::boot_std(); Lock l(ctx); l.connect(); vector<int> ns; for (int i = 0; i <= (ctx.thorough ? 400 : 140); i++) ns.push_back(i); for (int x : {500, 1000, 2000}) ns.push_back(x);
    ctx.note_bound("every size 0.." + S(ctx.thorough ? 400 : 140) + " and 500/1000/2000, ordinary and hash-colliding members, 3 deletion orders, get of every count class");
    for (int n : ns) for (int kind = 0; kind < 2; kind++) for (int ord = 0; ord < 3; ord++) { if (!ctx.mine()) continue; l.begin(); Strs e;
        if (kind == 0) for (int i = 0; i < n; i++) e.push_back("member-" + S(i) + string(i % 23, 'x')); else e = n ? colliding(2, std::max(n, 3)) : Strs{}; 
        l.step("sop create s 1 0 5000\r\n"); for (auto &x : e) l.step(sopi("s", x)); if (!e.empty()) l.step(sopi("s", e[n / 2]));
        l.step("sop get s 0\r\n"); for (int c : {1, 2, n / 3, n - 1, n, n + 1}) if (c > 0 && c <= 1000) l.step("sop get s " + S(c) + "\r\n");
        for (size_t i = 0; i < e.size(); i++) { size_t j = ord == 0 ? i : ord == 1 ? e.size() - 1 - i : (i * 7 + 3) % e.size(); if (i % 3 != 2) l.step(sopi("s", e[j], "", "delete")); }
        for (auto &x : e) l.step(sopi("s", x, "", "exist")); l.step("sop get s 0\r\n"); l.step("getattr s count\r\n"); if (n / 4) l.step("sop get s " + S(n / 4) + " delete\r\n"); l.step("sop get s 0\r\n"); for (auto &x : e) l.step(sopi("s", x)); l.step("sop get s 0 delete\r\n"); l.step("sop get s 0\r\n"); drop(l, "s"); l.step("~"); ctx.trace(); ctx.distinct(n * 8 + kind * 3 + ord);
    }
    for (int n = 0; n <= 700; n++) { if (!ctx.mine()) continue; l.begin(); l.step("sop create s 1 0 10\r\n"); string v = blob(n * (n > 300 ? 23 : 1), n); l.step(sopi("s", v)); l.step(sopi("s", v)); string w = v; if (n) w[n - 1] ^= 1; l.step(sopi("s", w)); l.step(sopi("s", v, "", "exist")); l.step("sop get s 0\r\n"); l.step(sopi("s", v, "", "delete")); l.step(sopi("s", w, "", "exist")); drop(l, "s"); ctx.trace(); }
}
// ------------------------------------------------------------------ C08
SUITE("C08", map_seq, "small", BOTH) {
    mc::boot_std(); Spec s; Strs e = colliding(2, 4);
    for (auto &x : e) { s.alpha.push_back(mopi("m", x, "v", "create 1 0 0")); s.alpha.push_back(mopg("m", {x}, "", "delete")); }
    s.alpha.push_back(mopi("m", e[0], "longer value", "", "upsert")); s.alpha.push_back(mopi("m", e[1], "", "create 2 0 3", "upsert")); s.alpha.push_back(mopi("m", e[0], "uu", "", "update")); s.alpha.push_back(mopi("m", e[3], "w", "", "update"));
    s.alpha.push_back(mopg("m", {e[0], e[2]}, "delete")); s.alpha.push_back(mopg("m", {}, "drop", "delete")); s.alpha.push_back(mopg("m", {e[3], e[1]}, "drop", "get")); s.alpha.push_back("delete m\r\n");
    s.observe = {mopg("m", {}), mopg("m", e), mopg("m", {e[2]}), mopg("m", {e[3], e[0]}), "getattr m count\r\n"}; s.cleanup = {"delete m\r\n"}; s.depth = ctx.thorough ? 6 : 5;
    all_sequences(ctx, s);
}
SUITE("C08", map_perm, "asmall", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect(); int n = ctx.thorough ? 7 : 6; Strs e = colliding(2, n);
    ctx.note_bound(mc::fmt("all insertion orders of %d fields that share hash bits x all deletion subsets, single and batch", n));
    perms(n, [&](const vector<int> &p) { for (int m = 0; m < (1 << n); m++) { if (n == 7 && __builtin_popcount(m) % 3) continue; if (!ctx.mine()) continue; l.begin(); l.step("mop create m 1 0 0\r\n");
        for (int i : p) l.step(mopi("m", e[i], "v" + S(i))); l.step(mopg("m", {})); Strs d; for (int i = 0; i < n; i++) if (m >> i & 1) d.push_back(e[p[n - 1 - i]]);
        l.step(mopi("m", e[p[0]], "a longer replacement value", "", "update")); l.step(mopi("m", e[p[n - 1]], "", "", "upsert"));
        if (p[0] % 2 && !d.empty()) l.step(mopg("m", d, "", p[1] % 2 ? "delete" : "get")); if (p[0] % 2 == 0) for (auto &x : d) { l.step(mopg("m", {x}, "", "delete")); l.step(mopg("m", {})); } else if (!d.empty()) l.step(mopg("m", d, "delete"));
        l.step(mopg("m", {})); l.step(mopg("m", e)); for (auto &x : e) l.step(mopi("m", x, "again")); l.step(mopg("m", {})); l.step(mopg("m", {}, "drop", "get")); l.step("getattr m\r\n"); drop(l, "m"); ctx.trace(); ctx.distinct(mc::hash(string(p.begin(), p.end()) + S(m))); } });
}
SUITE("C08", map_big, "asan", BOTH) {
    mc::boot_std(); Lock l(ctx); l.connect(); vector<int> ns; for (int i = 0; i <= (ctx.thorough ? 400 : 120); i++) ns.push_back(i); for (int x : {500, 1000}) ns.push_back(x);
    ctx.note_bound("every size 0.." + S(ctx.thorough ? 400 : 120) + " and 500/1000, ordinary and colliding fields, values re-sized by update and upsert, field-list and whole reads and deletes; every field length 1..250");
    for (int n : ns) for (int kind = 0; kind < 2; kind++) { if (!ctx.mine()) continue; l.begin(); Strs e; if (kind == 0) for (int i = 0; i < n; i++) e.push_back("field-" + S(i)); else e = n ? colliding(2, std::max(n, 3)) : Strs{};
        l.step("mop create m 1 0 5000\r\n"); for (size_t i = 0; i < e.size(); i++) l.step(mopi("m", e[i], string(i % 17, 'v') + S(i))); l.step(mopg("m", {}));
        for (size_t i = 0; i < e.size(); i += 2) l.step(mopi("m", e[i], string((i * 5) % 40, 'u'), "", i % 4 ? "update" : "upsert")); Strs half; for (size_t i = 0; i < e.size(); i += 3) half.push_back(e[i]); 
        if (!half.empty()) { l.step(mopg("m", half)); l.step(mopg("m", half, "", "delete")); l.step(mopg("m", half)); } l.step(mopg("m", {})); for (size_t i = 1; i < e.size(); i += 3) l.step(mopg("m", {e[i]}, "delete")); l.step("getattr m count\r\n"); for (auto &x : e) l.step(mopi("m", x, "n")); l.step(mopg("m", {}, "delete")); l.step(mopg("m", {})); drop(l, "m"); l.step("~"); ctx.trace(); ctx.distinct(n * 2 + kind); }
    for (int n = 1; n <= 252; n++) { if (!ctx.mine()) continue; if (n > 250) continue; l.begin(); string f(n, 'f'), g = f; g[n - 1] = 'g'; l.step(mopi("m", f, "1", "create 0 0 0")); l.step(mopi("m", g, "2", "create 0 0 0")); l.step(mopg("m", {f})); l.step(mopg("m", {g, f})); l.step(mopg("m", {f}, "", "delete")); l.step(mopg("m", {f})); l.step(mopg("m", {g})); drop(l, "m"); ctx.trace(); }
    // field lists: every list of up to 3 fields out of 3 (repetitions and absent fields included) on every subset of stored fields
    Strs F = {"a", "b", "cc"}; for (int st = 0; st < 8; st++) for (int n = 1; n <= 4; n++) for (int c = 0; c < (int)pow(4, n); c++) for (int op = 0; op < 3; op++) { if (!ctx.mine()) continue; l.begin(); l.step("mop create m 1 0 0\r\n"); for (int i = 0; i < 3; i++) if (st >> i & 1) l.step(mopi("m", F[i], "val" + S(i)));
        Strs q; int x = c; for (int i = 0; i < n; i++) { q.push_back(x % 4 == 3 ? "zz" : F[x % 4]); x /= 4; } bool dup = false; for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < i; j++) if (q[i] == q[j]) dup = true; if (dup && op == 1) { drop(l, "m"); continue; }
        l.step(mopg("m", q, op == 1 ? "delete" : "", op == 2 ? "delete" : "get")); l.step(mopg("m", {})); drop(l, "m"); ctx.trace(); }
}
