// C01-C05: key-value commands, cas, arithmetic, expiration, flush
#include "explore.h"
#include <algorithm>
using namespace ex; using std::string; using std::vector;

static Strs kv_cmds(const string &k) {
    return { kset("set", k, "1", 7), kset("set", k, "hello", 3), kset("add", k, "2", 9), kset("replace", k, "33", 5), kset("append", k, "8", 1), kset("prepend", k, "4", 2),
             "get " + k + "\r\n", "delete " + k + "\r\n", "incr " + k + " 9\r\n", "decr " + k + " 3\r\n", kset("cas", k, "c", 4, 0, "@L(" + k + ")"), "gets " + k + "\r\n", "touch " + k + " 100\r\n" };
}
SUITE("C01", kv_seq, "std", BOTH) {
    mc::boot_std(); Spec s;
    s.alpha = cat({kv_cmds("a"), {"incr a 5 11 0 70\r\n", kset("set", "a", "", 0), kset("set", "b", "bee", 1), "get a b\r\n", "delete b\r\n"}});
    s.observe = {"gets a b\r\n"}; s.cleanup = {"delete a\r\n", "delete b\r\n"}; s.depth = ctx.thorough ? 6 : 5;
    all_sequences(ctx, s);
}
SUITE("C01", kv_bfs, "std", BOTH) { // two keys whose names are prefixes of one another, breadth first
    mc::boot_std(); Spec s; string k1 = "kk", k2 = "k";
    for (auto &k : {k1, k2}) for (auto &c : Strs{kset("set", k, "1", 7), kset("set", k, "", 3), kset("add", k, "22", 9), kset("replace", k, "3", 5), kset("append", k, "8", 1), kset("prepend", k, "4", 2), "delete " + k + "\r\n", "incr " + k + " 9\r\n", "decr " + k + " 100\r\n", kset("cas", k, "0", 4, 0, "@L(" + k + ")"), "gets " + k + "\r\n"}) s.alpha.push_back(c);
    s.alpha.push_back("get k kk k\r\n"); s.alpha.push_back("mget 4 2\r\nkk k\r\n"); s.alpha.push_back("mgets 6 3\r\nk kk k\r\n");
    s.observe = {"get k kk\r\n", "mget 4 2\r\nk kk\r\n"}; s.cleanup = {"delete k\r\n", "delete kk\r\n"}; s.depth = ctx.thorough ? 7 : 6;
    bfs(ctx, s, ctx.thorough ? 400000 : 40000, 0);
}
static string blob(size_t n, int seed) { string v(n, 0); uint32_t x = seed * 2654435761u + 12345; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; v[i] = (char)(x >> 24); } return v; }
SUITE("C01", kv_lengths, "asan", BOTH) { // every value length, and every combination of appended / prepended lengths
    mc::boot_std(); Lock l(ctx); l.connect();
    vector<size_t> lens; for (size_t i = 0; i <= (ctx.thorough ? 20000u : 2600u); i++) lens.push_back(i);
    for (size_t i : {4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 24 * 1024, 65535, 65536, 131072, 262144, 524288, 1000000 - 1}) lens.push_back(i);
    for (size_t i = 1048576 - 600; i < 1048576 + 4; i++) (void)i;
    ctx.note_bound("every value length 0.." + std::to_string(ctx.thorough ? 20000 : 2600) + " and size boundaries up to 1 MB, arbitrary bytes; all pairs of append/prepend lengths 0..40; every key length 1..1100 and lengths around 2^k, 4000 and the limit 16000");
    for (size_t n : lens) { if (!ctx.mine()) continue; l.begin(); string k = "k" + std::to_string(n % 5), v = blob(n, n);
        l.step(kset("set", k, v, n)); l.step("get " + k + "\r\n"); l.step(kset("append", k, "\r\nx", 1)); l.step(kset("prepend", k, "END\r\n", 1)); l.step("gets " + k + "\r\n"); l.step("delete " + k + "\r\n"); l.m.cas.clear(); ctx.trace(); ctx.distinct(n); }
    for (int a = 0; a <= 40; a++) for (int b = 0; b <= 40; b++) { if (!ctx.mine()) continue; l.begin();
        l.step(kset("set", "q", blob(a, 1), 5)); l.step(kset("append", "q", blob(b, 2), 6)); l.step("get q\r\n"); l.step(kset("prepend", "q", blob(a, 3), 6)); l.step("get q\r\n"); l.step("delete q\r\n"); ctx.trace(); }
    vector<size_t> kl; for (size_t n = 1; n <= 1100; n++) kl.push_back(n); for (size_t b : {2048, 4000, 4096, 8192, 15990}) for (size_t d = 0; d < 24; d++) kl.push_back(b - 12 + d);
    for (size_t n : kl) { if (!ctx.mine()) continue; l.begin(); string k(n, 'k'), k2 = k; k2[n - 1] = 'j';
        if (n > 16000) { l.step("get " + k + "\r\n"); l.step("delete " + k + "\r\n"); continue; } l.step(kset("set", k, "v1", 1)); if (n <= 16000) { l.step(kset("set", k2, "v2", 2)); l.step(kset("add", k, "v1", 1)); l.step("get " + k + " " + k2 + "\r\n"); l.step("delete " + k + "\r\n"); l.step("get " + k + " " + k2 + "\r\n"); l.step("delete " + k2 + "\r\n"); l.step("get " + k2 + "\r\n"); } ctx.trace(); }
}
SUITE("C01", kv_manykeys, "std", BOTH) { // many keys at once: index chains hold several keys
    mc::boot_std({"-m", "200"}); Lock l(ctx); l.connect();
    const string A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN:-_.";
    ctx.note_bound("all keys of length 1..3 over " + std::to_string(ctx.thorough ? 44 : 30) + " characters stored together, each then read, replaced or deleted and all re-read");
    if (ctx.worker >= 3 && !getenv("MC_REPLAY")) { for (int i = 0; i < 3; i++) ctx.mine(); return; }
    int na = ctx.thorough ? 44 : 30;
    for (int variant = 0; variant < 3; variant++) { if (!ctx.mine()) continue; l.begin();
        vector<string> ks; for (int a = 0; a < na; a++) { ks.push_back(string(1, A[a])); for (int b = 0; b < na; b++) { ks.push_back(string() + A[a] + A[b]); for (int c = 0; c < na; c++) ks.push_back(string() + A[a] + A[b] + A[c]); } }
        auto st = [&](const string &x) { l.hist.clear(); l.step(x); };
        for (size_t i = 0; i < ks.size(); i++) st(kset("set", ks[i], std::to_string(i), i));
        for (size_t i = 0; i < ks.size(); i++) { int k = (i + variant) % 3; if (k == 0) st("delete " + ks[i] + "\r\n"); else if (k == 1) st(kset("append", ks[i], "+", 0)); else st("get " + ks[i] + "\r\n"); }
        for (size_t i = ks.size(); i-- > 0;) st("get " + ks[i] + "\r\n");
        for (size_t i = 0; i < ks.size(); i++) st("delete " + ks[(i * 7919) % ks.size()] + "\r\n");
        for (size_t i = 0; i < ks.size(); i++) st("get " + ks[i] + "\r\n");
        ctx.trace(); ctx.state(variant + 1);
    }
}
// ------------------------------------------------------------------ C02
SUITE("C02", cas_seq, "std", BOTH) {
    mc::boot_std(); Spec s;
    s.alpha = {"gets a\r\n", "mgets 3 2\r\na b\r\n", kset("cas", "a", "1", 1, 0, "@L(a)"), kset("cas", "a", "2", 2, 0, "@F(a)"), kset("set", "a", "1", 1), kset("add", "a", "1", 1), kset("replace", "a", "1", 1), kset("append", "a", "5", 1), kset("prepend", "a", "", 1), "incr a 0\r\n", "incr a 1\r\n", "decr a 1\r\n",
               "delete a\r\n", "get a\r\n", "touch a 1000\r\n", "setattr a expiretime=2000\r\n", kset("set", "b", "1", 1), "getattr a\r\n", kset("cas", "a", "", 3, 0, "@L(b)")};
    s.init = {kset("set", "b", "1", 1), kset("set", "a", "1", 1), "gets a b\r\n"};
    s.observe = {"gets a\r\n", kset("cas", "a", "z", 1, 0, "@F(a)"), kset("cas", "a", "y", 1, 0, "@L(a)"), "gets a b\r\n"}; s.cleanup = {"delete a\r\n", "delete b\r\n"};
    s.depth = ctx.thorough ? 5 : 4; s.all_lengths = true;
    all_sequences(ctx, s);
}
SUITE("C02", cas_misc, "std", BOTH) { // collections, expiry, flush, wrong tokens and the token of another key
    mc::boot_std(); Spec s;
    s.alpha = {"gets a\r\n", kset("cas", "a", "1", 1, 0, "@L(a)"), kset("cas", "a", "1", 1, 3, "@L(a)"), "+2", "flush_all\r\n", "flush_prefix p\r\n", "delete a\r\n", "lop create a 0 0 10\r\n", kset("cas", "a", "1", 1, 0, "0"), kset("cas", "a", "1", 1, 0, "18446744073709551615"), kset("set", "a", "12", 1), kset("cas", "a", "x", 1, 0, "@F(a)"),
               kset("set", "p:a", "1"), kset("cas", "p:a", "2", 0, 0, "@L(p:a)"), "gets p:a\r\n", "touch a 1\r\n"};
    s.init = {kset("set", "a", "1", 1), "gets a\r\n"};
    s.observe = {"gets a p:a\r\n", kset("cas", "a", "y", 1, 0, "@L(a)"), kset("cas", "p:a", "y", 1, 0, "@L(p:a)"), "gets a p:a\r\n"}; s.cleanup = {"delete a\r\n", "delete p:a\r\n"};
    s.depth = ctx.thorough ? 5 : 4;
    all_sequences(ctx, s);
}
// ------------------------------------------------------------------ C03
SUITE("C03", arith_values, "asan", BOTH) { // value x operation x delta
    mc::boot_std(); Lock l(ctx); l.connect();
    Strs vals, deltas; string p10 = "1";
    for (int i = 0; i <= 1100; i++) vals.push_back(std::to_string(i));
    for (int i = 1; i <= 19; i++) { p10 += "0"; uint64_t v; if (!model::parse_u64(p10, v)) break; for (int d = -2; d <= 2; d++) vals.push_back(std::to_string(v + d)); vals.push_back(std::to_string(v * 9 / 10)); }
    for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) vals.push_back(std::to_string((1ull << i) + d));
    for (uint64_t d = 0; d < 4; d++) vals.push_back(std::to_string(UINT64_MAX - d));
    for (auto &x : {"0", "1", "2", "8", "9", "10", "11", "99", "100", "999", "1000", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "9999999999999999999", "10000000000000000000"}) deltas.push_back(x);
    ctx.note_bound(mc::fmt("%zu stored numbers x %zu deltas x incr/decr, value read back (flags kept)", vals.size(), deltas.size()));
    for (auto &v : vals) for (auto &d : deltas) for (auto op : {"incr", "decr"}) { if (!ctx.mine()) continue; l.begin();
        l.step(kset("set", "n", v, 77)); l.step(string(op) + " n " + d + "\r\n"); l.step("get n\r\n"); l.step(string(op == string("incr") ? "decr" : "incr") + " n " + d + "\r\n"); l.step("get n\r\n"); ctx.trace(); ctx.distinct(mc::hash(v + op + d));
        if (ctx.case_index() % 9001 == 0) ctx.sample(string(op) + " " + v + " by " + d + " -> " + l.last_rep); }
    // every short byte string as a value: accepted exactly when it is a decimal number
    const string A = "05 9-+\n\t.xa"; vector<string> w{""}; size_t from = 0;
    for (int n = 1; n <= (ctx.thorough ? 4 : 3); n++) { size_t to = w.size(); for (size_t i = from; i < to; i++) for (char c : A) w.push_back(w[i] + c); from = to; }
    for (auto &x : {"18446744073709551616", "18446744073709551619", "99999999999999999999", "184467440737095516150", "00000000000000000000001", "0000000000000000000000000000000000000000000000000000007", "-1", "-18446744073709551615", "1e3", "0x10", "1 2", "12\r\n", "12 ", " 12"}) w.push_back(x);
    l.pre = "nonnumber";
    for (auto &v : w) for (auto op : {"incr", "decr"}) { if (!ctx.mine()) continue; l.begin(); l.step(kset("set", "w", v, 3)); l.step(string(op) + " w 1\r\n"); l.step("get w\r\n"); l.step(kset("set", "w-neighbour", "-", 3)); l.step(kset("set", "w", v, 3)); l.step(string(op) + " w 0\r\n"); l.step("get w\r\n"); ctx.trace(); ctx.distinct(mc::hash("w" + v)); }
    // malformed deltas
    for (auto &v : w) { if (!ctx.mine() || v.find_first_of("\n\r\t+") != string::npos || v.find(' ') != string::npos || v.empty()) continue; l.begin(); l.step(kset("set", "w", "10", 3)); l.step("incr w " + v + "\r\n"); l.step("decr w " + v + "\r\n"); l.step("get w\r\n"); ctx.trace(); }
}
SUITE("C03", arith_seq, "std", BOTH) {
    mc::boot_std(); Spec s;
    s.alpha = {"incr a 1\r\n", "incr a 95\r\n", "incr a 18446744073709551615\r\n", "decr a 1\r\n", "decr a 7\r\n", "decr a 18446744073709551615\r\n", "incr b 4 9 0 99\r\n", "decr b 4 8 0 5\r\n", "incr b 1 8 0 18446744073709551615\r\n", kset("append", "a", "0"), kset("prepend", "a", "9"), "delete b\r\n", kset("set", "a", "99", 3), kset("set", "a", "", 3), "incr l 1\r\n", "decr l 1 0 0 5\r\n", "get a\r\n"};
    s.init = {kset("set", "a", "9", 3), kset("lop insert", "l", "5", 0, 0).substr(0, 0) + "lop create l 0 0 10\r\n"};
    s.observe = {"gets a b\r\n", "getattr l type count\r\n"}; s.cleanup = {"delete a\r\n", "delete b\r\n", "delete l\r\n"};
    s.depth = ctx.thorough ? 5 : 4; s.all_lengths = true;
    all_sequences(ctx, s);
}
// ------------------------------------------------------------------ C04
static const char *ITEMS4[][2] = {{"set", ""}, {"lop", "lop create "}, {"sop", "sop create "}, {"mop", "mop create "}, {"bop", "bop create "}};
SUITE("C04", expire_grid, "std", BOTH) { // item type x way of setting the time x value x moment of observation x observing command
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); int64_t now = sim::now_s();
    vector<int64_t> ex = {0, 1, 2, 3, 5, 59, 60, 61, 100, 2592000, 2592001, -1, -2, -100};
    vector<long> rel = {0, 1, 2, 3, 60, 2592000 + 5};     // absolute: now + rel
    Strs obs = {"get K\r\n", "getattr K expiretime\r\n", kset("add", "K", "new"), kset("replace", "K", "new"), kset("append", "K", "x"), "incr K 1\r\n", "delete K\r\n", "touch K 0\r\n", "setattr K expiretime=0\r\n", kset("cas", "K", "x", 0, 0, "@L(K)"), "lop get K 0\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..10\r\n", "lop create K 0 0 0\r\n", "lop insert K 0 1 create 0 0 0\r\n1\r\n", "bop insert K 1 1\r\n1\r\n", "bop mget 1 1 0..5 10\r\nK\r\n", "bop smget 1 1 0..5 10 duplicate\r\nK\r\n", "mget 1 1\r\nK\r\n"};
    Strs ways = {"create", "touch", "setattr", "replace"};
    ctx.note_bound(mc::fmt("5 item types x %zu ways of setting the time x %zu relative and %zu absolute times x 3 observation moments around the instant x %zu observing commands", ways.size(), ex.size(), rel.size(), obs.size()));
    for (int ty = 0; ty < 5; ty++) for (auto &w : ways) for (size_t ei = 0; ei < ex.size() + rel.size(); ei++) for (int mom = 0; mom < 3; mom++) for (auto &o0 : obs) {
        if (!ctx.mine()) continue; l.begin(); int64_t cur = sim::now_s(); l.m.now = cur; l.m.cas.clear();
        int64_t e = ei < ex.size() ? ex[ei] : cur + rel[ei - ex.size()], at = ei < ex.size() ? (e > 2592000 ? e : e > 0 ? cur + e : cur) : e;
        long wait = at - cur; if (wait > 3000) wait = ctx.thorough ? wait : 3000; if (wait < 0) wait = 0;
        auto create = [&](int64_t t) { return ty == 0 ? kset("set", "K", "5", 1, t) : string(ITEMS4[ty][1]) + "K 1 " + std::to_string(t) + " 0\r\n"; };
        string es = std::to_string(e);
        if (w == "create") l.step(create(e)); else if (w == "touch") { l.step(create(e == -1 ? -1 : 50)); l.step("touch K " + es + "\r\n"); }
        else if (w == "setattr") { l.step(create(e == -1 ? -1 : 50)); l.step("setattr K expiretime=" + es + "\r\n"); }
        else { l.step(create(50)); if (ty == 0) l.step(kset("set", "K", "5", 1, e)); else { l.step("delete K\r\n"); l.step(create(e)); } }
        if (ty == 0) l.step("gets K\r\n"); else l.step("getattr K type\r\n");
        long t = mom == 0 ? (wait > 0 ? wait - 1 : 0) : mom == 1 ? wait : wait + 1; if (t > 0) l.step("+" + std::to_string(t));
        l.step(o0); l.step("get K\r\n"); l.step("getattr K\r\n"); l.step("delete K\r\n"); l.step("getattr K type\r\n");
        sim::rpc(l.c, "delete K\r\n"); ctx.trace(); ctx.distinct(mc::hash(l.m.canon() + l.last_rep + o0 + es + w));
        if (ctx.case_index() % 5003 == 7) ctx.sample(w + " " + ITEMS4[ty][0] + " expire " + es + " observed +" + std::to_string(t) + " by " + mc::esc(o0));
    } (void)now;
}
SUITE("C04", expire_seq, "std", BOTH) {
    mc::boot_std({"-g", "10"}); Spec s;
    s.alpha = {kset("set", "a", "1", 1, 2), kset("set", "a", "2", 1, 0), kset("set", "a", "2", 1, -1), "touch a 1\r\n", "touch a 0\r\n", "touch a -1\r\n", "setattr a expiretime=3\r\n", "+1", "+2", "get a\r\n", kset("append", "a", "x"), "incr a 1\r\n", kset("add", "a", "9", 2, 1), kset("replace", "a", "8", 2, 1), "delete a\r\n", "bop create a 0 2 10\r\n", "bop insert a 1 1 create 0 1 10\r\nz\r\n"};
    s.observe = {"getattr a\r\n", "get a\r\n", "+1", "getattr a\r\n", "get a\r\n", "+1", "getattr a\r\n"}; s.cleanup = {"delete a\r\n"}; s.depth = ctx.thorough ? 5 : 4; s.all_lengths = true;
    all_sequences(ctx, s);
}
// ------------------------------------------------------------------ C05
static Strs flush_obs = {"getattr a\r\n", "getattr p:a\r\n", "getattr p:\r\n", "getattr q:b\r\n", "getattr pp:c\r\n", "getattr p:x:y\r\n", "mget 15 4\r\na p:a q:b p:x:y\r\n"};
SUITE("C05", flush_seq, "std", BOTH) {
    mc::boot_std(); Spec s;
    s.alpha = {kset("set", "a", "1"), kset("set", "p:a", "1"), kset("set", "p:x:y", "5"), "lop create q:b 0 0 0\r\n", kset("set", "pp:c", "1"), kset("set", "p:", "1"), "flush_all\r\n", "flush_prefix p\r\n", "flush_prefix q\r\n", "flush_prefix <null>\r\n", "+1", "+2", "delete p:a\r\n", "get a p:a\r\n"};
    s.observe = flush_obs; s.cleanup = {"delete a\r\n", "delete p:a\r\n", "delete p:\r\n", "delete q:b\r\n", "delete pp:c\r\n", "delete p:x:y\r\n", "+3"}; s.depth = ctx.thorough ? 6 : 5;
    all_sequences(ctx, s);
}
SUITE("C05", flush_delay, "std", BOTH) {
    mc::boot_std(); Spec s; // z:k and the sticky p:keep / keep hold the prefixes, so that pending flushes stay known
    s.alpha = {kset("set", "a", "1"), kset("set", "p:a", "1"), "flush_all 3\r\n", "flush_prefix p 3\r\n", "flush_all\r\n", "flush_prefix p\r\n", "+1", "+2", "+3", "get a p:a\r\n", "flush_all 5\r\n", "flush_prefix p 5\r\n", "flush_prefix <null> 3\r\n"};
    s.init = {};
    s.observe = {"getattr a\r\n", "getattr p:a\r\n", "+2", "getattr a\r\n", "getattr p:a\r\n", kset("set", "a", "n"), kset("set", "p:a", "n"), "getattr a\r\n", "getattr p:a\r\n"};
    s.cleanup = {"+10", "flush_all\r\n", "+3"}; s.depth = ctx.thorough ? 6 : 5;
    // prefix objects disappear with their last item; keep one alive in each sequence by a fresh item after cleanup
    s.init = {kset("set", "p:keep", "1"), kset("set", "keep", "1")};
    // storing in the very second in which a delayed flush takes effect: either outcome (one second clock)
    // a pending flush of a prefix is forgotten with the prefix itself: do not combine the two scopes while one is pending
    s.skip = [](Lock &l, const string &c) { auto pend = [&](const char *k) { auto f = l.m.flush.find(k); return f != l.m.flush.end() && f->second >= l.m.now; };
        if (c.compare(0, 9, "flush_all") == 0) return pend("p:p") || pend("p:"); if (c.compare(0, 12, "flush_prefix") == 0) { l.m.expire_all(); return pend("*") || !l.m.kv.count("p:keep") || !l.m.kv.count("keep"); } if (c.compare(0, 4, "set ") != 0) return false; string k = model::split(c)[1], p = "p:" + model::prefix_of(k); for (auto *mp : {&l.m.flush, &l.m.flushed}) for (auto &sc : {string("*"), p}) { auto f = mp->find(sc); if (f != mp->end() && f->second == l.m.now) return true; } return false; };
    all_sequences(ctx, s);
}
