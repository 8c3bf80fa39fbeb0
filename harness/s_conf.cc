// C37: the config command: reports, documented ranges, enforcement
#include <cstring>
#include "alpha.h"
#include "persist.h"
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
typedef unsigned long long u64;
const Strs &keys() { static const Strs k = {"verbosity", "memlimit", "sticky_limit", "maxconns", "max_list_size", "max_set_size", "max_map_size", "max_btree_size", "max_element_bytes", "scrub_count", "max_stats_prefixes"}; return k; }
bool num(const string &s, bool neg, long long lo, long long hi, long long &v) {
    size_t i = 0; bool m = false; if (i < s.size() && s[i] == '-' && neg) { m = true; i++; } if (i >= s.size()) return false; __int128 x = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > (__int128)1 << 70) return false; } if (m) x = -x; if (x < lo || x > hi) return false; v = (long long)x; return true;
}
struct Conf {
    std::map<string, long long> v; mc::Ctx &ctx; Lock &l; Conf(mc::Ctx &c, Lock &k) : ctx(c), l(k) {}
    string raw(const string &s) { l.hist.push_back({s, ""}); string r = sim::rpc(l.c, s); l.hist.back().second = r.substr(0, 300); ctx.evals(); return r; }
    bool fail(const string &k, const string &m) { l.fail(k, m); return false; }
    long long stat(const string &cmd, const string &n) { string r = sim::rpc(l.c, cmd); size_t p = r.find("STAT " + n + " "); return p == string::npos ? -1 : atoll(r.c_str() + p + n.size() + 6); }
    bool read_all(bool first) {
        for (auto &k : keys()) { string r = raw("config " + k + "\r\n"); string pre = k + " "; long long x; if (r.compare(0, pre.size(), pre) || r.size() < pre.size() + 7 || r.substr(r.size() - 7) != "\r\nEND\r\n" || !num(r.substr(pre.size(), r.size() - 7 - pre.size()), true, INT64_MIN / 2, INT64_MAX / 2, x)) return fail("query", "config " + k + ": " + r); if (first) v[k] = x; else if (v[k] != x) return fail("reported:" + k, "config " + k + mc::fmt(" reports %lld instead of %lld", x, v[k])); }
        string s = raw("stats settings\r\n"); auto at = [&](const char *n) { size_t p = s.find(string("STAT ") + n + " "); return p == string::npos ? -99ll : atoll(s.c_str() + p + strlen(n) + 6); };
        struct { const char *st, *k; long long mul; } T[] = {{"verbosity", "verbosity", 1}, {"maxbytes", "memlimit", 1 << 20}, {"maxconns", "maxconns", 1}, {"max_list_size", "max_list_size", 1}, {"max_set_size", "max_set_size", 1}, {"max_map_size", "max_map_size", 1}, {"max_btree_size", "max_btree_size", 1}, {"max_element_bytes", "max_element_bytes", 1}, {"scrub_count", "scrub_count", 1}, {"max_stats_prefixes", "max_stats_prefixes", 1}};
        for (auto &t : T) { long long x = at(t.st); if (x != v[t.k] * t.mul) return fail(string("stats:") + t.k, mc::fmt("stats settings shows %s %lld instead of %lld", t.st, x, v[t.k] * t.mul)); }
        l.m.lim.max_list = v["max_list_size"]; l.m.lim.max_set = v["max_set_size"]; l.m.lim.max_map = v["max_map_size"]; l.m.lim.max_btree = v["max_btree_size"]; l.m.lim.max_elem = v["max_element_bytes"]; return true;
    }
    // one change; every acceptable outcome is decided from the documentation
    bool set(const string &k, const string &val) {
        string r = raw("config " + k + (val.empty() ? "" : " " + val) + "\r\n"); long long x; const string BAD = "CLIENT_ERROR bad command line format\r\n", BV = "CLIENT_ERROR bad value\r\n", OK = "END\r\n"; string want; long long nv = v.count(k) ? v[k] : 0; bool either = false; size_t sp = val.find(' ');
        auto range = [&](long long lo, long long hi) { if (x < lo || x > hi) want = BV; else { want = OK; nv = x; } };
        if (sp != string::npos) want = BAD;
        else if (!v.count(k)) want = BAD;
        else if (k.compare(0, 4, "max_") == 0 && k.find("_size") != string::npos) { if (!num(val, true, INT32_MIN, INT32_MAX, x)) want = BAD; else { long long e = x < 0 || x > 1000000 ? 1000000 : x; if (e > v[k]) { want = OK; nv = e; if (e != x) either = true; } else want = BV; } }
        else if (k == "maxconns") { if (!num(val, true, INT32_MIN, INT32_MAX, x)) want = BAD; else { long long cur = stat("stats\r\n", "curr_connections"); nv = x; const string OOR = "CLIENT_ERROR the value is out of range\r\n", LIM = "SERVER_ERROR cannot change to the maxconns over the soft limit\r\n"; if (x > 1000000 || x + 30 < 1.1 * cur - 1) want = OOR; else if (x >= 1.1 * cur && x <= 500) want = OK; else want = r == OK || (r == OOR && (x < 1.1 * cur || x > 900000)) || (r == LIM && x > 500) ? r : OK; if (want != OK) nv = v[k]; } }
        else if (!num(val, false, 0, 4294967295ll, x)) want = BAD;
        else if (k == "verbosity") { if (x > 2) want = "SERVER_ERROR cannot change the verbosity over the limit\r\n"; else { want = OK; nv = x; } }
        else if (k == "memlimit") { long long used = stat("stats slabs\r\n", "total_malloced"); if (x * 1048576 < used || x < v["sticky_limit"]) want = BV; else if (x * 1048576 >= used * 1.2 + 4194304) { want = OK; nv = x; } else { want = r == OK ? OK : BV; if (r == OK) nv = x; } }
        else if (k == "sticky_limit") { long long sb = stat("stats\r\n", "sticky_bytes"); if (x > v["memlimit"] || x * 1048576 < sb) want = BV; else { want = OK; nv = x; } }
        else if (k == "max_element_bytes") range(1024, 32768);
        else if (k == "scrub_count") range(16, 320);
        else { want = OK; nv = x; }
        if (r != want && !(either && r == BV)) return fail("reply:" + k, "expected " + mc::esc(want));
        if (r == OK && v.count(k)) v[k] = nv; if (either && r == BV) {}
        return read_all(false);
    }
    // what later commands enforce
    bool enforce() {
        struct T { const char *k, *cr, *g; } t[] = {{"max_list_size", "lop create ZZ 0 0 ", "list"}, {"max_set_size", "sop create ZZ 0 0 ", "set"}, {"max_map_size", "mop create ZZ 0 0 ", "map"}, {"max_btree_size", "bop create ZZ 0 0 ", "b+tree"}};
        for (auto &x : t) for (long long d : {-1, 0, 1}) { long long n = v[x.k] + d; if (n < 1) continue; if (!l.step(string(x.cr) + mc::fmt("%lld\r\n", n))) return false; if (!l.step("getattr ZZ maxcount\r\n")) return false; string r = l.last_rep; long long got = atoll(r.c_str() + std::min(r.size(), r.find('=') + 1)); if (got != std::min(n, v[x.k])) return fail(string("enforced:") + x.k, mc::fmt("a collection with maxcount %lld got %lld while the limit is %lld", n, got, v[x.k])); if (!l.step(mc::fmt("setattr ZZ maxcount=%lld\r\n", v[x.k] + 5)) || !l.step("getattr ZZ maxcount\r\n") || !l.step("delete ZZ\r\n")) return false; }
        long long e = v["max_element_bytes"]; for (long long n : {e - 3, e - 2, e - 1, e}) { string d(n, 'x'), len = mc::fmt("%lld", n); for (string c : {"lop insert ZZ 0 " + len + " create 0 0 5\r\n", "sop insert ZZ " + len + " create 0 0 5\r\n", "mop insert ZZ f " + len + " create 0 0 5\r\n", "bop insert ZZ 1 " + len + " create 0 0 5\r\n"}) { if (!l.step(c + d + "\r\n")) return false; if (l.m.kv.count("ZZ") && !l.step("delete ZZ\r\n")) return false; } }
        long long p = v["max_stats_prefixes"]; if (p <= 60) { long long n = 0; for (; n < p && n < 60; n++) if (!l.step(mc::fmt("set p%lld:k 0 0 1\r\nx\r\n", n))) return false; string r = raw("stats prefixes\r\n"); if (r.find("too many") != string::npos) return fail("enforced:prefixes", mc::fmt("stats prefixes refused with %lld prefixes", n)); r = raw("stats prefixlist item\r\n"); if (r.find("too many") != string::npos) return fail("enforced:prefixes", mc::fmt("stats prefixlist refused with %lld prefixes", n)); if (!l.step(mc::fmt("set p%lld:k 0 0 1\r\nx\r\n", n))) return false; r = raw("stats prefixes\r\n"); if (r != "CLIENT_ERROR invalid: too many prefixes\r\n") return fail("enforced:prefixes", mc::fmt("stats prefixes not refused with %lld prefixes", n + 1)); r = raw("stats prefixlist item\r\n"); if (r != "CLIENT_ERROR invalid: too many prefixes\r\n") return fail("enforced:prefixes", mc::fmt("stats prefixlist not refused with %lld prefixes: ", n + 1) + r.substr(0, 100)); for (long long i = 0; i <= n; i++) if (!l.step(mc::fmt("delete p%lld:k\r\n", i))) return false; }
        else { for (int i = 0; i < 61; i++) if (!l.step(mc::fmt("set p%d:k 0 0 1\r\nx\r\n", i))) return false; string r = raw("stats prefixes\r\n"); if (r.find("too many") != string::npos) return fail("enforced:prefixes", "stats prefixes refused"); for (int i = 0; i < 61; i++) if (!l.step(mc::fmt("delete p%d:k\r\n", i))) return false; }
        long long mx = v["maxconns"]; if (mx <= 60) { vector<int> cs; for (int i = 0; i < 80; i++) { int c = sim::connect("10.1.2.3"); sim::run(); cs.push_back(c); if (sim::closed(c)) break; } long long cur = stat("stats\r\n", "curr_connections"); if (!sim::closed(cs.back())) return fail("enforced:maxconns", mc::fmt("80 more connections accepted with maxconns %lld", mx)); if (cs.size() > 1 && cur != mx) return fail("enforced:maxconns", mc::fmt("connections are refused at %lld with maxconns %lld", cur, mx)); for (int c : cs) { if (!sim::closed(c)) sim::shut(c); } sim::run(); for (int i = 0; i < 3; i++) sim::advance_s(1); l.m.now = sim::now_s(); int c = sim::connect("10.1.2.3"); sim::run(); if (cs.size() > 1 && sim::closed(c)) return fail("enforced:maxconns", "no connection is accepted after the others have gone"); if (!sim::closed(c)) sim::shut(c); sim::run(); }
        return true;
    }
    bool fill() { // memory limits
        long long mb = v["memlimit"]; if (mb > 80 || mb == 0) return true; string val(100000, 'v'); int n = mb * 1048576 / 100000 + 60; for (int i = 0; i < n; i++) { string r = sim::rpc(l.c, mc::fmt("set F%d 0 0 100000\r\n", i) + val + "\r\n"); if (r != "STORED\r\n") return fail("enforced:memlimit", "set: " + r); } ctx.evals(n); long long used = stat("stats slabs\r\n", "total_malloced"), evict = stat("stats\r\n", "evictions"), lim = stat("stats\r\n", "limit_maxbytes"); if (lim != mb * 1048576) return fail("stats:limit", mc::fmt("limit_maxbytes is %lld with a limit of %lld MB", lim, mb)); if (used > mb * 1048576) return fail("enforced:memlimit", mc::fmt("%lld bytes allocated with a limit of %lld MB", used, mb)); if (evict <= 0) return fail("enforced:memlimit", "nothing was evicted"); if (used < mb * 1048576 * 7 / 10) return fail("enforced:memlimit", mc::fmt("only %lld bytes used of %lld MB before evicting", used, mb)); return true;
    }
    bool mem_taken = false; bool stick_more() { long long lim = v["sticky_limit"] * 1048576; string val(50000, 'v'); for (int i = 0; i < 1000; i++) { long long sb = stat("stats\r\n", "sticky_bytes"); string r = sim::rpc(l.c, mc::fmt("set S%d 0 -1 50000\r\n", i) + val + "\r\n"); if (r == "STORED\r\n" && sb >= lim) return fail("enforced:sticky_limit", mc::fmt("a sticky item is stored with %lld sticky bytes and a limit of %lld", sb, lim)); if (r != "STORED\r\n") return mem_taken || sb + 200000 >= lim ? true : fail("enforced:sticky_limit", mc::fmt("a sticky item is refused with %lld sticky bytes and a limit of %lld", sb, lim)); } return fail("enforced:sticky_limit", "1000 more sticky items stored"); }
    bool stick() { long long mb = v["sticky_limit"]; if (mb > 20 || mb >= v["memlimit"]) return true; string val(50000, 'v'); int n = mb * 21 + 30, ok = 0; for (int i = 0; i < n; i++) { string r = sim::rpc(l.c, mc::fmt("set S%d 0 -1 50000\r\n", i) + val + "\r\n"); if (r == "STORED\r\n") { if (ok != i) return fail("enforced:sticky_limit", "stored again after the limit"); ok++; } else if (r.compare(0, 12, "SERVER_ERROR")) return fail("enforced:sticky_limit", "set: " + r); } ctx.evals(n); long long sb = stat("stats\r\n", "sticky_bytes"), sl = stat("stats\r\n", "sticky_limit"); if (sl >= 0 && sl != mb * 1048576) return fail("stats:sticky", mc::fmt("sticky_limit is %lld with a limit of %lld MB", sl, mb)); if (sb >= mb * 1048576 + 53000) return fail("enforced:sticky_limit", mc::fmt("%lld sticky bytes with a limit of %lld MB", sb, mb)); if (ok == n || (mb > 0 && sb < mb * 1048576 - 200000)) return fail("enforced:sticky_limit", mc::fmt("%d items of 50000 bytes stored, %lld bytes, with a limit of %lld MB", ok, sb, mb)); return true; }
};
typedef vector<std::pair<string, string>> Hist;
void run_case(mc::Ctx &ctx, const Hist &h, bool enf, int fill, const Strs &args, int extra = 0) {
    ctx.clear_note(); string t = "config history:"; for (auto &x : h) t += " [" + x.first + " " + x.second + "]"; ctx.note(t);
    ctx.isolated([&] { mc::boot_std(args); Lock l(ctx); l.connect(); l.begin(); Conf c(ctx, l); if (!c.read_all(true)) return; for (int i = 0; i < extra; i++) { sim::connect("10.1.2.3"); sim::run(); } for (auto &x : h) { if (!c.set(x.first, x.second)) return; ctx.trans(); } string st; for (auto &x : c.v) st += mc::fmt("%lld,", x.second); ctx.state(mc::hash(st)); if (enf && !c.enforce()) return; if (fill == 1 && !c.fill()) return; if (fill == 2 && !c.stick()) return; if (!c.read_all(false)) return; for (auto &e : sim::sim_errors) { c.fail("sim", e); return; } }, 60); ctx.trace();
}
const Strs &values() { static const Strs v = {"0", "1", "2", "3", "-1", "-2147483648", "-2147483649", "15", "16", "17", "19", "20", "21", "50", "63", "64", "65", "100", "319", "320", "321", "500", "1023", "1024", "1025", "16384", "32767", "32768", "32769", "9999", "10000", "49999", "50000", "50001", "999999", "1000000", "1000001", "2000000", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "5x", "x", "on", "0x10", "1.5", "007", "1 2"}; return v; }
}
SUITE("C37", values, "std", BOTH) {
    ctx.note_bound(mc::fmt("%zu settings (and an unknown one) x %zu values, each followed by all queries, stats settings and what the limits enforce", keys().size(), values().size()));
    auto ks = keys(); ks.push_back("nosuch"); ks.push_back("async_logging"); for (auto &k : ks) for (auto &v : values()) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; run_case(ctx, {{k, v}}, true, k == "memlimit" ? 1 : k == "sticky_limit" ? 2 : 0, {"-g", "10"}); }
}
SUITE("C37", values_checked, "asan", BOTH) {
    ctx.note_bound("the same settings and values under AddressSanitizer"); for (auto &k : keys()) for (auto &v : values()) { if (!ctx.thorough && v.size() > 5) continue; if (!ctx.mine()) continue; if (ctx.out_of_time()) return; run_case(ctx, {{k, v}}, false, 0, {"-g", "10"}); }
}
SUITE("C37", histories, "std", BOTH) {
    vector<std::pair<string, string>> a = {{"verbosity", "1"}, {"verbosity", "0"}, {"memlimit", "20"}, {"memlimit", "70"}, {"memlimit", "0"}, {"sticky_limit", "1"}, {"sticky_limit", "30"}, {"sticky_limit", "0"}, {"maxconns", "20"}, {"maxconns", "30"}, {"maxconns", "x"}, {"max_list_size", "50001"}, {"max_list_size", "-1"}, {"max_list_size", "60000"}, {"max_set_size", "70000"}, {"max_map_size", "1000001"}, {"max_btree_size", "80000"}, {"max_btree_size", "70000"}, {"max_element_bytes", "1024"}, {"max_element_bytes", "32768"}, {"max_element_bytes", "32769"}, {"scrub_count", "16"}, {"scrub_count", "15"}, {"max_stats_prefixes", "3"}, {"max_stats_prefixes", "0"}};
    int d = ctx.thorough ? 3 : 2; ctx.note_bound(mc::fmt("all histories of %d of %zu changes, each change followed by all queries, at the end everything enforced", d, a.size())); vector<size_t> ix(d, 0); for (;;) { if (ctx.mine()) { if (ctx.out_of_time()) return; Hist h; for (size_t i : ix) h.push_back(a[i]); run_case(ctx, h, true, ix[0] % 2 ? 1 : 2, {"-g", "10"}); } int k = d - 1; while (k >= 0 && ++ix[k] == a.size()) ix[k--] = 0; if (k < 0) break; }
}
// limits given at startup
SUITE("C37", startup, "std", BOTH) {
    vector<Strs> as = {{}, {"-m", "100"}, {"-m", "20"}, {"-c", "50"}, {"-c", "20"}, {"-v"}, {"-v", "-v"}, {"-g", "5"}}; ctx.note_bound(mc::fmt("%zu start-up option sets: reported, enforced and changeable", as.size()));
    for (auto &a : as) for (int k = 0; k < 3; k++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; run_case(ctx, k == 0 ? Hist{} : k == 1 ? Hist{{"memlimit", "30"}, {"maxconns", "25"}} : Hist{{"sticky_limit", "2"}, {"max_map_size", "60000"}}, true, k == 2 ? 2 : 1, a); }
}
// a limit on connections is not set below what is in use
SUITE("C37", connections, "std", BOTH) {
    vector<int> ns = {1, 9, 19, 29, 39, 49, 59, 99}; vector<string> vs; for (int i = 0; i <= 130; i++) vs.push_back(mc::fmt("%d", i)); ctx.note_bound(mc::fmt("maxconns 0..130 with %zu numbers of connections in use", ns.size()));
    for (int n : ns) for (auto &v : vs) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; run_case(ctx, {{"maxconns", v}}, false, 0, {}, n); }
}
// settings of a server with persistence
SUITE("C37", persistence, "apersist", BOTH) {
    const Strs ks = {"chkpt_interval_pct_snapshot", "chkpt_interval_min_logsize", "async_logging"}; auto vs = values(); vs.push_back("off"); ctx.note_bound(mc::fmt("the 3 persistence settings x %zu values x 3 values before, under AddressSanitizer", vs.size()));
    for (auto &k : ks) for (auto &v : vs) for (int pre = 0; pre < 3; pre++) {
        if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.clear_note(); ctx.note(k + " " + v); pst::Phase ph; pst::Opts o; vector<string> hist; bool ok = true; string why;
        bool ran = pst::life(ctx, {}, pst::T0, o, [&](pst::Life &L) {
            std::map<string, string> cur; auto say = [&](const string &c) { return sim::rpc(L.c, c + "\r\n"); }; auto bad = [&](const string &m) { if (ok) { ok = false; ph.err = m; L.ph->err = m; } };
            auto q = [&](bool first) { for (auto &x : ks) { string r = say("config " + x); if (r.compare(0, x.size() + 1, x + " ") || r.size() < x.size() + 8 || r.substr(r.size() - 7) != "\r\nEND\r\n") return bad("config " + x + ": " + r); string y = r.substr(x.size() + 1, r.size() - x.size() - 8); if (first) cur[x] = y; else if (cur[x] != y) return bad("config " + x + " reports " + y + " instead of " + cur[x]); } };
            auto st = [&](const string &x, const string &y) { string r = say("config " + x + " " + y); long long n; string want = "END\r\n"; if (y.find(' ') != string::npos) want = "CLIENT_ERROR bad command line format\r\n"; else if (x == "async_logging") { if (y != "on" && y != "off") want = "CLIENT_ERROR bad value\r\n"; else cur[x] = y; } else if (!num(y, false, 0, 4294967295ll, n)) want = "CLIENT_ERROR bad command line format\r\n"; else if (n < 1 || (x == ks[0] && n > 1000)) want = "CLIENT_ERROR bad value\r\n"; else cur[x] = mc::fmt("%lld", n); if (r != want) bad("config " + x + " " + y + ": " + r); q(false); };
            q(true); if (pre) st(ks[0], pre == 1 ? "50" : "1000"); if (pre) st(ks[1], pre == 1 ? "1" : "4000000000"); if (pre) st(ks[2], pre == 1 ? "on" : "off"); st(k, v); string all; for (auto &x : cur) all += x.second + ","; L.ph->extra = all;
        }, ph);
        if (ran && !ph.err.empty()) ctx.fail("persistence:" + k, ph.err); if (ran) ctx.state(mc::hash(ph.extra)); ctx.trans(pre ? 4 : 1); ctx.trace(); ctx.evals(10);
    }
}
// memory limits are not set below what is in use
SUITE("C37", memory_in_use, "std", BOTH) {
    ctx.note_bound("memlimit and sticky_limit set to 0..50 MB with 0..40 MB of sticky or ordinary items stored, then filled up");
    for (int mb : {0, 1, 3, 7, 12, 20, 28, 40}) for (int sticky = 0; sticky < 2; sticky++) for (int w = 0; w < 2; w++) for (int v = 0; v <= 50; v++) {
        if (!ctx.mine()) continue; if (ctx.out_of_time()) return; string k = w ? "sticky_limit" : "memlimit"; ctx.clear_note(); ctx.note(mc::fmt("%d MB of %s items, config %s %d", mb, sticky ? "sticky" : "ordinary", k.c_str(), v));
        ctx.isolated([&] { mc::boot_std({"-g", "45"}); Lock l(ctx); l.connect(); l.begin(); Conf c(ctx, l); string val(100000, 'v'); for (int i = 0; i < mb * 10; i++) { string r = sim::rpc(l.c, mc::fmt("set D%d 0 %d 100000\r\n", i, sticky ? -1 : 0) + val + "\r\n"); if (r != "STORED\r\n") { c.fail("store", "set: " + r); return; } }
            if (!c.read_all(true) || !c.set(k, mc::fmt("%d", v))) return; ctx.state(mc::hash(mc::fmt("%d %d %d %lld %lld", mb, sticky, w, c.v["memlimit"], c.v["sticky_limit"])));
            for (int i = 0; i < mb * 10; i++) { string r = sim::rpc(l.c, mc::fmt("get D%d\r\n", i)); if (r.size() < 100000) { c.fail("data", mc::fmt("item %d is gone after config ", i) + k); return; } } c.mem_taken = mb && !sticky; if (v % 10 == 5) { if (w ? !c.stick_more() : !c.fill()) return; } if (!c.read_all(false)) return; }, 60); ctx.trans(); ctx.trace();
    }
}
