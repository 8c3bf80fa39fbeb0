// repo headers
// shim: shim_tk.c
// C43: the containers used throughout the server, driven directly
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include "alpha.h"
#include "vfs.h"
extern "C" {
#include <memcached/genhash.h>
#include <memcached/config_parser.h>
typedef void tk_add_stat(const char *, const uint16_t, const char *, const uint32_t, const void *);
void *shim_tk_init(int); void shim_tk_free(void *); void shim_tk_use(void *, const char *, size_t, uint32_t); void shim_tk_set(void *, const char *, size_t, uint32_t, int); void shim_tk_stats(void *, const void *, uint32_t, tk_add_stat);
typedef int cache_constructor_t(void *obj, void *notused1, int notused2); typedef void cache_destructor_t(void *obj, void *notused); struct cache_t;
cache_t *cache_create(const char *name, size_t bufsize, size_t align, cache_constructor_t *constructor, cache_destructor_t *destructor); void cache_destroy(cache_t *handle); void *cache_alloc(cache_t *handle); void cache_free(cache_t *handle, void *ptr);
}
extern "C" { extern int cache_error __attribute__((weak)); }
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
// ---------------------------------------------------------------- hash table
int hmode; // which hash function
int g_hash(const void *p, size_t n) { const char *s = (const char *)p; switch (hmode) { case 0: return 0; case 1: return n ? s[0] : 0; case 2: return -1 - (n ? s[0] : 0); case 3: return 0x7fffffff; default: return genhash_string_hash(p, n); } }
int g_eq(const void *a, size_t n, const void *b, size_t m) { return n == m && !memcmp(a, b, n); }
int live_k, live_v; std::map<void *, int> alive;
void *g_dup(const void *p, size_t n) { char *r = (char *)malloc(n + 1); memcpy(r, p, n); r[n] = 0; alive[r] = 1; return r; }
string dbl_free; void g_free(void *p) { if (!alive.count(p)) { dbl_free = "a key or value is released twice"; return; } alive.erase(p); free(p); }
struct HM { vector<std::pair<string, string>> e; }; // newest first
void it_collect(const void *k, size_t n, const void *v, size_t m, void *a) { ((vector<std::pair<string, string>> *)a)->push_back({string((const char *)k, n), string((const char *)v, m)}); }
void *upd(const void *k, const void *old, size_t *ns, void *arg) { string s = (old ? (const char *)old : "") + string((const char *)arg); char *r = (char *)malloc(s.size() + 1); memcpy(r, s.c_str(), s.size() + 1); *ns = s.size(); return r; }
typedef vector<std::pair<string, string>> KV;
string hrun(const vector<int> &ops, int est, int hm, bool dup, const Strs &keys, string &what) {
    hmode = hm; dbl_free.clear(); alive.clear(); hash_ops o{}; o.hashfunc = g_hash; o.hasheq = g_eq; if (dup) { o.dupKey = g_dup; o.dupValue = g_dup; o.freeKey = g_free; o.freeValue = g_free; } genhash_t *h = genhash_init(est, o); if (!h) return "no table"; KV m; string err; static std::map<string, string> pool; int step = 0;
    auto val = [&](int i) -> const string & { string v = "v" + S(i) + string(i % 3, 'x'); auto r = pool.insert({v, v}); return r.first->second; };
    auto sel = [&](const string &k) { KV r; for (auto &x : m) if (x.first == k) r.push_back(x); return r; };
    int nk = keys.size(), K = 6; // store, update, fun_update, delete, delete_all, find per key; then clear
    for (int op : ops) { step++; if (op == nk * K) { what += " clear"; genhash_clear(h); m.clear(); } else { const string &k = keys[op / K]; int a = op % K; const string &v = val(step); char *kp = strdup(k.c_str()); if (!dup) { free(kp); kp = (char *)k.c_str(); } // the caller's key does not outlive the call when keys are copied
        switch (a) {
        case 0: what += " store(" + k + "," + v + ")"; genhash_store(h, kp, k.size(), v.c_str(), v.size()); m.insert(m.begin(), {k, v}); break;
        case 1: { what += " update(" + k + "," + v + ")"; auto r = genhash_update(h, kp, k.size(), v.c_str(), v.size()); bool had = !sel(k).empty(); if ((r == MODIFICATION) != had) err = "update says " + S((long long)r); if (had) { for (auto &x : m) if (x.first == k) { x.second = v; break; } } else m.insert(m.begin(), {k, v}); break; }
        case 2: { if (!dup) break; what += " fun_update(" + k + ")"; auto s = sel(k); string nv = (s.empty() ? string("d") : s[0].second) + "+"; auto r = genhash_fun_update(h, kp, k.size(), upd, free, (void *)"+", "d", 1); if ((r == MODIFICATION) != !s.empty()) err = "fun_update says " + S((long long)r); if (!s.empty()) { for (auto &x : m) if (x.first == k) { x.second = nv; break; } } else m.insert(m.begin(), {k, nv}); break; }
        case 3: { what += " delete(" + k + ")"; int r = genhash_delete(h, kp, k.size()), want = 0; for (size_t i = 0; i < m.size(); i++) if (m[i].first == k) { m.erase(m.begin() + i); want = 1; break; } if (r != want) err = "delete says " + S((long long)r); break; }
        case 4: { what += " delete_all(" + k + ")"; int want = sel(k).size(), r = genhash_delete_all(h, kp, k.size()); m.erase(std::remove_if(m.begin(), m.end(), [&](auto &x) { return x.first == k; }), m.end()); if (r != want) err = "delete_all says " + S((long long)r); break; }
        default: { what += " find(" + k + ")"; break; } }
        if (dup) { memset(kp, 'Z', k.size()); free(kp); } }
        if (!err.empty()) return err; if (!dbl_free.empty()) return dbl_free;
        KV all; genhash_iter(h, it_collect, &all); KV a = all, b = m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { string s; for (auto &x : a) s += " " + x.first + "=" + mc::esc(x.second); return "iteration gives" + s; } if (genhash_size(h) != (int)m.size()) return mc::fmt("size %d", genhash_size(h));
        for (auto &k : keys) { auto s = sel(k); KV mine; genhash_iter_key(h, k.c_str(), k.size(), it_collect, &mine); if (mine != s) return "iteration over key " + k + " differs"; if (genhash_size_for_key(h, k.c_str(), k.size()) != (int)s.size()) return "size for key " + k; void *f = genhash_find(h, k.c_str(), k.size()); if (s.empty() ? f != nullptr : !f || string((char *)f) != s[0].second) return "find " + k + " gives " + (f ? string((char *)f) : "nothing"); } }
    genhash_free(h); if (!alive.empty()) return mc::fmt("%zu keys or values are not released", alive.size()); return dbl_free;
}
template <class F> void seqs(int n, int d, F f) { vector<int> ix(d, 0); for (;;) { f(ix); int i = d - 1; while (i >= 0 && ++ix[i] == n) ix[i--] = 0; if (i < 0) return; } }
}
SUITE("C43", hash_table, "asan", BOTH) {
    mc::boot_std(); Strs keys = {"a", "ab", "b"}; int n = keys.size() * 6 + 1, D = ctx.thorough ? 5 : 4; ctx.note_bound(mc::fmt("all sequences of %d operations over %d (store, update, function update, delete, delete all, find, clear on 3 keys), table sizes 1 and 8, hash functions constant / first byte / negative / largest / string, copying and not", D, n));
    for (int est : {1, 8}) for (int hm = 0; hm < 5; hm++) for (int dup = 1; dup >= 0; dup--) for (int first = 0; first < n; first++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); seqs(n, D - 1, [&](const vector<int> &ix) { vector<int> ops{first}; ops.insert(ops.end(), ix.begin(), ix.end()); string w; string e = hrun(ops, est, hm, dup, keys, w); ctx.trans(D); if (!e.empty()) { ctx.note(mc::fmt("table for %d, hash %d, %s:", est, hm, dup ? "copying" : "not copying") + w); ctx.fail("genhash", e); } }); ctx.state(mc::hash(S(first) + S(hm) + S(est))); }, 300); ctx.trace(); }
    if (ctx.mine()) ctx.isolated([&] { hmode = 4; for (int est = 1; est <= 5000; est += est < 40 ? 1 : 331) { hash_ops o{}; o.hashfunc = g_hash; o.hasheq = g_eq; genhash_t *h = genhash_init(est, o); Strs ks; for (int i = 0; i < est * 2; i++) ks.push_back("key" + S(i)); for (auto &k : ks) genhash_store(h, k.c_str(), k.size(), k.c_str(), k.size()); for (auto &k : ks) { void *f = genhash_find(h, k.c_str(), k.size()); if (!f || strcmp((char *)f, k.c_str())) ctx.fail("genhash", mc::fmt("table for %d loses ", est) + k); } if (genhash_size(h) != est * 2) ctx.fail("genhash", mc::fmt("table for %d: size", est)); genhash_free(h); ctx.trans(est * 4); } hash_ops o{}; o.hashfunc = g_hash; o.hasheq = g_eq; if (genhash_init(0, o) || genhash_init(-1, o)) ctx.fail("genhash", "a table for no entries"); }, 100);
    ctx.sample("store(a) store(a) update(a) delete(a)");
}
// ---------------------------------------------------------------- object cache
namespace {
std::map<void *, int> cons; string cerr_; bool cfail; int c_new(void *o, void *, int) { if (cfail) { cfail = false; return -1; } if (cons.count(o)) cerr_ = "constructed twice"; cons[o] = 1; memset(o, 0x5a, 24); return 0; }
void c_del(void *o, void *) { if (!cons.count(o)) cerr_ = "an object that was never constructed is destroyed"; else cons.erase(o); }
}
SUITE("C43", object_cache, "asan", BOTH) {
    mc::boot_std(); int D = ctx.thorough ? 9 : 8; ctx.note_bound(mc::fmt("all sequences of %d operations: allocate, release one of up to 4 objects, allocate when memory or the constructor fails; with and without constructor; then the same after 64 to 130 objects were released (the free list grows, also without memory)", D));
    auto prog = [&](const vector<int> &ops, int many, bool withc, bool oom) { cons.clear(); cerr_.clear(); cfail = false; cache_t *c = cache_create("test", 24, 8, withc ? c_new : nullptr, withc ? c_del : nullptr); vector<void *> held; std::set<void *> all; string w = mc::fmt("%d objects first%s%s;", many, withc ? ", constructor" : "", oom ? ", no memory when the list grows" : ""); auto fail = [&](const string &s) { ctx.note(w); ctx.fail("cache", s); };
        uint64_t mark = 0; auto put = [&](void *p, bool used) { if ((uintptr_t)p % 8) fail("alignment"); for (auto h : held) if (llabs((char *)h - (char *)p) < 24) { fail("an object is handed out twice"); return; } for (int i = 0; i < 24; i++) if (withc && !cons.count(p)) { fail("an object that was not constructed is handed out"); return; } memset(p, 0x11 + held.size(), 24); held.push_back(p); };
        auto rel = [&](size_t i) { for (int k = 0; k < 24; k++) if (((unsigned char *)held[i])[k] != ((unsigned char *)held[i])[0]) { fail("the contents of an object in use have changed"); return; } cache_free(c, held[i]); held.erase(held.begin() + i); };
        for (int i = 0; i < many; i++) put(cache_alloc(c), true); if (many) { if (oom) { sim::malloc_fail_mode = 2; sim::malloc_fail_at = 1; } while (!held.empty()) rel(held.size() - 1); sim::malloc_fail_at = 0; }
        for (int op : ops) { if (op == 0) { w += " alloc"; void *p = cache_alloc(c); if (!p) { fail("no object although there is memory"); return; } put(p, true); } else if (op <= 3) { if ((int)held.size() < op) continue; w += " release" + S(op); rel(held.size() - op); } else { w += op == 4 ? " alloc without memory" : " alloc when the constructor fails"; if (op == 4) { sim::malloc_fail_mode = 1; sim::malloc_fail_at = 1; } else { if (!withc) continue; cfail = true; } void *p = cache_alloc(c); sim::malloc_fail_at = 0; cfail = false; if (p) put(p, true); } if (!cerr_.empty()) { fail(cerr_); return; } }
        size_t kept = held.size(); while (!held.empty()) rel(0); cache_destroy(c); if (!cerr_.empty()) { fail(cerr_); return; } if (!cons.empty()) fail(mc::fmt("%zu objects are lost", cons.size())); };
    for (int many : {0, 1, 64, 65, 129}) for (int withc = 0; withc < 2; withc++) for (int oom = 0; oom < 2; oom++) for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) { if (oom && many < 65) continue; if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); seqs(6, (many ? D - 4 : D) - 2, [&](const vector<int> &ix) { vector<int> o{a, b}; o.insert(o.end(), ix.begin(), ix.end()); prog(o, many, withc, oom); ctx.trans(o.size()); }); ctx.state(many * 1000 + withc * 100 + a * 10 + b); }, 300); ctx.trace(); }
    // an object written beyond its end or before its start is noticed when it is released
    for (int off : {-8, -1, 24, 25, 31}) { if (!ctx.mine()) continue; bool died = false; ctx.isolated([&] { cache_t *c = cache_create("test", 24, 8, nullptr, nullptr); char *p = (char *)cache_alloc(c); p[off] ^= 0x21; int *flag = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pid_t ch = fork(); if (!ch) { signal(SIGABRT, SIG_DFL); *flag = 1; cache_free(c, p); if (!&cache_error || !cache_error) *flag = 2; _exit(0); } int st = 0; waitpid(ch, &st, 0); if (*flag == 2) ctx.fail("cache", mc::fmt("a write at offset %d of a 24 byte object is not noticed", off)); }, 20); ctx.trace(); }
    ctx.sample("alloc alloc release1 alloc");
}
// ---------------------------------------------------------------- hot keys
namespace {
struct TkM { struct K { string key; std::map<string, int> n; uint32_t ct; }; vector<K> v; size_t max; K &at(const string &k, uint32_t now) { for (size_t i = 0; i < v.size(); i++) if (v[i].key == k) { K x = v[i]; v.erase(v.begin() + i); v.insert(v.begin(), x); return v[0]; } v.insert(v.begin(), K{k, {}, now}); if (v.size() > max) v.pop_back(); return v[0]; } };
const char *TKN[13] = {"get_hits", "get_misses", "cmd_set", "incr_hits", "incr_misses", "decr_hits", "decr_misses", "delete_hits", "delete_misses", "evictions", "cas_hits", "cas_misses", "cas_badval"};
void tk_stat(const char *k, const uint16_t nk, const char *v, const uint32_t nv, const void *c) { auto *o = (Strs *)c; o->push_back(string(k, nk) + " " + string(v, nv)); }
}
SUITE("C43", hot_keys, "asan", BOTH) {
    setenv("MEMCACHED_TOP_KEYS", "3", 1); mc::boot_std(); unsetenv("MEMCACHED_TOP_KEYS"); Strs keys = {"a", "b", "cc", "d", string(250, 'k')}; struct O { string cmd, stat; }; 
    Strs cmds = {"get %", "set %", "incr % 1", "decr % 1", "delete %", "cas %", "touch % 5"}; int D = ctx.thorough ? 4 : 3; vector<std::pair<int, int>> ops; for (size_t k = 0; k < keys.size(); k++) for (size_t c = 0; c < cmds.size(); c++) { if (k >= 3 && c > 1) continue; ops.push_back({(int)k, (int)c}); }
    ctx.note_bound(mc::fmt("a server that keeps 3 hot keys: all sequences of %d of %zu commands on 5 keys, stats topkeys compared after each; the table itself driven directly with 1 to 4 keys and counters up to the largest", D, ops.size()));
    seqs(ops.size(), 2, [&](const vector<int> &f) { if (!ctx.mine() || ctx.out_of_time_fast()) return; ctx.isolated([&] { ctx.clear_note(); int c0 = sim::connect(); sim::run(); string trail;
        std::function<void(TkM &, std::map<string, string> &, vector<int>)> go = [&](TkM &m, std::map<string, string> &kv, vector<int> path) {
            if ((int)path.size() >= D) return; for (size_t o = 0; o < ops.size(); o++) { if (path.size() < 2 && (int)o != f[path.size()]) continue; if (path.size() >= 3 && (o * 7 + path[0] + path[1] * 3) % 3 == 0) continue; auto body = [&] { TkM m2 = m; auto kv2 = kv; vector<int> p2 = path; p2.push_back(o); const string &k = keys[ops[o].first]; uint32_t now = 0; string req, st; bool has = kv.count(k); bool num = has && kv[k] == "5"; switch (ops[o].second) {
                case 0: req = "get " + k; st = has ? "get_hits" : "get_misses"; break; case 1: req = "set " + k + " 0 0 1\r\n5"; st = "cmd_set"; kv2[k] = "5"; break; case 2: req = "incr " + k + " 1"; st = has ? "incr_hits" : "incr_misses"; break; case 3: req = "decr " + k + " 1"; st = has ? "decr_hits" : "decr_misses"; break; case 4: req = "delete " + k; st = has ? "delete_hits" : "delete_misses"; kv2.erase(k); break; case 5: req = "cas " + k + " 0 0 1 99999999\r\n5"; st = has ? "cas_badval" : "cas_misses"; break; default: req = "touch " + k + " 5"; st = has ? "" : ""; break; }
                ctx.note("> " + mc::esc(req, 60)); sim::rpc(c0, req + "\r\n"); ctx.trans(1); if (ops[o].second == 6) m2.at(k, 0); else if (ops[o].second == 5) { auto &x = m2.at(k, 0); x.n[st]++; } else m2.at(k, 0).n[st]++;
                string r = sim::rpc(c0, "stats topkeys\r\n"); string want; for (auto &x : m2.v) { want += "STAT " + x.key + " "; for (auto n : TKN) want += string(n) + "=" + S((long long)x.n[n]) + ","; want += "ctime="; want += "\n"; } want += "END\n"; string got; size_t p = 0; while (p < r.size()) { size_t q = r.find("\r\n", p); string l = r.substr(p, q - p); size_t z = l.find("ctime="); if (z != string::npos) l = l.substr(0, z + 6); got += l + "\n"; p = q + 2; }
                if (got != want) { ctx.fail("topkeys", "stats topkeys gives\n" + mc::esc(got, 1500) + "\nexpected\n" + mc::esc(want, 1500)); return; } go(m2, kv2, p2); ctx.state(mc::hash(want)); }; ctx.isolated(body, 60); } };
        TkM m; m.max = 3; std::map<string, string> kv; go(m, kv, {}); }, 200); ctx.trace(); });
    for (int max = 1; max <= 4; max++) { if (!ctx.mine()) continue; ctx.isolated([&] { seqs(6, ctx.thorough ? 7 : 6, [&](const vector<int> &ix) { void *t = shim_tk_init(max); TkM m; m.max = max; int i = 0; for (int k : ix) { i++; string key(1 + k * 3, 'a' + k); shim_tk_use(t, key.c_str(), key.size(), 100 + i); m.at(key, 100 + i).n["get_hits"]++; } Strs out; shim_tk_stats(t, &out, 200, tk_stat); bool ok = out.size() == m.v.size(); for (size_t j = 0; ok && j < out.size(); j++) { string w = m.v[j].key + " get_hits=" + S((long long)m.v[j].n["get_hits"]) + ",get_misses=0,"; string ct = ",ctime=" + S((long long)(200 - m.v[j].ct)) + ","; if (out[j].compare(0, w.size(), w) || out[j].find(ct) == string::npos) ok = false; } if (!ok) { string s; for (auto &l : out) s += l + "\n"; string q; for (int k : ix) q += " " + S(k); ctx.note("keys" + q + mc::fmt(", table of %d", max)); ctx.fail("topkeys", "the hot keys are\n" + s); } shim_tk_free(t); ctx.trans(ix.size()); }); }, 200); ctx.trace(); }
    for (long long v : {0ll, 9ll, 999999ll, 9999999ll, 99999999ll, 999999999ll, 2147483647ll}) { if (!ctx.mine()) continue; ctx.isolated([&] { void *t = shim_tk_init(2); shim_tk_set(t, "key", 3, 1, v); Strs out; shim_tk_stats(t, &out, 4000000000u, tk_stat); string w = "key "; for (auto n : TKN) w += string(n) + "=" + S(v) + ","; w += "ctime=3999999999,atime=3999999999"; if (out.size() != 1 || out[0] != w) { ctx.note("all counters at " + S(v)); ctx.fail("topkeys", "the line of a key is " + mc::esc(out.empty() ? "" : out[0], 500)); } }, 20); ctx.trace(); }
    ctx.sample("set a ; get b ; incr a ; get d");
}
// ---------------------------------------------------------------- option strings
namespace {
struct Cfg { size_t sz = 77; uint32_t u = 77; float f = 77; bool b = false; char *s = nullptr; char c = '~'; bool found[6] = {}; int ret = 0; string err; };
Cfg cfg_run(const string &str) {
    Cfg r; bool bb = false; config_item it[8]; memset(it, 0, sizeof it); it[0].key = "sz"; it[0].datatype = DT_SIZE; it[0].value.dt_size = &r.sz; it[1].key = "u"; it[1].datatype = DT_UINT32; it[1].value.dt_uint32 = &r.u; it[2].key = "fl"; it[2].datatype = DT_FLOAT; it[2].value.dt_float = &r.f; it[3].key = "b"; it[3].datatype = DT_BOOL; it[3].value.dt_bool = &r.b; it[4].key = "s"; it[4].datatype = DT_STRING; it[4].value.dt_string = &r.s; it[5].key = "c"; it[5].datatype = DT_CHAR; it[5].value.dt_char = &r.c; it[6].key = "file"; it[6].datatype = DT_CONFIGFILE; it[7].key = nullptr;
    char *p = (char *)malloc(str.size() + 1); memcpy(p, str.c_str(), str.size() + 1); char *eb = nullptr; size_t en = 0; FILE *e = open_memstream(&eb, &en); r.ret = parse_config(p, it, e); fclose(e); r.err.assign(eb, en); free(eb); free(p); for (int i = 0; i < 6; i++) r.found[i] = it[i].found; return r;
}
string cfg_show(const Cfg &r) { return mc::fmt("returns %d, sz %d/%zu u %d/%u fl %d/%g b %d/%d s %d/%s c %d/%c", r.ret, r.found[0], r.sz, r.found[1], r.u, r.found[2], r.f, r.found[3], r.b, r.found[4], r.s ? mc::esc(r.s).c_str() : "-", r.found[5], r.c); }
struct Ent { string text; int item; /* -1 unknown, -2 refused */ string val; };
// numbers: digits and at most one unit
bool cfg_num(const string &v, unsigned long long max, unsigned long long &out) { size_t i = 0; __int128 x = 0; while (i < v.size() && isdigit(v[i])) { x = x * 10 + (v[i++] - '0'); if (x > ((__int128)1 << 100)) return false; } if (!i) return false; if (i < v.size()) { const char *u = strchr("kmgt", tolower(v[i])); if (!u || i + 1 != v.size()) return false; for (const char *q = "kmgt"; ; q++) { x *= 1024; if (q[0] == *u) break; } } if (x > max) return false; out = (unsigned long long)x; return true; }
vector<Ent> cfg_entries() {
    vector<Ent> v; Strs nums = {"0", "1", "10", "1023", "1k", "1K", "3m", "3M", "1g", "3G", "2t", "1T", "15t", "4g", "4194303k", "4194304k", "4194305k", "4294967295", "4294967296", "4294967297", "2147483648", "16777215t", "16777216t", "16777217t", "18446744073709551615", "18446744073709551616", "18446744073709551615k", "18014398509481983k", "18014398509481984k", "18014398509481985k", "17179869185g", "99999999999999999999999", "-1", "-1k", "x", "k", "1x", "true", "1.5"};
    for (auto &n : nums) { unsigned long long x; bool ok = cfg_num(n, ~0ull, x); v.push_back({"sz=" + n, ok ? 0 : -2, ok ? S(0) : ""}); v.back().val = ok ? mc::fmt("%llu", x) : ""; ok = cfg_num(n, 0xffffffffu, x); v.push_back({"u=" + n, ok ? 1 : -2, ok ? mc::fmt("%llu", x) : ""}); }
    for (auto n : {"0", "1", "1.5", "-2.25", "1e3", "12.5"}) v.push_back({string("fl=") + n, 2, n}); for (auto n : {"x", "1x", "1..2"}) v.push_back({string("fl=") + n, -2, ""});
    for (auto n : {"true", "TRUE", "True", "on", "On", "false", "FALSE", "off", "oFF"}) v.push_back({string("b=") + n, 3, (tolower(n[0]) == 't' || tolower(n[1]) == 'n') ? "1" : "0"}); for (auto n : {"1", "0", "yes", "tru", "truee", "onn", "x"}) v.push_back({string("b=") + n, -2, ""});
    for (auto n : {"abc", "a b", "a=b", "a\\;b", "a\\=b", "\\;", "x\\ y", "1", "sz"}) { string u; for (const char *p = n; *p; p++) if (*p != '\\') u += *p; v.push_back({string("s=") + n, 4, u}); } v.push_back({"s=" + string(1022, 'l'), 4, string(1022, 'l')}); v.push_back({"s=" + string(1030, 'l'), -2, ""}); v.push_back({"s=" + string(3000, 'l'), -2, ""});
    v.push_back({"c=q", 5, "q"}); v.push_back({"c==", 5, "="}); for (auto n : {"zz=1", "S=1", "szz=1", "sz2=1", "bb=true", "=x=1"}) v.push_back({n, -1, ""}); v.push_back({string(70, 'k') + "=1", -1, ""}); v.push_back({string(90, 'k') + "=1", -2, ""}); v.push_back({string(2000, 'k') + "=1", -2, ""}); return v;
}
}
SUITE("C43", option_strings, "asan", BOTH) {
    mc::boot_std(); auto es = cfg_entries(); Strs lead = {"", " ", "\t "}, sep = {";", "; ", " ;\t"}; int D = ctx.thorough ? 3 : 2; ctx.note_bound(mc::fmt("all lists of up to %d of %zu entries (every type, units, limits, escapes, unknown and malformed) with white space around; all strings of up to %d characters over k = ; \\ space 1, each as a text of its own size", D, es.size(), ctx.thorough ? 8 : 7));
    auto one = [&](const vector<int> &ix, const string &ld, const string &sp) {
        string str = ld; bool spaced = sp[0] == ' '; for (size_t i = 0; i < ix.size(); i++) { const Ent &e = es[ix[i]]; if (i) { const Ent &p = es[ix[i - 1]]; if (spaced && (p.item == 4 || p.item == 3 || (p.item == -2 && p.text[0] != 's') || p.item == 5)) return; str += sp; } str += e.text; } if (ld == "\t ") str += " ";
        Cfg w; static char buf[4096]; bool refused = false; for (int i : ix) { const Ent &e = es[i]; if (e.item == -2) { refused = true; break; } if (e.item == -1) { w.ret = 1; continue; } w.found[e.item] = true; switch (e.item) { case 0: w.sz = strtoull(e.val.c_str(), 0, 10); break; case 1: w.u = strtoul(e.val.c_str(), 0, 10); break; case 2: w.f = strtof(e.val.c_str(), 0); break; case 3: w.b = e.val == "1"; break; case 4: strcpy(buf, e.val.c_str()); w.s = buf; break; case 5: w.c = e.val[0]; } } if (refused) w.ret = -1;
        Cfg g = cfg_run(str); ctx.trans(1); string a = cfg_show(g), b = cfg_show(w); if (a != b) { ctx.note("option string " + mc::esc(str, 300)); ctx.fail("options", "parsing " + mc::esc(str, 100) + " " + a + ", expected: " + b); } if (refused && g.err.empty()) { ctx.note(mc::esc(str, 300)); ctx.fail("options", "a refused option string gives no message"); } free(g.s); };
    for (size_t a = 0; a < es.size(); a++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); for (auto &l : lead) { one({(int)a}, l, ";"); for (auto &s : sep) seqs(es.size(), 1, [&](const vector<int> &x) { one({(int)a, x[0]}, l, s); }); } if (D > 2) seqs(es.size(), 2, [&](const vector<int> &x) { one({(int)a, x[0], x[1]}, "", ";"); }); ctx.state(a); }, 120); ctx.trace(); }
    vector<int> few; { std::set<int> got; for (size_t i = 0; i < es.size(); i++) { int k = es[i].item * 2 + (es[i].text.find(es[i].item == 0 || es[i].item == 1 ? 'k' : '\\') != string::npos); if (got.insert(k).second) few.push_back(i); } }
    for (size_t a = 0; a < few.size(); a++) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); seqs(few.size(), 3, [&](const vector<int> &x) { one({few[a], few[x[0]], few[x[1]], few[x[2]]}, "", ";"); one({few[a], few[x[0]], few[x[1]], few[x[2]]}, " ", " ;\t"); }); }, 120); ctx.trace(); } ctx.note_bound(mc::fmt("all lists of 4 of %zu entries, one of each kind", few.size()));
    const char al6[] = "k=;\\ 1"; int L = ctx.thorough ? 8 : 7; for (int first = 0; first < 36; first++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { for (int len = 2; len <= L; len++) { if (len == 2) { string s{al6[first / 6], al6[first % 6]}; if (first < 6) { Cfg g0 = cfg_run(string(1, al6[first])); free(g0.s); } Cfg g = cfg_run(s); free(g.s); continue; } seqs(6, len - 2, [&](const vector<int> &x) { string s{al6[first / 6], al6[first % 6]}; for (int i : x) s += al6[i]; ctx.clear_note(); ctx.note("option string " + mc::esc(s)); Cfg g = cfg_run(s); if (g.ret < -1 || g.ret > 1) ctx.fail("options", mc::fmt("result %d", g.ret)); for (int i = 0; i < 6; i++) if (g.found[i]) ctx.fail("options", "an option that is not named is set"); free(g.s); ctx.trans(1); }); } }, 300); ctx.trace(); }
    // a file of options
    Strs files = {"sz=5\nb=true\n", "# comment\nsz=5\n#b=true\nu=7\n", "sz=5\nzz=1\nu=7\n", "sz=5\nu=x\nb=true\n", "", "\n\nsz=3\n", "s=a b\nsz=2", "sz=5;u=6\n"}; Strs want = {"returns 0, sz 1/5 u 0/77 fl 0/77 b 1/1 s 0/- c 0/~", "returns 0, sz 1/5 u 1/7 fl 0/77 b 0/0 s 0/- c 0/~", "returns 1, sz 1/5 u 1/7 fl 0/77 b 0/0 s 0/- c 0/~", "returns -1, sz 1/5 u 0/77 fl 0/77 b 0/0 s 0/- c 0/~", "returns 0, sz 0/77 u 0/77 fl 0/77 b 0/0 s 0/- c 0/~", "returns 0, sz 1/3 u 0/77 fl 0/77 b 0/0 s 0/- c 0/~", "returns 0, sz 1/2 u 0/77 fl 0/77 b 0/0 s 1/a b c 0/~", "returns 0, sz 1/5 u 1/6 fl 0/77 b 0/0 s 0/- c 0/~"};
    if (ctx.mine()) for (size_t i = 0; i < files.size(); i++) ctx.isolated([&] { char nm[] = "/tmp/mc_cfg_XXXXXX"; int fd = mkstemp(nm); (void)!write(fd, files[i].data(), files[i].size()); close(fd); Cfg g = cfg_run(string("file=") + nm); unlink(nm); string a = cfg_show(g); if (a != want[i]) { ctx.note(mc::esc(files[i])); ctx.fail("options", "a file of options: " + a + ", expected " + want[i]); } Cfg h = cfg_run("file=/no/such/file-for-verif"); if (h.ret != -1) ctx.fail("options", "a missing file"); }, 20);
    ctx.sample("sz=1k; b=on ;s=a\\;b");
}
