// C21: memory limit, eviction order, sticky items
#include "alpha.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using std::string; using std::vector; using std::map;
namespace {
struct Rec { int cls; bool sticky = false; int64_t exp = 0, time = 0; long ord = 0; bool coll = false, unsure = false; }; // ord: position in the recency order of its class
struct World {
    mc::Ctx &ctx; int c; map<string, Rec> kv; long serial = 0; bool evict; uint64_t limit; vector<string> held; int holder = -1; vector<std::pair<string, string>> hist; long evicted = 0; bool strict_expired; uint64_t heap0 = 0; int nfill = 0;
    World(mc::Ctx &x) : ctx(x) {}
    void fail(const string &k, const string &m) { for (size_t i = hist.size() > 40 ? hist.size() - 40 : 0; i < hist.size(); i++) ctx.note("> " + mc::esc(hist[i].first, 100) + "\n< " + mc::esc(hist[i].second, 100)); ctx.fail(k, m); }
    string rpc(const string &r) { string a = sim::rpc(c, r); hist.push_back({r, a}); return a; }
    bool present(const string &k) { string a = sim::rpc(c, "mop delete " + k + " 0 0\r\n"); return a != "NOT_FOUND\r\n"; } // does not count as a use (the items are no maps)
    bool is_held(const string &k) { return std::find(held.begin(), held.end(), k) != held.end(); }
    bool dead(const Rec &r) { return r.exp > 0 && r.exp <= (int64_t)sim::now_s(); }
    map<string, long long> st() { string r = sim::rpc(c, "stats\r\n"); map<string, long long> m; size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) break; auto t = model::split(r.substr(p, e - p)); if (t.size() >= 3) m[t[1]] = atoll(t[2].c_str()); p = e + 2; } return m; }
    void bump(const string &k) { auto i = kv.find(k); if (i == kv.end()) return; if (i->second.time < (int64_t)sim::now_s() - 60) { i->second.time = sim::now_s(); i->second.ord = ++serial; } }
    void release() { string k = held[0]; sim::send_script(holder, {}); sim::unblock(holder); sim::run(); held.clear(); auto i = kv.find(k); if (i != kv.end()) i->second.unsure = true; sim::shut(holder); sim::run(); holder = -1; } // where it re-enters the order depends on whether a scan for memory met it meanwhile
    // after a step: which keys went, and were they allowed to
    void sweep(const string &what, int cls, int maxgone, bool store_ok) {
        vector<string> gone; for (auto &e : kv) if (!present(e.first)) gone.push_back(e.first); ctx.evals();
        int live_gone = 0; for (auto &g : gone) { Rec r = kv[g]; if (dead(r)) continue; live_gone++;
            if (!evict) fail("evicted", "with eviction disabled " + g + " disappeared after " + what);
            if (r.sticky) fail("sticky", "sticky item " + g + " was evicted by " + what);
            if (is_held(g)) fail("held", "item " + g + " in use by a sender was evicted by " + what); 
            if (cls >= 0 && r.cls != cls) fail("class", "item " + g + " of another size class was evicted by " + what);
            for (auto &p : kv) if (p.second.cls == r.cls && !p.second.sticky && !p.second.unsure && !r.unsure && !is_held(p.first) && p.second.ord < r.ord && !dead(p.second) && std::find(gone.begin(), gone.end(), p.first) == gone.end()) fail("order", "after " + what + ": " + g + " was evicted although " + p.first + " was used less recently and is still there"); }
        if (live_gone && strict_expired && live_gone > (store_ok ? 0 : 0)) { for (auto &p : kv) if (p.second.cls == cls && dead(p.second) && !is_held(p.first) && std::find(gone.begin(), gone.end(), p.first) != gone.end()) { /* dead keys always look absent: judged by the slot count below */ } }
        if (maxgone >= 0 && live_gone > maxgone) fail("toomany", mc::fmt("%s evicted %d items", what.c_str(), live_gone));
        evicted += live_gone; for (auto &g : gone) kv.erase(g);
    }
    void memory(const string &what) {
        auto s = st(); auto sl = sim::slab(); uint64_t reserve = 4ull << 20; if (limit / 100 * 5 > reserve) reserve = limit / 100 * 5;
        if (sl.live_bytes > limit + reserve) fail("limit", mc::fmt("after %s: item memory in use %llu, limit %llu", what.c_str(), (unsigned long long)sl.live_bytes, (unsigned long long)limit));
        uint64_t heap = sim::heap().live_bytes; if (heap > heap0 + limit + reserve + (2u << 20)) fail("limit", mc::fmt("after %s: the process holds %llu bytes more than at start, limit %llu", what.c_str(), (unsigned long long)(heap - heap0), (unsigned long long)limit));
        if (s["curr_items"] > (long long)kv.size() + 40) fail("items", "too many items reported");
    }
};
const int L = 300000, SM = 40000; // two large items per page / small-item memory
string big(const string &cmd, const string &k, int n, const string &exp, char ch) { return cmd + " " + k + " 0 " + exp + " " + S(n) + "\r\n" + string(n, ch) + "\r\n"; }
string val(const string &rep) { size_t p = rep.find("\r\n"); return p == string::npos ? "" : rep.substr(p + 2, 1); }
}
// One class of large items: the order and the number of evictions are exactly determined.
static void large(mc::Ctx &ctx, bool evict, int mb, const vector<string> &alpha, int depth, const vector<string> &prefix) {
    vector<string> args = {"-m", S(mb)}; args.push_back("-g"); args.push_back("2"); if (!evict) args.push_back("-M"); mc::boot_std(args);
    World w(ctx); w.evict = evict; w.strict_expired = true; w.limit = (uint64_t)mb << 20; w.c = sim::connect(); sim::advance_s(200); w.heap0 = sim::heap().live_bytes;
    int n = 0; for (;; n++) { string r = w.rpc(big("set", "f" + S(n), L, "0", 'a' + n % 26)); size_t before = w.kv.size(); w.kv["f" + S(n)] = {0, false, 0, (int64_t)sim::now_s(), ++w.serial};
        if (r != "STORED\r\n") { if (evict) { w.fail("oom", "store refused with eviction enabled: " + r); return; } w.kv.erase("f" + S(n)); break; }
        if (evict) { w.sweep("filling", 0, 1, true); if (w.kv.size() <= before) break; } if (n > 400) { w.fail("limit", "the memory never fills up"); return; } }
    w.nfill = w.kv.size(); if ((uint64_t)w.nfill * L > w.limit || (uint64_t)w.nfill * L * 3 < w.limit) w.fail("limit", mc::fmt("%d items of %d bytes fit into %d MB", w.nfill, L, mb));
    vector<int> ix(depth, 0); auto body = [&] {
        int slots = w.nfill, serial2 = 0; // slots of the class: no page is ever given back or obtained beyond this
        for (int i : ix) { string a = alpha[i]; auto oldest = [&](bool newest) { string b; long o = newest ? -1 : 1l << 60; for (auto &e : w.kv) if (!e.second.sticky && !w.is_held(e.first) && (newest ? e.second.ord > o : e.second.ord < o)) { o = e.second.ord; b = e.first; } return b; };
            w.hist.push_back({a, ""});
            if (a[0] == '+') { sim::advance_s(atoi(a.c_str())); continue; }
            if (a == "set new" || a == "set sticky" || a == "set short" || a == "set oldest" || a == "set newest" || a == "add long") {
                string k = a == "set oldest" ? oldest(false) : a == "set newest" ? oldest(true) : "n" + S(serial2++); if (k.empty()) continue; string exp = a == "set sticky" ? "-1" : a == "set short" ? "5" : a == "add long" ? "1000" : "0";
                int free_before = slots; for (auto &e : w.kv) { if (!w.dead(e.second)) free_before--; else if (w.is_held(e.first)) free_before--; } for (auto &h : w.held) if (!w.kv.count(h)) free_before--;
                auto s0 = w.st(); string r = w.rpc(big(a[0] == 'a' ? "add" : "set", k, L, exp, 'A' + serial2 % 26)); bool ok = r == "STORED\r\n"; int evictable = 0; for (auto &e : w.kv) if (!e.second.sticky && !w.is_held(e.first)) evictable++;
                bool sticky_full = a == "set sticky" && s0["sticky_bytes"] >= (2ll << 20);
                if (a == "set sticky" && sticky_full && ok) w.fail("stickylimit", mc::fmt("a sticky item was stored with %lld sticky bytes at the limit of 2 MB", s0["sticky_bytes"]));
                bool can = !sticky_full && (free_before > 0 || (evict && evictable > 0)); 
                if (ok != can) w.fail(ok ? "limit" : "refused", mc::fmt("%s answered %s: free slots %d, evictable items %d, sticky bytes %lld", a.c_str(), mc::esc(r).c_str(), free_before, evictable, s0["sticky_bytes"]));
                if (!ok && r.compare(0, 26, "SERVER_ERROR out of memory")) w.fail("reply", "unexpected reply " + r);
                bool had = w.kv.count(k); Rec old; if (had) { old = w.kv[k]; w.kv.erase(k); } 
                if (had && !ok) { bool p = w.present(k); if (p) w.kv[k] = old; } // a refused set of an existing key drops the stale value
                w.sweep(a, 0, ok && free_before <= 0 ? 1 : 0, ok); if (ok) { Rec r2{0, a == "set sticky", exp == "0" || exp == "-1" ? 0 : (int64_t)sim::now_s() + atol(exp.c_str()), (int64_t)sim::now_s(), ++w.serial}; w.kv[k] = r2; if (!w.present(k)) w.fail("lost", k + " is not there right after it was stored"); } 
                continue; }
            if (a == "get oldest" || a == "get newest") { string k = oldest(a == "get newest"); if (k.empty()) continue; string r = w.rpc("get " + k + "\r\n"); bool d = w.dead(w.kv[k]); if ((r.size() > 100) == d) w.fail("readable", "get " + k + " answered " + mc::esc(r, 60)); if (!d) w.bump(k); else w.kv.erase(k); continue; }
            if (a == "touch oldest") { string k = oldest(false); if (k.empty()) continue; bool d = w.dead(w.kv[k]); string r = w.rpc("touch " + k + " 500\r\n"); if (d) { w.kv.erase(k); continue; } if (r != "TOUCHED\r\n") w.fail("readable", "touch answered " + r); auto &x = w.kv[k]; x.exp = sim::now_s() + 500; x.time = sim::now_s(); x.ord = ++w.serial; continue; }
            if (a == "delete oldest" || a == "delete newest") { string k = oldest(a == "delete newest"); if (k.empty()) continue; w.rpc("delete " + k + "\r\n"); w.kv.erase(k); continue; }
            if (a == "hold oldest") { string k = oldest(false); if (k.empty() || w.held.size() || w.dead(w.kv[k])) continue; int h = sim::connect(); sim::run(); sim::send_script(h, vector<int>{1000, -1}); sim::send(h, "get " + k + "\r\n"); sim::run(); w.bump(k); w.held.push_back(k); w.holder = h; continue; }
            if (a == "release") { if (w.held.empty()) continue; w.release(); continue; }
            if (a == "refill") { vector<string> fresh; for (int j = 0; j < slots; j++) { string k = "r" + S(serial2++); string r = w.rpc(big("set", k, L, "0", 'A' + serial2 % 26)); if (r != "STORED\r\n") { if (evict) w.fail("refused", "store refused with eviction enabled: " + r); break; } w.sweep(a, 0, 1, true); w.kv[k] = {0, false, 0, (int64_t)sim::now_s(), ++w.serial}; fresh.push_back(k); }
                for (auto &e : w.kv) if (e.second.unsure && !w.is_held(e.first) && !e.second.sticky && !w.dead(e.second) && evict && (int)fresh.size() == slots) w.fail("order", "item " + e.first + ", no longer in use, survives a complete refill of the memory"); continue; }
            if (a == "flush") { w.rpc("flush_all\r\n"); sim::advance_s(1); for (auto &e : w.kv) e.second.exp = 1; continue; }
        }
        for (auto &e : w.kv) { if (w.dead(e.second)) continue; string r = sim::rpc(w.c, "get " + e.first + "\r\n"); if (r.size() < (size_t)L || r.compare(r.size() - 7, 7, "\r\nEND\r\n")) w.fail("readable", "item " + e.first + " unreadable: " + mc::esc(r, 80)); char c0 = val(r)[0]; size_t p = r.find("\r\n") + 2; for (size_t q = p; q < p + L; q += 997) if (r[q] != c0) w.fail("readable", "item " + e.first + " damaged"); if (e.first[0] == 'f' && c0 != 'a' + atoi(e.first.c_str() + 1) % 26 && !(c0 >= 'A' && c0 <= 'Z')) w.fail("readable", "item " + e.first + " has the value of another"); }
        w.memory("the sequence"); };
    size_t total = 1; for (int i = 0; i < depth; i++) total *= alpha.size();
    for (size_t q = 0; q < total; q++) { size_t v = q; for (int i = depth - 1; i >= 0; i--) { ix[i] = v % alpha.size(); v /= alpha.size(); } if (!ctx.mine()) { if (ctx.out_of_time_fast()) return; continue; } ctx.isolated(body, 60); ctx.trace(); ctx.trans(depth); string nm; for (int i : ix) nm += alpha[i] + ";"; ctx.distinct(mc::hash(nm)); if (q % 1009 == 0) ctx.sample(nm); }
}
#define EVQ {"set new", "set sticky", "set short", "set oldest", "get oldest", "+61", "touch oldest", "delete newest", "hold oldest", "release", "refill"}
#define EVA {"set new", "set sticky", "set short", "set oldest", "get oldest", "get newest", "+61", "touch oldest", "delete newest", "hold oldest", "release", "refill", "add long", "flush"}
SUITE("C21", evict_large, "std", BOTH) { int d = ctx.thorough ? 5 : 4; ctx.note_bound("every " + S(d) + "-step sequence over 11 (thorough 14) actions (stores with and without expiry, sticky, replace, reads refreshing recency, an item held by a blocked sender, flush) starting from a full memory of same-class items, eviction enabled; who is evicted, how many, refusal, limit and all remaining values checked"); large(ctx, true, 8, ctx.thorough ? vector<string>EVA : vector<string>EVQ, d, {}); }
SUITE("C21", noevict_large, "std", BOTH) { int d = ctx.thorough ? 5 : 3; ctx.note_bound("the same with eviction disabled"); large(ctx, false, 8, EVA, d, {}); }

// Items and collections of many sizes in the small-item memory: who goes is determined, how many is not.
SUITE("C21", evict_small, "std", BOTH) {
    int depth = ctx.thorough ? 4 : 3; vector<string> alpha = {"set 100", "set 3000", "set 40000", "set short", "set sticky", "list", "tree", "grow", "get oldest", "get oldest coll", "+61", "replace oldest", "delete newest", "hold oldest", "release", "burst", "incr"};
    ctx.note_bound("every " + S(depth) + "-step sequence over " + S(alpha.size()) + " actions (kv of four sizes, lists and trees created and grown, reads, sticky, held items, bursts of 30 stores) starting from full small-item memory");
    mc::boot_std({"-m", "8", "-g", "4"}); World w(ctx); w.evict = true; w.limit = 8 << 20; w.c = sim::connect(); sim::advance_s(200); w.heap0 = sim::heap().live_bytes; w.strict_expired = false;
    auto put = [&](const string &k, const string &req, bool sticky, int64_t exp, bool coll, const string &ok) { auto s0 = w.st(); string r = w.rpc(req); bool refused = r.compare(0, 26, "SERVER_ERROR out of memory") == 0; if (r != ok && !refused) w.fail("reply", "unexpected reply " + r); bool full = sticky && s0["sticky_bytes"] >= (4ll << 20);
        if (full && !refused) w.fail("stickylimit", "a sticky item was stored beyond the sticky limit"); if (!full && refused) w.fail("refused", "a store was refused although items can be evicted: " + mc::esc(req, 60)); bool had = w.kv.count(k); w.kv.erase(k); w.sweep(mc::esc(req, 40), 1, -1, true); if (!refused) { w.kv[k] = {1, sticky, exp, (int64_t)sim::now_s(), ++w.serial, coll}; if (!w.present(k)) w.fail("lost", k + " is not there right after it was stored"); } (void)had; };
    long sizes[] = {20000, 48000, 3000, 300}; int n = 0; for (;; n++) { size_t b = w.kv.size(); string k = "f" + S(n); if (n % 7 == 3) { put(k, "lop insert " + k + " 0 5000 create 0 0 10\r\n" + string(5000, 'l') + "\r\n", false, 0, true, "CREATED_STORED\r\n"); } else if (n % 7 == 5) put(k, "bop insert " + k + " 1 6000 create 0 0 10\r\n" + string(6000, 't') + "\r\n", false, 0, true, "CREATED_STORED\r\n"); else put(k, big("set", k, sizes[n % 4], "0", 'a' + n % 26), false, 0, false, "STORED\r\n"); if (w.evicted) break; (void)b; if (n > 3000) { w.fail("limit", "the memory never fills up"); return; } }
    for (int i = 0; i < 10; i++) sim::settle(); w.sweep("background eviction", 1, -1, true); w.memory("filling"); size_t full = w.kv.size(); if (full < 100) w.fail("toomany", mc::fmt("only %zu items fit", full)); if (ctx.worker == 0) ctx.sample(mc::fmt("%zu items when full, %ld evicted", full, w.evicted));
    auto body = [&](const vector<int> &ix) { int serial2 = 0; auto oldest = [&](bool coll, bool newest) { string b; long o = newest ? -1 : 1l << 60; for (auto &e : w.kv) if (!e.second.sticky && !w.is_held(e.first) && !w.dead(e.second) && e.second.coll == coll && (newest ? e.second.ord > o : e.second.ord < o)) { o = e.second.ord; b = e.first; } return b; };
        for (int i : ix) { const string &a = alpha[i]; w.hist.push_back({a, ""}); string k = "n" + S(serial2++);
            if (a[0] == '+') sim::advance_s(61); else if (a == "set 100") put(k, big("set", k, 100, "0", 'A'), false, 0, false, "STORED\r\n"); else if (a == "set 3000") put(k, big("set", k, 3000, "0", 'B'), false, 0, false, "STORED\r\n"); else if (a == "set 40000") put(k, big("set", k, 40000, "0", 'C'), false, 0, false, "STORED\r\n"); else if (a == "set short") put(k, big("set", k, 40000, "5", 'D'), false, sim::now_s() + 5, false, "STORED\r\n");
            else if (a == "set sticky") put(k, big("set", k, 48000, "-1", 'E'), true, 0, false, "STORED\r\n"); else if (a == "list") put(k, "lop insert " + k + " 0 10000 create 0 0 10\r\n" + string(10000, 'F') + "\r\n", false, 0, true, "CREATED_STORED\r\n"); else if (a == "tree") put(k, "bop insert " + k + " 9 10000 create 0 0 10\r\n" + string(10000, 'G') + "\r\n", false, 0, true, "CREATED_STORED\r\n");
            else if (a == "grow") { k = oldest(true, true); if (k.empty()) continue; for (int j = 0; j < 3; j++) { string r = w.rpc("lop insert " + k + " 0 9000\r\n" + string(9000, 'H') + "\r\n"); if (r == "TYPE_MISMATCH\r\n") r = w.rpc("bop insert " + k + " " + S(100 + j) + " 9000\r\n" + string(9000, 'H') + "\r\n"); if (r != "STORED\r\n" && r != "ELEMENT_EXISTS\r\n" && r != "OVERFLOWED\r\n") w.fail("refused", "growing a collection: " + r); w.sweep(a, 1, -1, true); if (!w.kv.count(k)) w.fail("evicted", "the collection being grown was evicted"); } }
            else if (a == "get oldest") { k = oldest(false, false); string r = w.rpc("get " + k + "\r\n"); if (r.compare(0, 5, "VALUE")) w.fail("readable", k + ": " + r); w.bump(k); } else if (a == "get oldest coll") { k = oldest(true, false); if (k.empty()) continue; string r = w.rpc("lop get " + k + " 0..-1\r\n"); if (r == "TYPE_MISMATCH\r\n") r = w.rpc("bop get " + k + " 0..1000\r\n"); if (r.compare(0, 5, "VALUE")) w.fail("readable", k + ": " + r); w.bump(k); }
            else if (a == "replace oldest") { k = oldest(false, false); put(k, big("set", k, 700, "0", 'I'), false, 0, false, "STORED\r\n"); } else if (a == "delete newest") { k = oldest(false, true); w.rpc("delete " + k + "\r\n"); w.kv.erase(k); }
            else if (a == "hold oldest") { k = oldest(false, false); if (w.held.size()) continue; int h = sim::connect(); sim::run(); sim::send_script(h, vector<int>{10, -1}); sim::send(h, "get " + k + "\r\n"); sim::run(); w.bump(k); w.held.push_back(k); w.holder = h; }
            else if (a == "release") { if (w.held.size()) w.release(); }
            else if (a == "burst") for (int j = 0; j < 30; j++) { string kk = k + "b" + S(j); put(kk, big("set", kk, sizes[j % 4], "0", 'J'), false, 0, false, "STORED\r\n"); }
            else if (a == "incr") put(k, "set " + k + " 0 0 1\r\n5\r\n", false, 0, false, "STORED\r\n"); }
        for (int i = 0; i < 3; i++) sim::settle(); w.sweep("background eviction", 1, -1, true);
        for (auto &e : w.kv) if (!w.dead(e.second) && !e.second.coll) { string r = sim::rpc(w.c, "get " + e.first + "\r\n"); if (r.compare(0, 5, "VALUE") || r.compare(r.size() - 7, 7, "\r\nEND\r\n")) w.fail("readable", e.first + " unreadable: " + mc::esc(r, 80)); size_t p = r.find("\r\n") + 2; for (size_t q = p; q + 7 < r.size(); q += 97) if (r[q] != r[p]) w.fail("readable", e.first + " damaged"); }
        w.memory("the sequence"); if (w.kv.size() < full / 3) w.fail("toomany", mc::fmt("only %zu of %zu items left", w.kv.size(), full)); };
    vector<int> ix(depth); size_t total = 1; for (int i = 0; i < depth; i++) total *= alpha.size();
    for (size_t q = 0; q < total; q++) { size_t v = q; for (int i = depth - 1; i >= 0; i--) { ix[i] = v % alpha.size(); v /= alpha.size(); } if (!ctx.mine()) { if (ctx.out_of_time_fast()) return; continue; } ctx.isolated([&] { body(ix); }, 60); ctx.trace(); ctx.trans(depth); string nm; for (int i : ix) nm += alpha[i] + ";"; ctx.distinct(mc::hash(nm)); if (q % 509 == 0) ctx.sample(nm); }
}
