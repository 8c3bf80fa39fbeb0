// C14 multi-key requests, C15 attributes, C16 type and readability checks, C20 accounting
#include "alpha.h"
#include <algorithm>
#include <cmath>
using namespace ex; using namespace al; using std::string; using std::vector;
static string blk(const string &cmd, const Strs &keys, const string &sep = " ") { string b; for (size_t i = 0; i < keys.size(); i++) b += (i ? sep : "") + keys[i]; return cmd + " " + S(b.size()) + " " + S(keys.size()) + "\r\n" + b + "\r\n"; }
static string line(const string &cmd, const Strs &keys) { string r = cmd; for (auto &k : keys) r += " " + k; return r + "\r\n"; }
// ------------------------------------------------------------------ C14
SUITE("C14", multi_lists, "asan", BOTH) { // every key list up to a length, every command form
    mc::boot_std(); Lock l(ctx); l.connect(); string lk(300, 'L'), mk(250, 'm');
    Strs ks = {"a", "bb", "miss", "col", "p:x", lk, mk + "1", mk + "2"}; l.begin();
    Strs init = {kset("set", "a", "1", 1), kset("set", "bb", "", 2), "lop create col 0 0 5\r\n", kset("set", "p:x", "END\r\n", 3), kset("set", lk, string(2000, 'v'), 4), kset("set", mk + "1", string(40, 'w'), 5)};
    for (auto &c : init) l.step(c);
    int D = ctx.thorough ? 5 : 4; ctx.note_bound("every list of 1.." + S(D) + " keys over 8 names (hits, misses, a collection, equal prefixes, repeated names) as get, gets, mget, mgets, and the same keys asked one by one");
    for (int d = 1; d <= D; d++) { vector<int> ix(d, 0); for (;;) {
        if (ctx.mine()) { l.begin(); Strs k; for (int i : ix) k.push_back(ks[i]); 
            l.step(line("get", k)); l.step(line("gets", k)); l.step(blk("mget", k)); l.step(blk("mgets", k)); if (d <= 2) for (auto &x : k) l.step("gets " + x + "\r\n"); l.step("get a\r\n"); ctx.trace(); ctx.distinct(mc::hash(line("", k))); if (ctx.case_index() % 997 == 0) ctx.sample(line("get", k) + " -> " + l.last_rep.substr(0, 200)); }
        int p = d - 1; while (p >= 0 && ++ix[p] == (int)ks.size()) ix[p--] = 0; if (p < 0) break; } }
}
SUITE("C14", multi_sizes, "asan", BOTH) { // number of keys x key length x value length: token, block and reply buffers
    mc::boot_std({"-m", "200"}); Lock l(ctx); l.connect(); vector<int> ns; for (int i = 1; i <= (ctx.thorough ? 300 : 70); i++) ns.push_back(i); for (int n : {99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 400, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000}) ns.push_back(n);
    ctx.note_bound("key lists of 1..70 (thorough 300) and selected counts to 10000 keys x 8 key lengths x 4 value lengths x all command forms x alternating hits and misses; key blocks around the memory block boundaries");
    for (int n : ns) for (int kl : {1, 3, 7, 20, 23, 63, 100, 249}) { if ((long)n * kl > 130000) continue; if (!ctx.mine()) continue; l.begin(); 
        for (int vl : {0, 3, 200, 3000}) { if ((long)n * vl > 700000) continue; Strs k; int m = std::min(n, 12); Strs base; for (int i = 0; i < m; i++) { string x = S(i * 7 + 1); if ((int)x.size() > kl) x = x.substr(0, kl); base.push_back(x + string(kl - x.size(), 'k')); }
            for (int i = 0; i < m; i++) if (i % 3 != 2) l.step(kset("set", base[i], string(vl, 'a' + i), i)); for (int i = 0; i < n; i++) k.push_back(base[(i * 5) % m]);
            auto keep = [&] { if (l.hist.size() > 40) l.hist.erase(l.hist.begin(), l.hist.end() - 20); };
            l.step(blk("mget", k)); l.step(blk("mgets", k)); string g = line("get", k); if (g.size() < 60000) { l.step(g); l.step(line("gets", k)); } keep(); for (auto &b : base) l.step("delete " + b + "\r\n"); l.m.cas.clear(); keep(); l.m.kv.clear(); }
        ctx.trace(); ctx.distinct(n * 1000 + kl); }
    // block boundaries: total key block length around multiples of the memory block sizes, all split points
    for (int tot : {2000, 2048, 4096, 8100, 8192, 16384, 24576}) for (int d = -20; d <= 20; d++) for (int pos : {1, 40, 100, 150}) { if (!ctx.mine()) continue; l.begin(); l.step(kset("set", "zz", "found", 9)); Strs k; int left = tot + d; 
        int first = pos; k.push_back(string(first, 'x')); left -= first + 1; while (left > 211) { k.push_back(string(200, 'y')); left -= 201; if (left > 211 && k.size() % 3 == 0) { k.push_back("zz"); left -= 3; } } if (left > 3) { k.push_back("zz"); left -= 3; } if (left >= 1) k.push_back(string(left, 'z'));
        l.step(blk("mget", k)); l.step(blk("mgets", k)); l.step("get zz\r\n"); l.m.cas.clear(); ctx.trace(); }
    for (int n : {5000, 9999, 10000}) { if (!ctx.mine()) continue; l.begin(); l.step(kset("set", "k3", "v", 9)); Strs k; for (int i = 0; i < n; i++) k.push_back("k" + S(i)); l.step(blk("mget", k)); l.step(blk("mgets", k)); l.m.cas.clear(); ctx.trace(); }
}
SUITE("C14", multi_bad, "asan", BOTH) { // malformed key blocks are refused as a whole and the connection stays usable
    mc::boot_std(); Lock l(ctx); l.connect(); for (auto &c : Strs{kset("set", "a", "1", 1), kset("set", "bb", "22", 2), "bop create t 0 0 9\r\n", bopi("t", "1", "x")}) l.step(c);
    const string A = "ab  "; int D = ctx.thorough ? 7 : 6; ctx.note_bound("every key block of length 1.." + S(D) + " over {a, b, blank} x announced key counts 0..4 for mget, mgets, bop mget, bop smget; well-formed blocks are compared with the model, others must give one CLIENT_ERROR line");
    for (int n = 1; n <= D; n++) for (long m = 0, M = (long)pow(3, n); m < M; m++) { string b; long x = m; for (int i = 0; i < n; i++) { b += "ab "[x % 3]; x /= 3; } 
        for (int nk = 0; nk <= 4; nk++) for (auto form : {"mget", "mgets", "bop mget", "bop smget"}) { if (!ctx.mine()) continue; l.begin(); 
            auto toks = model::split(b); bool clean = b[0] != ' ' && b[n - 1] != ' ' && b.find("  ") == string::npos && (int)toks.size() == nk; bool dup = false; for (size_t i = 0; i < toks.size(); i++) for (size_t j = i + 1; j < toks.size(); j++) if (toks[i] == toks[j]) dup = true;
            string h = string(form) + " " + S(n) + " " + S(nk) + (form[0] == 'b' ? string(form) == "bop smget" ? " 0..9 5 duplicate\r\n" : " 0..9 5\r\n" : "\r\n");
            if (clean && !(dup && form[0] == 'b')) { l.step(h + b + "\r\n"); }
            else { string req = h + b + "\r\n", rep = sim::rpc(l.c, req); ctx.trans(); size_t e = rep.find("\r\n"); 
                   bool cerr = rep.compare(0, 13, "CLIENT_ERROR ") == 0, single = e != string::npos && e + 2 == rep.size();
                   bool legal = clean || (int)toks.size() == nk; // extra blanks between well-formed keys may be tolerated
                   bool refused_line = cerr && rep.size() > e + 2 && rep.compare(e + 2, 13, "ERROR unknown") == 0 && nk == 0; // header refused: block read as a command
                   if (!(cerr && single) && !refused_line && !legal) l.fail("badblock", "malformed key block " + mc::esc(req) + " got \"" + mc::esc(rep) + "\""); 
                   if (legal && !cerr && !(rep.size() >= 5)) l.fail("badblock", "no reply to " + mc::esc(req)); }
            l.step("get a bb\r\n"); ctx.trace(); ctx.distinct(mc::hash(h + b)); } }
}
// ------------------------------------------------------------------ C15
static Strs setvals() { return {"expiretime=0", "expiretime=100", "expiretime=-1", "expiretime=x", "maxcount=1", "maxcount=2", "maxcount=3", "maxcount=10", "maxcount=0", "maxcount=-1", "maxcount=50000", "maxcount=50001", "maxcount=1000000", "maxcount=2147483647", "maxcount=", "overflowaction=error", "overflowaction=head_trim", "overflowaction=tail_trim", "overflowaction=smallest_trim", "overflowaction=largest_trim", "overflowaction=smallest_silent_trim", "overflowaction=largest_silent_trim", "overflowaction=none",
    "readable=on", "readable=off", "maxbkeyrange=0", "maxbkeyrange=1", "maxbkeyrange=24", "maxbkeyrange=25", "maxbkeyrange=1000", "maxbkeyrange=0x000d", "maxbkeyrange=0x000e", "maxbkeyrange=0x00ff", "maxbkeyrange=q", "flags=1", "count=1", "minbkey=1", "trimmed=1", "novalue", "unknown=1", "expiretime=-5", "expiretime=2592001"}; }
static const char *ATTRS[] = {"flags", "expiretime", "type", "count", "maxcount", "overflowaction", "readable", "maxbkeyrange", "minbkey", "maxbkey", "trimmed", "foo"};
SUITE("C15", attr_grid, "asan", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); string K = "K"; auto ts = types(K); auto sv = setvals();
    ctx.note_bound(S(ts.size()) + " item states x every single setattr and every ordered pair of " + S(sv.size()) + " attribute settings (triples for 12 of them), then all attributes and contents; getattr of every subset of 2 of 12 attribute names");
    auto obs = [&](const TypeInit &t) { l.step("getattr K\r\n"); for (auto &d : t.dump) l.step(d); if (t.name[0] == 't' || t.name[0] == 'b') { l.step(bopi("K", t.name[0] == 'b' ? "0x0200" : "77", "new")); l.step("getattr K\r\n"); for (auto &d : t.dump) l.step(d); } else if (string(t.name) == "list") { for (int i = 0; i < 2; i++) l.step("lop insert K 0 1\r\nz\r\n"); l.step("lop get K 0..-1\r\n"); } l.step("delete K\r\n"); l.m = model::Model(); l.m.now = sim::now_s(); };
    for (auto &t : ts) for (auto &a : sv) { if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step("setattr K " + a + "\r\n"); obs(t); ctx.trace(); ctx.distinct(mc::hash(t.name + a)); }
    for (auto &t : ts) for (auto &a : sv) for (auto &b : sv) { if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step("setattr K " + a + " " + b + "\r\n"); l.step("getattr K\r\n"); l.step("setattr K " + b + "\r\n"); obs(t); ctx.trace(); ctx.distinct(mc::hash(t.name + a + "/" + b)); if (ctx.case_index() % 5003 == 0) ctx.sample(string(t.name) + ": setattr " + a + " " + b + " -> " + l.last_rep); }
    Strs s3 = {"expiretime=100", "expiretime=-1", "maxcount=2", "maxcount=1", "overflowaction=error", "overflowaction=smallest_trim", "overflowaction=tail_trim", "readable=on", "maxbkeyrange=24", "maxbkeyrange=25", "maxbkeyrange=0x00ff", "maxcount=5"};
    for (auto &t : ts) for (auto &a : s3) for (auto &b : s3) for (auto &c3 : s3) { if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step("setattr K " + a + " " + b + " " + c3 + "\r\n"); obs(t); ctx.trace(); }
    for (auto &t : ts) for (auto &a : ATTRS) for (auto &b : ATTRS) { if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step(string("getattr K ") + a + "\r\n"); l.step(string("getattr K ") + a + " " + b + "\r\n"); l.step(string("getattr K ") + a + " " + b + " " + a + "\r\n"); obs(t); ctx.trace(); }
    // create with attributes
    for (auto ty : {"lop", "sop", "mop", "bop"}) for (auto fl : {"0", "1", "4294967295", "4294967296", "-1", "x"}) for (auto ex : {"0", "-1", "50", "y", "2592000", "-7"}) for (auto mc : {"0", "-1", "1", "50000", "50001", "2147483648", "z"}) for (auto ov : {"", "error", "tail_trim", "head_trim", "smallest_trim", "largest_silent_trim", "bad"}) for (auto rd : {"", "unreadable", "readable"}) {
        if (!ctx.mine()) continue; l.begin(); string c = string(ty) + " create K " + fl + " " + ex + " " + mc + (*ov ? string(" ") + ov : "") + (*rd ? string(" ") + rd : "") + "\r\n"; l.step(c); l.step("getattr K\r\n"); l.step("delete K\r\n"); ctx.trace(); }
}
SUITE("C15", attr_seq, "std", BOTH) {
    mc::boot_std({"-g", "10"}); Spec s; string K = "K";
    s.alpha = {"bop create K 3 0 3 smallest_trim\r\n", bopi(K, "10", "a"), bopi(K, "20", "b"), bopi(K, "30", "c"), bopi(K, "40", "d"), bopi(K, "5", "e"), "setattr K maxcount=2\r\n", "setattr K maxcount=4 overflowaction=largest_trim\r\n", "setattr K overflowaction=smallest_trim\r\n", "setattr K maxbkeyrange=15\r\n", "setattr K maxbkeyrange=0\r\n", "setattr K expiretime=10 maxcount=1\r\n", "bop delete K 10..20\r\n", "bop delete K 0..100 drop\r\n", "getattr K\r\n", "+11"};
    s.observe = {"getattr K\r\n", "bop get K 0..100\r\n", "getattr K trimmed minbkey maxbkey maxbkeyrange\r\n"}; s.cleanup = {"delete K\r\n"}; s.depth = ctx.thorough ? 6 : 5; s.start = {0}; 
    all_sequences(ctx, s);
}
// ------------------------------------------------------------------ C16
SUITE("C16", type_matrix, "asmall", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds();
    Strs obs = {"get K\r\n", "getattr K\r\n", "setattr K readable=on\r\n", "getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..1000\r\n", "bop get K 0x00..0xffffffff\r\n", "bop gbp K asc 0..100\r\n", "delete K\r\n"};
    ctx.note_bound(S(ts.size()) + " item states x every ordered pair" + (ctx.thorough ? " and triple (of a third)" : "") + " of " + S(cs.size()) + " commands of all types, followed by a complete look at the item");
    auto runit = [&](const TypeInit &t, std::initializer_list<const string *> q) { l.begin(); for (auto &c : t.init) l.step(c); for (auto c : q) l.step(*c); for (auto &o : obs) l.step(o); l.m = model::Model(); l.m.now = sim::now_s(); ctx.trace(); };
    for (auto &t : ts) for (auto &a : cs) { if (ctx.mine()) { runit(t, {&a}); ctx.distinct(mc::hash(t.name + a)); if (ctx.case_index() % 101 == 0) ctx.sample(string(t.name) + ": " + a); } }
    for (auto &t : ts) for (auto &a : cs) for (auto &b : cs) { if (ctx.mine()) { runit(t, {&a, &b}); ctx.distinct(mc::hash(t.name + a + b)); } }
    if (ctx.thorough) for (auto &t : ts) for (auto &a : cs) for (auto &b : cs) for (size_t i = 0; i < cs.size(); i += 3) { if (ctx.out_of_time_fast()) return; if (ctx.mine()) runit(t, {&a, &b, &cs[i]}); }
}
