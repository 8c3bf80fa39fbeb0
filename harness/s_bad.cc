// C24 malformed, oversized and truncated requests
#include "bin.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace ex; using namespace al; using std::string; using std::vector; using std::pair;
static const Strs DUMP = {"getattr K\r\n", "getattr K maxbkeyrange\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "gets other\r\n"};
static bool is_err(const string &r) { for (auto p : {"CLIENT_ERROR", "ERROR", "SERVER_ERROR", "ATTR_ERROR"}) if (r.compare(0, strlen(p), p) == 0) return true; return false; }
static string dump(int c) { string r; for (auto &d : DUMP) r += sim::rpc(c, d); return r; }
static const string SENTR = "VALUE other 7 4\r\nkeep\r\nEND\r\n";
static Strs junk(bool th) { Strs r = {"-1", "x", "0", "1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-2147483649", "2147483648", "0x", "0xZZ", "0x123", "0x12", "0x" + string(62, 'a'), "0x" + string(64, 'a'), "1..2..3", "..", "1..", "..5", "0..-1", "0x01..5", "1..0x05", string(300, 'q'), string(3000, 'q'), "noreply", "pipe", "create", "drop", "delete", "1x", "%s%n", string("\x01\x7f\xff"), "00", "1.5", "expiretime=", "=", "count=5", "EQ", "&", "|", "0x00000000000000000000000000000000000000000000000000000000000001"};
    if (th) { for (auto &x : Strs{string(15999, 'q'), string(16001, 'q'), "2", "5", "-2", "65536", "1048577", "0..0", "5..1", "asc", "desc", "unique", "duplicate", "unreadable", "error", "fixed", "head_trim", "0X01", "0x0g", "1e1"}) r.push_back(x); } return r; }
struct W { mc::Ctx &ctx; Lock &l; const TypeInit *t; string before; bool dirty = true; std::set<string> names; };
static void prep(W &w) { if (!w.dirty) return; sim::rpc(w.l.c, "delete K\r\n"); sim::rpc(w.l.c, "delete other\r\n"); for (auto &n : w.names) sim::rpc(w.l.c, "delete " + n + "\r\n"); w.names.clear(); w.l.m = model::Model(); w.l.m.now = sim::now_s(); w.l.begin(); for (auto &c : w.t->init) w.l.step(c); w.l.step(kset("set", "other", "keep", 7)); w.before = dump(w.l.c); w.dirty = false; }
// one malformed (or perhaps still valid) request
static void one(W &w, const string &line, const string &body0) {
    prep(w); Lock &l = w.l; l.begin(); string req = line + "\r\n", body; long n = model::data_length(line); bool big = false;
    if (n >= 0) { if (n + 2 == (long)body0.size()) body = body0; else if (n <= 20000) body = string(n, 'x') + "\r\n"; else { body = body0.empty() ? "zz\r\n" : body0; big = true; } } req += body;
    if (line.compare(0, 10, "bop smget ") == 0 && (line.find("unique") != string::npos || line.find("duplicate") != string::npos)) { auto x = model::split(line); size_t k = x.size() - 1; uint32_t u; bool ef = false; for (size_t i = 5; i < x.size(); i++) if (x[i].compare(0, 2, "0x") == 0) ef = true; if (k - 5 == (ef ? (x.size() > 9 && x[9].compare(0, 2, "0x") == 0 ? 7u : 5u) : 2u) && model::parse_u32(x[k - 1], u)) { sim::rpc(l.c, req); if (sim::closed(l.c)) l.connect(); sim::rpc(l.c, "get nothing\r\n"); sim::shut(l.c); sim::run(); l.connect(); w.dirty = true; return; } } // the offset is documented for the old form only
    auto t = model::split(line); bool nrp = !t.empty() && (t.back() == "noreply" || t.back() == "pipe"); bool pipe = !t.empty() && t.back() == "pipe";
    model::Model pre = l.m, m = l.m; string err, exp = m.exec(req, nullptr, err); for (auto &k : m.kv) if (k.first != "K" && k.first != "other") { w.names.insert(k.first); w.dirty = true; } string rep = sim::rpc(l.c, req); w.ctx.trans(); w.ctx.trace(); w.ctx.distinct(mc::hash(string(w.t->name) + req)); auto H = [&] { l.begin(); for (auto &i : w.t->init) l.hist.push_back({mc::esc(i, 200), ""}); l.hist.push_back({mc::esc(req, 500), mc::esc(rep, 500)}); };
    if (sim::closed(l.c)) { l.connect(); w.dirty = true; if (line.size() <= 1024) { H(); l.fail("closed", "connection closed on a request of " + S(line.size()) + " bytes"); } return; }
    string s; if (pipe) { sim::rpc(l.c, "lop get nolist 0\r\n"); sim::run(); sim::take(l.c); sim::rpc(l.c, "\r\n"); } s = sim::rpc(l.c, "get other\r\n");
    if (s != SENTR && !big && n < 0) { // a length the model could not read from the line: the block may still be expected. nothing else is excused
    }
    if (s != SENTR) { // still waiting for the rest of a block announced by the line
        bool sw = false; for (auto &x : t) { int64_t v; if (model::parse_i64(x, v) && (v > 20000 || v < 0)) sw = true; uint64_t u; if (model::parse_u64(x, u) && u > 20000) sw = true; }
        if (sw && s.empty()) { sim::shut(l.c); sim::run(); sim::forget(l.c); l.connect(); string d = dump(l.c); if (d != w.before) { w.dirty = true; if (line.compare(0, 4, "set ") && line.compare(0, 4, "cas ")) { H(); l.fail("state", "a refused request changed the data: " + mc::esc(d, 300)); } } return; }
        H(); l.hist.push_back({"get other", mc::esc(s, 300)}); w.dirty = true; sim::shut(l.c); sim::run(); l.connect(); l.fail("sync:" + (t.empty() ? string() : t[0] + (t.size() > 1 && (t[0] == "lop" || t[0] == "sop" || t[0] == "mop" || t[0] == "bop") ? "_" + t[1] : "")), "the following request is answered " + mc::esc(s, 200)); return; }
    if (nrp) { for (size_t i = 1; i < t.size() && i < 3; i++) if (t[i] != "K" && t[i] != "other" && t[i].size() < 16000) w.names.insert(t[i]); w.dirty = true; return; } // effects with noreply and pipe belong to C25
    if (rep.empty() || rep.compare(rep.size() - 2, 2, "\r\n")) { H(); l.fail("noreply", "no complete reply"); w.dirty = true; return; }
    bool e1 = is_err(exp), e2 = is_err(rep); string vb = t.empty() ? "" : t[0] + (t.size() > 1 && (t[0] == "lop" || t[0] == "sop" || t[0] == "mop" || t[0] == "bop") ? "_" + t[1] : "");
    if (e1 && !e2 && t.size() > 1) { string cut = line.substr(0, line.find_last_not_of(' ') + 1); cut = cut.substr(0, cut.rfind(' ')) + req.substr(line.size()); model::Model m3 = pre; if (!is_err(m3.exec(cut, nullptr, err))) { m3 = pre; m3.exec(cut, &rep, err); if (err.empty()) { for (auto &k : m3.kv) if (k.first != "K" && k.first != "other") w.names.insert(k.first); w.dirty = true; return; } } } // one superfluous argument at the end is ignored
    if (e1 && !e2) { H(); l.fail("accepted:" + vb, "accepted although malformed: " + mc::esc(rep, 200) + ", expected " + mc::esc(exp, 100)); w.dirty = true; return; }
    if (t.size() > 13 && t[0] == "getattr") return; // no more attribute names than there are attributes
    if (!e1 && e2) { H(); l.fail("refused:" + vb, "refused although well formed: " + mc::esc(rep, 200) + ", expected " + mc::esc(exp, 100)); w.dirty = true; return; }
    if (e2) { size_t p = rep.find("\r\n") + 2; string tail = rep.substr(p); string first = rep.substr(0, p); if (!tail.empty()) { long k = 0; for (size_t q = 0; (q = tail.find("\r\n", q)) != string::npos; q += 2) k++; if (tail.compare(0, 5, "ERROR") || k > 1) { H(); l.fail("replies", "more than one reply: " + mc::esc(rep, 300)); } }
        string d = dump(l.c); if (d != w.before) { w.dirty = true; if (first.compare(0, 12, "SERVER_ERROR") == 0 && vb == "set") return; H(); l.fail("state:" + vb, "a refused request changed the data: " + mc::esc(d, 400) + " instead of " + mc::esc(w.before, 400)); }
        return; }
    model::Model m2 = pre; m2.exec(req, &rep, err); if (!err.empty()) { H(); l.fail("reply:" + vb, err); } w.dirty = true;
}
static Strs cmds24() { Strs r = all_cmds(); for (auto &x : Strs{"mop get K 3 2 delete\r\nf g\r\n", "bop smget 1 1 0..100 0 5 unique\r\nK\r\n", "bop mget 7 2 0..100 0 EQ 0x01 1 5\r\nK other\r\n", "bop get K 0..100 0 & 0x01 EQ 0x01 1 2\r\n", "bop count K 0..100 0 NE 0x01,0x02\r\n", "bop delete K 5..9 0 LT 0x02 1 drop\r\n", "bop pwg K 5 desc 3\r\n", "bop gbp K desc 3\r\n", "bop insert K 0x0102 0x01 1 create 1 10 20 smallest_trim unreadable\r\nz\r\n", "lop insert K -1 1 create 1 10 20 head_trim unreadable\r\nz\r\n", "setattr K maxcount=5 overflowaction=error readable=on maxbkeyrange=5 expiretime=9\r\n", "getattr K flags count type maxcount overflowaction readable maxbkeyrange minbkey maxbkey trimmed expiretime\r\n", "mgets 7 2\r\nK other\r\n", "get K other K\r\n", "delete K 0\r\n"}) r.push_back(x); return r; }
SUITE_B("C24", mutate_line, "asan", BOTH, 140, 1500) { // every token of every command dropped, doubled, swapped, replaced, inserted
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = cmds24(); Strs jk = junk(ctx.thorough);
    ctx.note_bound(S(cs.size()) + " commands in the item state(s) they fit: every token dropped, doubled, swapped with its neighbour, replaced by each of " + S(jk.size()) + " malformed or extreme tokens, and each of them inserted at every place" + "; pairs of replacements" + (ctx.thorough ? "" : " by each of 17 tokens") + "; well formed results must succeed as specified, all others give one error, change nothing, and leave the connection in step");
    for (auto &t : ts) { string tn = t.name; if (tn != "kv" && tn != "num" && tn != "list" && tn != "set" && tn != "map" && tn != "tree" && tn != "bintree") continue; W w{ctx, l, &t};
        for (auto &c : cs) { string v = c.substr(0, c.find(' ')); bool coll = v == "lop" || v == "sop" || v == "mop" || v == "bop"; if ((v == "lop" && tn != "list") || (v == "sop" && tn != "set") || (v == "mop" && tn != "map") || (v == "bop" && tn != "tree" && tn != "bintree") || (!coll && (tn == "bintree" || tn == "num") && v != "incr" && v != "decr" && v != "setattr")) continue; if (!coll && tn != "kv" && tn != "num" && v != "setattr" && v != "getattr" && !ctx.thorough) continue; if (tn == "bintree" && !ctx.thorough) continue; if (c.find("@L") != string::npos || v == "flush_prefix") continue;
            if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; w.dirty = true; size_t p = c.find("\r\n"); string line = c.substr(0, p), body = c.substr(p + 2); auto tk = model::split(line); auto go = [&](const vector<string> &x) { string s; for (size_t i = 0; i < x.size(); i++) s += (i ? " " : "") + x[i]; one(w, s, body); };
            go(tk); for (size_t i = 0; i < tk.size(); i++) { auto x = tk; x.erase(x.begin() + i); go(x); x = tk; x.insert(x.begin() + i, tk[i]); go(x); if (i + 1 < tk.size()) { x = tk; std::swap(x[i], x[i + 1]); go(x); } }
            for (size_t i = 1; i < tk.size(); i++) for (auto &j : jk) { auto x = tk; x[i] = j; go(x); } for (size_t i = 1; i <= tk.size(); i++) for (auto &j : jk) { auto x = tk; x.insert(x.begin() + i, j); go(x); } for (size_t i = 0; i < tk.size(); i++) { string s; for (size_t k = 0; k < tk.size(); k++) s += (k ? (k == i + 1 ? "   " : " ") : "") + tk[k]; one(w, s, body); one(w, s + "  ", body); }
            static const Strs few = {"-1", "x", "0", "1", "4294967295", "18446744073709551615", "0x", "0x12", "1..", "0..-1", "0x01..5", "noreply", "create", "drop", "delete", "EQ", "&"}; const Strs pj = ctx.thorough ? junk(false) : few; for (size_t i = 1; i < tk.size(); i++) for (size_t k = i + 1; k < tk.size(); k++) for (auto &a : pj) for (auto &b : pj) { if (a.size() + b.size() > 400 || ctx.out_of_time_fast()) continue; auto x = tk; x[i] = a; x[k] = b; go(x); } } }
}
SUITE("C24", bytes, "asan", BOTH) { // arbitrary bytes, long lines, truncation
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); W w{ctx, l, &ts[0]}; uint64_t fds = sim::outstanding_fds(); const string A = string("\0\n\r gK5\xff\x80", 9); vector<string> ws{""}; size_t from = 0; for (int n = 1; n <= (ctx.thorough ? 5 : 4); n++) { size_t to = ws.size(); for (size_t i = from; i < to; i++) for (char c : A) ws.push_back(ws[i] + c); from = to; }
    ctx.note_bound(S(ws.size()) + " byte strings up to " + S(ctx.thorough ? 5 : 4) + " bytes, each also after a command word; lines of 1..70000 bytes of several kinds with and without an end; every command broken off after every byte");
    auto raw = [&](const string &b, bool mayclose) { prep(w); l.begin(); int c = sim::connect(); sim::run(); if (sim::closed(c)) { w.ctx.fail("conn", "connection refused"); } sim::rpc(c, "get other\r\n"); string rep = sim::rpc(c, b); bool cl = sim::closed(c); l.hist.push_back({mc::esc(b, 300) + mc::fmt(" [%zu bytes]", b.size()), mc::esc(rep, 300)}); if (cl && !mayclose) l.fail("closed", "connection closed");
        if (!cl) { string r2 = sim::rpc(c, "\r\nget other\r\n"); if (r2.size() < SENTR.size() || r2.compare(r2.size() - SENTR.size(), SENTR.size(), SENTR)) { l.hist.push_back({"get other", r2}); if (!sim::closed(c) || !mayclose) l.fail("sync", "the following request is answered " + mc::esc(r2, 200)); } } sim::shut(c); sim::run(); sim::forget(c); string d = dump(l.c); if (d != w.before) { w.dirty = true; l.fail("state", "changed the data: " + mc::esc(d, 300)); } ctx.trace(); ctx.trans(); ctx.distinct(mc::hash(b)); };
    for (auto &x : ws) { if (!ctx.mine()) continue; raw(x, false); if (x.size() < 4) { raw("get " + x + "\r\n", false); raw("getattr K " + x + "\r\n", false); raw("bop get K " + x + "\r\n", false); raw("lop get " + x + "\r\n", false); raw("mop get K 0 0" + x + "\r\n", false); raw("stats " + x + "\r\n", false); raw("help " + x + "\r\n", false); raw("scan key " + x + "\r\n", false); raw("scan prefix " + x + "\r\n", false); raw("dump " + x + "\r\n", false); raw("cmdlog " + x + "\r\n", false); raw("lqdetect " + x + "\r\n", false); raw("touch nokey" + x + "\r\n", false); raw("stats prefixes " + x + "\r\n", false); raw("stats detail " + x + "\r\n", false); raw("config zkfailstop " + x + "\r\n", false); } }
    for (size_t n : {100u, 1000u, 1023u, 1024u, 1025u, 1030u, 1100u, 1200u, 2040u, 2047u, 2048u, 2049u, 4096u, 8192u, 16384u, 24575u, 24576u, 24577u, 24600u, 32768u, 40000u, 65535u, 65536u, 65537u, 70000u, 131072u, 200000u}) for (int k = 0; k < 9; k++) for (int e = 0; e < 2; e++) { if (!ctx.mine()) continue; const char *pre[] = {"", "get ", "gets ", "set ", "get K ", "bop get K ", "", "stats prefixes ", "mget "}; char fill[] = {'x', 'k', 'k', '1', ' ', '0', ' ', 'p', '1'}; raw(string(pre[k]) + string(n, fill[k]) + (e ? "\r\n" : ""), true); raw(string(99, ' ') + pre[k] + string(n, fill[k]) + (e ? "\r\n" : ""), true); if (k == 3) { string s = "set"; for (size_t i = 0; i < n / 2; i++) s += " a"; raw(s + (e ? "\r\n" : ""), true); s = "get"; for (size_t i = 0; i < n / 2; i++) s += " a"; raw(s + (e ? "\r\n" : ""), true); } }
    auto cs = cmds24(); for (auto &t : ts) for (auto &c : cs) { if (!ctx.mine()) continue; if (c.find("@L") != string::npos) continue; w.t = &t; w.dirty = true; prep(w); for (size_t q = 1; q + 1 < c.size(); q++) { size_t le = c.find("\r\n"); if (q == le + 1) continue; int x = sim::connect(); sim::run(); string r = sim::rpc(x, c.substr(0, q)); l.begin(); l.hist.push_back({mc::esc(c.substr(0, q)), r}); if (q <= le && !r.empty()) l.fail("early", "answered before the line is complete"); sim::shut(x); sim::run(); sim::forget(x); ctx.trans(); if (c.find("noreply") == string::npos && q <= le) { string d = dump(l.c); if (d != w.before) { w.dirty = true; l.fail("truncated", "an incomplete request had an effect"); } } } if (dump(l.c) != w.before && c.size() > c.find("\r\n") + 2 && !is_err(sim::rpc(l.c, "get other\r\n"))) { l.fail("truncated", "an incomplete request had an effect: " + mc::esc(c, 100)); } w.dirty = true; ctx.trace(); }
    if (sim::outstanding_fds() != fds) l.fail("fds", "connections are left open");
}

// -------------------------------------------------------------- binary packets


static bool is_quiet(int o) { return o == bin::GETQ || o == bin::GETKQ || (o >= bin::SETQ && o <= bin::PREPENDQ) || o == bin::LINSERTQ || o == bin::LDELETEQ || o == bin::SINSERTQ || o == bin::SDELETEQ || (o >= bin::BINSERTQ && o <= bin::BDELETEQ); }
static void bone(W &w, const bin::P &p, bool framed, bool close_ok) {
    prep(w); Lock &l = w.l; string raw = p.str(); bin::P nop = bin::simple(bin::NOOP); nop.opq = 0x77770000; string nop_s = nop.str(); int c = sim::connect(); sim::run(); bool opn = raw.size() >= 2 && (unsigned char)raw[0] == 0x80; if (!opn) { bin::P first = bin::simple(bin::NOOP); sim::rpc(c, first.str()); } string rep = sim::rpc(c, raw + nop_s); w.ctx.trans(); w.ctx.trace(); w.ctx.distinct(mc::hash(string(w.t->name) + raw)); bool cl = sim::closed(c); auto hex = [](const string &s) { string r; for (size_t i = 0; i < s.size() && i < 120; i++) r += mc::fmt("%02x", (unsigned char)s[i]); return r + mc::fmt(" (%zu bytes)", s.size()); };
    auto H = [&] { l.begin(); for (auto &i : w.t->init) l.hist.push_back({mc::esc(i, 200), ""}); l.hist.push_back({"binary " + hex(raw), hex(rep)}); }; string nm = mc::fmt("%02x", p.op);
    bool quiet = is_quiet(p.op); vector<bin::R> rs; bool ok = bin::parse(rep, rs); int st = -1; size_t nrep = 0; bool nopseen = false;
    if (!ok) { H(); l.fail("binreply:" + nm, "broken reply packet"); }
    else { for (size_t i = 0; i < rs.size(); i++) { if (rs[i].op == bin::NOOP && rs[i].opq == nop.opq) { nopseen = true; if (i + 1 != rs.size()) { H(); l.fail("binorder:" + nm, "replies after the reply to the following request"); } } else { nrep++; st = rs[i].status; if (rs[i].opq != p.opq || rs[i].op != p.op) { if (!(p.op == bin::STAT && rs[i].op == bin::STAT)) { H(); l.fail("binopaque:" + nm, "reply with another opcode or opaque value"); } } } }
        if (nrep > 1 && p.op != bin::STAT) { H(); l.fail("binreplies:" + nm, "more than one reply"); }
        if (!cl && !nopseen && framed) { H(); l.fail("binsync:" + nm, "the following request is not answered"); } if (cl && !close_ok) { H(); l.fail("binclosed:" + nm, "connection closed on a correctly framed packet"); }
        if (!opn && nrep) { H(); l.fail("binmagic", "answered a packet that is no request"); } }
    sim::shut(c); sim::run(); sim::forget(c);
    if (st > 0 || !opn || (nrep == 0 && !nopseen && !quiet)) { string d = dump(l.c); if (d != w.before) { w.dirty = true; if (p.op == bin::SET || p.op == bin::SETQ) return; H(); l.fail("binstate:" + nm, "a refused packet changed the data: " + mc::esc(d, 300)); } } else if (p.op == bin::FLUSH || p.op == bin::FLUSHQ || p.op == bin::FLUSHP) { sim::rpc(l.c, "flush_all\r\n"); sim::advance_s(3); sim::settle(); w.dirty = true; } else if (p.op != bin::GET && p.op != bin::NOOP && p.op != bin::VERSION) w.dirty = true;
}
static bool fits_bin(int op, const string &tn) { if (op >= 0x50 && op < 0x60) return tn == "list" || tn == "kv"; if (op >= 0x60 && op < 0x70) return tn == "set" || tn == "map"; if (op >= 0x70 && op < 0x80) return tn == "tree" || tn == "bintree" || tn == "list"; if (op == bin::GETATTR || op == bin::SETATTR) return tn == "kv" || tn == "map" || tn == "tree"; return tn == "num" || tn == "kv" || tn == "set"; }

SUITE_B("C24", bin_fields, "asan", BOTH, 140, 1500) { // each header field and each byte of the extras of every kind of packet
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto ps = bin::corpus(); uint64_t fds = sim::outstanding_fds();
    const long kls[] = {0, 1, 2, 3, 6, 24, 250, 251, 2030, 16000, 16001, 65535}; const long els[] = {0, 1, 4, 8, 11, 12, 16, 20, 44, 56, 72, 80, 255}; const int bytes[] = {0, 1, 2, 3, 5, 7, 8, 30, 31, 32, 33, 64, 127, 128, 200, 254, 255};
    ctx.note_bound(S(ps.size()) + " kinds of binary packets in the item states they fit: every opcode, magic, data type; key, extras and body length from sets of inconsistent and extreme values (one at a time; in pairs when thorough), every byte of the extras set to each of 17 values (pairs of neighbours when thorough), real keys of up to 16000 bytes, and packets broken off after every byte");
    for (auto &t : ts) { string tn = t.name; W w{ctx, l, &t}; for (auto &p : ps) { if (!fits_bin(p.op, tn)) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; w.dirty = true; bool q = p.op == bin::QUIT || p.op == bin::QUITQ || p.op == bin::FLUSHP;
        bone(w, p, !q, q);
        for (int o = 0; o < 256; o++) { bin::P x = p; x.op = o; bone(w, x, false, true); } for (int m : {0, 1, 0x7f, 0x81, 0xff}) { bin::P x = p; x.magic = m; bone(w, x, false, true); } for (int d : {1, 255}) { bin::P x = p; x.dtype = d; bone(w, x, !q, q); x = p; x.vb = d; bone(w, x, !q, q); }
        for (long k : kls) { bin::P x = p; x.keylen = k; bone(w, x, false, true); for (long e : els) if (ctx.thorough) { x.extlen = e; bone(w, x, false, true); } if (k > 0 && k < 20000 && !p.key.empty()) { x = p; x.key = string(k, 'k'); bone(w, x, !q && k <= 16000, q || k > 16000); if (k > 250) { x.key = "p:" + string(k - 2, 'k'); bone(w, x, !q && k <= 16000, q || k > 16000); } } }
        for (long e : els) { bin::P x = p; x.extlen = e; bone(w, x, false, true); x = p; x.ext = string(e, '\1'); bone(w, x, false, true); } { size_t b = p.ext.size() + p.key.size(); for (long v : {0l, 1l, (long)p.ext.size(), (long)p.key.size(), (long)b - 1, (long)b, (long)b + 1, (long)b + 2, (long)b + 100, 1l << 20, 1l << 24, 0x7ffffffdl, 0x7fffffffl, 0x80000000l, 0x80000020l, 0xfffffffel, 0xffffffffl}) { bin::P x = p; x.bodylen = v; bone(w, x, false, true); if (ctx.thorough) for (long k : kls) { x.keylen = k; bone(w, x, false, true); } } }
        for (long v : {0l, 1l, 16l, 100l, 100000l, 0x7fffff00l, 0x7ffffffel, 0x7fffffffl, 0x80000000l, 0xffffffffl}) { bin::P x = p; if (p.op != bin::NOOP) break; x.op = 0x99; x.bodylen = v; bone(w, x, false, true); x.val = string(std::min(v, 100000l), 'b'); bone(w, x, false, true); }
        for (size_t i = 0; i < p.ext.size(); i++) for (int b : bytes) { bin::P x = p; x.ext[i] = (char)b; bone(w, x, !q, q); if (ctx.thorough && i + 1 < p.ext.size()) for (int b2 : bytes) { x.ext[i + 1] = (char)b2; bone(w, x, !q, q); } }
        for (long n : {0l, 1l, 2l, 16383l, 16384l, 16385l, 32768l, 1048575l, 1048576l, 1048577l, 2000000l}) { if (p.val.empty() && p.op != bin::SET) continue; bin::P x = p; x.val = string(n, 'v'); bone(w, x, !q && n > 0, q || n == 0); }
        string raw = p.str(); for (size_t k = 1; k < raw.size(); k++) { prep(w); int c = sim::connect(); sim::run(); string r = sim::rpc(c, raw.substr(0, k)); if (!r.empty() && !sim::closed(c) && k < 24) { l.begin(); l.fail("binearly", "answered before the packet header is complete"); } sim::shut(c); sim::run(); sim::forget(c); ctx.trans(); if (k < 24 + p.ext.size() + p.key.size()) { string d = dump(l.c); if (d != w.before) { w.dirty = true; l.begin(); l.fail("bintruncated", mc::fmt("an incomplete packet %02x had an effect", p.op)); } } w.dirty = true; } } }
    sim::run(); if (sim::outstanding_fds() != fds) l.fail("fds", "connections are left open");
}
