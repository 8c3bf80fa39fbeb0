// C26: every binary request means what its ASCII counterpart means, and is framed exactly
#include "bin.h"
#include <functional>
using namespace ex; using namespace al; using std::string; using std::vector;
namespace B = bin;
static const char *OVN[] = {"", "error", "head_trim", "tail_trim", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"};
static int32_t i32(const string &s, size_t o) { return (int32_t)B::rd(s, o, 4); }
static string hex(const string &b) { string r = "0x"; char t[3]; for (unsigned char c : b) { snprintf(t, 3, "%02X", c); r += t; } return r; }
static string bkey_of(const string &e, size_t o) { int n = (unsigned char)e[o + 31]; return n == 0 ? std::to_string(B::rd(e, o, 8)) : hex(e.substr(o, n)); }
static string eflag_of(const string &e, size_t o) { int n = (unsigned char)e[o + 31]; return n == 0 || n == 255 ? "" : hex(e.substr(o, n)); }
static bool is_quiet(int op) { using namespace B; for (int q : {GETQ, GETKQ, SETQ, ADDQ, REPLACEQ, DELETEQ, INCRQ, DECRQ, QUITQ, FLUSHQ, APPENDQ, PREPENDQ, LINSERTQ, LDELETEQ, SINSERTQ, SDELETEQ, BINSERTQ, BUPSERTQ, BUPDATEQ, BDELETEQ}) if (op == q) return true; return false; }
static int base(int op) { using namespace B; switch (op) { case GETQ: case GETKQ: case GETK: return GET; case SETQ: return SET; case ADDQ: return ADD; case REPLACEQ: return REPLACE; case DELETEQ: return DELETE; case INCRQ: return INCR; case DECRQ: return DECR; case QUITQ: return QUIT; case FLUSHQ: return FLUSH; case APPENDQ: return APPEND; case PREPENDQ: return PREPEND; case LINSERTQ: return LINSERT; case LDELETEQ: return LDELETE; case SINSERTQ: return SINSERT; case SDELETEQ: return SDELETE; case BINSERTQ: return BINSERT; case BUPSERTQ: return BUPSERT; case BUPDATEQ: return BUPDATE; } return op; }
// the ASCII request with the same meaning ("" when there is none)
static string ascii(const B::P &p, model::Model &m) {
    using namespace B; const string &e = p.ext; auto blk = [&](const string &l, const string &tail = "") { return l + " " + S(p.val.size()) + tail + "\r\n" + p.val + "\r\n"; };
    auto crt = [&](size_t o) { return e[o + 12] ? " create " + S(rd(e, o, 4)) + " " + S(i32(e, o + 4)) + " " + S(i32(e, o + 8)) : string(); };
    auto mk = [&](const char *t) { int ov = (unsigned char)e[12]; bool okov = ov == 1 || (*t == 'l' && (ov == 2 || ov == 3)) || (*t == 'b' && ov >= 4 && ov <= 7); return string(t) + " create " + p.key + " " + S(rd(e, 0, 4)) + " " + S(i32(e, 4)) + " " + S(i32(e, 8)) + (okov ? string(" ") + OVN[ov] : "") + (e[13] ? "" : " unreadable") + "\r\n"; };
    switch (base(p.op)) {
    case GET: return "gets " + p.key + "\r\n";
    case SET: case ADD: case REPLACE: { const char *n = p.cas ? "cas" : base(p.op) == SET ? "set" : base(p.op) == ADD ? "add" : "replace"; return string(n) + " " + p.key + " " + S(rd(e, 0, 4)) + " " + S(i32(e, 4)) + " " + S(p.val.size()) + (p.cas ? " " + S(p.cas) : "") + "\r\n" + p.val + "\r\n"; }
    case APPEND: case PREPEND: return blk(string(base(p.op) == APPEND ? "append " : "prepend ") + p.key + " 0 0");
    case DELETE: return "delete " + p.key + "\r\n";
    case INCR: case DECR: { string r = (base(p.op) == INCR ? "incr " : "decr ") + p.key + " " + std::to_string(rd(e, 0, 8)); if (rd(e, 16, 4) != 0xffffffff) r += " 0 " + S(i32(e, 16)) + " " + std::to_string(rd(e, 8, 8)); return r + "\r\n"; }
    case FLUSH: return e.empty() ? "flush_all\r\n" : "flush_all " + S(rd(e, 0, 4)) + "\r\n";
    case FLUSHP: return "flush_prefix " + p.key + (e.empty() ? "" : " " + S(rd(e, 0, 4))) + "\r\n";
    case LCREATE: return mk("lop"); case SCREATE: return mk("sop"); case BCREATE: return mk("bop");
    case LINSERT: return blk("lop insert " + p.key + " " + S(i32(e, 0)), crt(4));
    case LDELETE: return "lop delete " + p.key + " " + S(i32(e, 0)) + ".." + S(i32(e, 4)) + (e[8] ? " drop" : "") + "\r\n";
    case LGET: return "lop get " + p.key + " " + S(i32(e, 0)) + ".." + S(i32(e, 4)) + (e[9] ? " drop" : e[8] ? " delete" : "") + "\r\n";
    case SINSERT: return blk("sop insert " + p.key, crt(0));
    case SDELETE: return blk("sop delete " + p.key, e[0] ? " drop" : "");
    case SEXIST: return blk("sop exist " + p.key);
    case SGET: return "sop get " + p.key + " " + S(rd(e, 0, 4)) + (e[5] ? " drop" : e[4] ? " delete" : "") + "\r\n";
    case BINSERT: case BUPSERT: { string f = eflag_of(e, 32); return blk(string(base(p.op) == BINSERT ? "bop insert " : "bop upsert ") + p.key + " " + bkey_of(e, 0) + (f.empty() ? "" : " " + f), crt(64)); }
    case BUPDATE: { string r = "bop update " + p.key + " " + bkey_of(e, 0); int nf = (unsigned char)e[63], off = (unsigned char)e[64], bw = (unsigned char)e[65]; if (nf != 255) { if (nf == 0) r += " 0"; else r += (bw < 3 ? " " + S(off) + (bw == 0 ? " &" : bw == 1 ? " |" : " ^") : string()) + " " + hex(e.substr(32, nf)); } return e[66] ? r + " -1\r\n" : blk(r); }
    case GETATTR: return "getattr " + p.key + "\r\n";
    case SETATTR: { string r = "setattr " + p.key; int len = (unsigned char)e[39], ov = (unsigned char)e[40]; if (e[42]) r += " expiretime=" + S(i32(e, 0)); if (e[43]) r += " maxcount=" + S(i32(e, 4)); if (len != 255) r += " maxbkeyrange=" + bkey_of(e, 8); if (ov) r += string(" overflowaction=") + OVN[ov]; if (e[41]) r += " readable=on"; return r + "\r\n"; }
    }
    return "";
}
static int status_of(const B::P &p, const string &a) {
    using namespace B; auto is = [&](const char *x) { return a.compare(0, strlen(x), x) == 0; }; int o = base(p.op);
    if (is("NOT_FOUND_ELEMENT")) return o == LGET || o == LDELETE ? 0x35 : 0x37; if (is("NOT_FOUND")) return o == FLUSHP ? 0x52 : 1; if (o == GET && is("END")) return 1; if (is("EXISTS")) return 2; if (is("NOT_STORED")) return o == ADD ? 2 : o == REPLACE ? 1 : 5;
    if (is("TYPE_MISMATCH")) return 0x32; if (is("OVERFLOWED")) return 0x33; if (is("OUT_OF_RANGE")) return o == LINSERT || o == LGET || o == LDELETE ? 0x35 : 0x36; if (is("ELEMENT_EXISTS")) return 0x38; if (is("ATTR_ERROR not found")) return 0x39; if (is("ATTR_ERROR bad value")) return 0x34; if (is("BKEY_MISMATCH")) return 0x3a; if (is("EFLAG_MISMATCH")) return 0x3b; if (is("UNREADABLE")) return 0x3c; if (is("CLIENT_ERROR cannot increment or decrement non-numeric")) return 6; if (is("CLIENT_ERROR invalid")) return 0x34;
    if (is("CLIENT_ERROR too large")) return 3; if (is("SERVER_ERROR object too large")) return 3; if (is("CLIENT_ERROR")) return 4; return 0; }
static string desc(const B::P &p) { static const char *n[256] = {}; char b[80]; snprintf(b, sizeof b, "op 0x%02x%s cas %llu", p.op, is_quiet(p.op) ? " (quiet)" : "", (unsigned long long)p.cas); (void)n; return string(b) + " key " + p.key; }
static const uint64_t NOCAS = 999999999999ull;
struct Bx { mc::Ctx &ctx; Lock l; int c = -1; uint32_t opq = 0; uint64_t curtok = 0; Bx(mc::Ctx &x) : ctx(x), l(x) { l.connect(); l.pre = "after-binary"; open(); } void open() { int a = sim::connect(); sim::rpc(a, "bop insert zz 5 1 create 1 0 0 error unreadable\r\nv\r\n"); sim::rpc(a, "delete zz\r\n"); sim::shut(a); sim::run(); sim::forget(a); c = sim::connect(); sim::run(); } // the connection structure has been used before
    void fail(const string &k, const string &m) { l.fail(k, m); }
    // expected answer of one packet given its possible reply (null when nothing came); updates the model
    // returns false when the packet has to be answered but was not (or the reverse)
    bool judge(const B::P &p, const string &a, const B::R *r, bool now_check) {
        using namespace B; int o = base(p.op); bool q = is_quiet(p.op); string err; char kb[32]; snprintf(kb, sizeof kb, "0x%02x", o); string K = kb;
        if (o == NOOP || o == VERSION || o == QUIT) { if (q) { if (r) fail("quiet:" + K, "answered"); return true; } if (!r) { fail("silent:" + K, "no answer to " + desc(p)); return false; } if (r->status != 0 || !r->ext.empty() || !r->key.empty() || (o != VERSION && !r->val.empty()) || (o == VERSION && r->val.empty())) { fail("reply:" + K, "wrong answer to " + desc(p)); return false; } return true; }
        model::Item *it = l.m.find(p.key); string exp; int st; bool getcoll = o == GET && it && it->type != model::KV;
        if (getcoll) { exp = "TYPE_MISMATCH\r\n"; st = 0x32; }
        else if (o == DELETE && p.cas && it && curtok != p.cas) { exp = "EXISTS\r\n"; st = 2; }
        else if (o == SETATTR && a == "setattr " + p.key + "\r\n") { exp = it ? "OK\r\n" : "NOT_FOUND\r\n"; st = it ? 0 : 1; }
        else { model::Model t = l.m; exp = t.exec(a, nullptr, err); st = status_of(p, exp);
            if (p.cas && (o == SET || o == ADD || o == REPLACE) && it) { } }
        bool silent = q && (o == GET ? st == 1 : st == 0);
        if (!r) { if (!silent) { fail("silent:" + K, "no answer to " + desc(p) + ", expected status " + S(st) + " (" + mc::esc(exp, 60) + ")"); return false; } if (exp != "TYPE_MISMATCH\r\n" && !(o == DELETE && st == 2) && !(o == SETATTR && a == "setattr " + p.key + "\r\n")) l.m.exec(a, nullptr, err); return true; }
        if (silent) { fail("quiet:" + K, "answered although quiet: " + desc(p) + " status " + S(r->status)); return false; }
        string act = exp; // the actual reply as ASCII
        if (r->status != st && o == SETATTR && (st == 0x34 || st == 0x39) && (r->status == 0x34 || r->status == 0x39)) return true; // two faults in one request: either is reported
        if (r->status != st && ((o == FLUSHP && st == 0x52 && r->status == 0) || (o == SINSERT && st == 0x38 && r->status == 0x33))) { string alt = o == FLUSHP ? "OK\r\n" : "OVERFLOWED\r\n", e3; model::Model t = l.m; t.exec(a, &alt, e3); if (e3.empty()) { l.m = t; return true; } } // as the ASCII command
        if (r->status != st) { fail("status:" + K, desc(p) + ": status 0x" + mc::fmt("%x", r->status) + " instead of 0x" + mc::fmt("%x", st) + " (" + mc::esc(exp, 80) + ")"); return false; }
        if (st != 0) { bool ek = (p.op == GETK || p.op == GETKQ) && st == 1; if (!r->ext.empty() || (ek ? r->key != p.key || !r->val.empty() : !r->key.empty())) { fail("error-body:" + K, "error answer to " + desc(p) + " has extras or key"); return false; } if (r->cas) { fail("error-cas:" + K, "error answer carries a cas"); return false; } }
        else if (o == GET) { bool k = p.op == GETK || p.op == GETKQ; if (r->ext.size() != 4 || (k ? r->key != p.key : !r->key.empty())) { fail("get-frame", "extras/key of the answer to " + desc(p)); return false; } act = "VALUE " + p.key + " " + S(rd(r->ext, 0, 4)) + " " + S(r->val.size()) + " " + std::to_string(r->cas) + "\r\n" + r->val + "\r\nEND\r\n"; }
        else if (o == INCR || o == DECR) { if (r->val.size() != 8 || !r->ext.empty() || !r->key.empty()) { fail("arith-frame", "frame of the answer"); return false; } act = std::to_string(rd(r->val, 0, 8)) + "\r\n"; }
        else if (o == LGET || o == SGET) { if (r->ext.size() != 8 || !r->key.empty()) { fail("coll-frame:" + K, "extras of the answer are " + S(r->ext.size()) + " bytes"); return false; } size_t n = rd(r->ext, 4, 4), off = n * 4; act = "VALUE " + S(rd(r->ext, 0, 4)) + " " + S(n) + "\r\n"; bool bad = r->val.size() < off; for (size_t i = 0; i < n && !bad; i++) { size_t w = rd(r->val, i * 4, 4); if (off + w > r->val.size()) bad = true; else { act += S(w) + " " + r->val.substr(off, w) + "\r\n"; off += w; } } if (bad || off != r->val.size()) { fail("coll-frame:" + K, "lengths do not add up"); return false; } string e2 = exp.substr(0, exp.size() - 2); act += exp.substr(e2.rfind("\r\n") + 2); }
        else if (o == SEXIST) { if (r->val.size() != 4 || !r->ext.empty()) { fail("exist-frame", "frame of the answer"); return false; } act = rd(r->val, 0, 4) == 1 ? "EXIST\r\n" : rd(r->val, 0, 4) == 0 ? "NOT_EXIST\r\n" : "?"; }
        else if (o == GETATTR) { const string &v = r->val; if (v.size() != 56 || !r->ext.empty()) { fail("getattr-frame", "body of " + S(v.size()) + " bytes"); return false; } act.clear(); size_t p0 = 0; static const char *T[] = {"kv", "list", "set", "map", "b+tree"}; bool coll = false, btree = false; while (p0 < exp.size()) { size_t e = exp.find("\r\n", p0); string ln = exp.substr(p0, e - p0); p0 = e + 2; auto f = [&](const char *n, const string &x) { if (ln.compare(0, 6 + strlen(n), string("ATTR ") + n + "=") == 0) ln = string("ATTR ") + n + "=" + x; }; f("type", (unsigned char)v[48] < 5 ? T[(int)v[48]] : "?"); f("flags", S(rd(v, 0, 4))); f("expiretime", S(i32(v, 4))); if (ln.compare(0, 10, "ATTR count") == 0) coll = true; if (ln.compare(0, 11, "ATTR maxbke") == 0 && ln.compare(0, 12, "ATTR maxbkey=")) btree = true; f("count", S(i32(v, 8))); f("maxcount", S(i32(v, 12))); f("overflowaction", (unsigned char)v[49] < 8 ? OVN[(int)v[49]] : "?"); f("readable", v[50] ? "on" : "off"); f("maxbkeyrange", (unsigned char)v[47] == 255 ? "0" : bkey_of(v, 16)); act += ln + "\r\n"; }
            string want(56, '\0'); for (int i = 0; i < 8; i++) want[i] = v[i]; want[48] = v[48]; if (coll) { for (int i = 8; i < 16; i++) want[i] = v[i]; want[49] = v[49]; want[50] = v[50]; } if (btree) { int n = (unsigned char)v[47]; want[47] = v[47]; if (n != 255) for (int i = 0; i < (n ? n : 8) && i < 31; i++) want[16 + i] = v[16 + i]; } if (btree ? (v.substr(0, 16) + v.substr(48)) != (want.substr(0, 16) + want.substr(48)) : v != want) { fail("getattr-stale", "bytes that belong to no attribute of this item are not zero: " + mc::esc(v, 300)); return false; } }
        else if (!r->ext.empty() || !r->key.empty() || !r->val.empty()) { fail("success-body:" + K, desc(p) + ": unexpected body"); return false; }
        if (getcoll || (o == DELETE && st == 2) || (o == SETATTR && a == "setattr " + p.key + "\r\n")) return true;
        string e2 = l.m.exec(a, &act, err); if (!err.empty()) { fail("reply:" + K, desc(p) + " answered like " + mc::esc(act, 200) + ": " + err); return false; }
        bool store = o == SET || o == ADD || o == REPLACE || o == APPEND || o == PREPEND || o == INCR || o == DECR; if (st == 0 && !store && o != GET && r->cas) { fail("cas-zero:" + K, "answer carries a cas although the command defines none"); return false; }
        if (st == 0 && store) { if (!r->cas && !(q)) { fail("cas-missing:" + K, "answer carries no cas"); return false; } if (now_check) { string g = "gets " + p.key + "\r\n", rp = sim::rpc(l.c, g); l.m.exec(g, &rp, err); auto t = model::split(rp.substr(0, rp.find("\r\n"))); if (err.empty() && t.size() > 4 && t[4] != std::to_string(r->cas)) { fail("cas-value:" + K, "answer says cas " + std::to_string(r->cas) + " but the item has " + t[4]); return false; } if (!err.empty()) { fail("reply:" + K, err); return false; } } }
        return true;
    }
    uint64_t tok(const string &k) { string g = "gets " + k + "\r\n", r = sim::rpc(l.c, g), e; l.m.exec(g, &r, e); auto t = model::split(r.substr(0, r.find("\r\n"))); return t.size() > 4 ? strtoull(t[4].c_str(), nullptr, 10) : 0; }
    bool frame(const B::P &p, const B::R &r) { if (r.op != p.op || r.opq != p.opq || r.magic != 0x81) { fail("header", mc::fmt("answer to op 0x%02x opaque %x has op 0x%02x opaque %x", p.op, p.opq, r.op, r.opq)); return false; } return true; }
    bool clock(const B::P &p) { if (p.op != -1) return false; sim::advance_s(p.cas); l.m.now = sim::now_s(); l.hist.push_back({"(clock +" + S(p.cas) + ")", ""}); return true; }
    bool one(B::P p) { ctx.trans(); if (clock(p)) return true; curtok = p.cas ? tok(p.key) : 0; if (p.cas == 1) p.cas = curtok ? curtok : NOCAS; p.opq = ++opq; string a = ascii(p, l.m), rp = sim::rpc(c, p.str()); vector<B::R> rs; l.hist.push_back({desc(p) + " = " + a, mc::esc(rp, 300)}); if (!B::parse(rp, rs) || rs.size() > 1) { fail("framing", "answer is not one packet: " + mc::esc(rp, 200)); return false; } if (!rs.empty() && !frame(p, rs[0])) return false; bool ok = judge(p, a, rs.empty() ? nullptr : &rs[0], true); bool cl = sim::closed(c), want = base(p.op) == B::QUIT; if (cl != want) { fail("close", cl ? "connection closed" : "connection left open after quit"); ok = false; } if (cl) { sim::forget(c); open(); } return ok; }
    bool batch(vector<B::P> ps) { string s; for (auto &p : ps) if (p.op == -1 || p.cas == 1) return true; ps.push_back(B::simple(B::NOOP)); for (auto &p : ps) { p.opq = ++opq; s += p.str(); } ctx.trans(); curtok = 0; string rp = sim::rpc(c, s); vector<B::R> rs; l.hist.push_back({"batch of " + S(ps.size()) + " packets", mc::esc(rp, 600)}); if (!B::parse(rp, rs)) { fail("framing", "answers are not whole packets"); return false; } size_t k = 0; bool quit = false; for (auto &p : ps) { if (quit) break; string a = ascii(p, l.m); l.hist.push_back({desc(p) + " = " + a, ""}); const B::R *r = nullptr; if (k < rs.size() && rs[k].opq == p.opq) r = &rs[k++]; if (r && !frame(p, *r)) return false; if (!judge(p, a, r, false)) return false; if (base(p.op) == B::QUIT) quit = true; } if (k != rs.size()) { fail("extra", "more answers than requests or out of order"); return false; } bool cl = sim::closed(c); if (cl != quit) { fail("close", cl ? "connection closed" : "connection left open"); } if (cl) { sim::forget(c); open(); } return cl == quit; }
    void run(const Strs &init, const vector<const B::P *> &seq, bool bt, const Strs &obs) { l.begin(); bool ok = true, delayed = false; for (auto &s : init) if (ok) ok = l.step(s); vector<B::P> v; for (auto p : seq) { v.push_back(*p); if ((base(p->op) == B::FLUSH || p->op == B::FLUSHP) && !p->ext.empty()) delayed = true; } if (ok) { if (bt) ok = batch(v); else for (auto &p : v) if (ok) ok = one(p); } if (ok) for (auto &o : obs) if (ok) ok = l.step(o); ctx.state(mc::hash(l.m.canon())); ctx.trace(); if (ctx.case_index() % 4999 == 1 && ok) { string t; for (auto p : seq) t += desc(*p) + " ; "; ctx.sample(t + "=> " + l.last_rep); }
        if (!ok) { sim::shut(c); sim::run(); sim::forget(c); open(); } for (auto k : {"K", "nk", "p:a", "p:b"}) sim::rpc(l.c, string("delete ") + k + "\r\n"); if (delayed) { sim::rpc(l.c, "flush_all\r\n"); sim::advance_s(3); } model::Model n; n.now = sim::now_s(); n.lim = l.m.lim; n.serial = l.m.serial; l.m = n; }
};
static const Strs OBS = {"getattr K\r\n", "gets K nk\r\n", "getattr nk\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "lop get nk 0..-1\r\n", "sop get nk 0\r\n", "bop get nk 0..1000\r\n", "bop get nk 0x00..0xffff\r\n"};
static B::P clk(uint64_t s) { B::P p{-1, "", "", ""}; p.cas = s; return p; }
static vector<B::P> more() { using namespace B; string h = "hh"; vector<P> r = {kv(SET, "K", "41", 1), kv(SET, "K", "9", 1, 0, 1), kv(ADD, "K", "9", 1, 0, 1), kv(REPLACE, "K", "9", 1, 0, 999999999999ull), kv(SETQ, "K", "x", 2, 0, 1), kv(SETQ, "K", "x", 2, 0, 999999999999ull), kv(SET, "K", "", 4), P{DELETE, "", "K", ""}, arith(DECR, "K", 100), arith(INCR, "K", ~0ull), arith(DECR, "nk", 2, 9, 50), arith(INCRQ, "nk", 1, 3, 0), key(GETK, "K"), key(GETKQ, "K"), key(GETQ, "nk"), key(GET, "nk"), key(DELETEQ, "nk"), key(DELETE, "nk"), cat(APPENDQ, "nk", "1"), cat(PREPEND, "nk", "1"),
        getattr("nk"), setattr("K", true, -1, true, -1, nombr(), 0, 0), setattr("K", false, 0, false, 0, bkx("\x01"), 0, 0), setattr("K", false, 0, false, 0, nombr(), 2, 0), setattr("K", false, 0, false, 0, nombr(), 4, 0), setattr("K", false, 0, false, 0, nombr(), 7, 0), setattr("K", false, 0, false, 0, nombr(), 1, 0), setattr("nk", true, 9, false, 0, nombr(), 0, 0), setattr("K", false, 0, false, 0, nombr(), 0, 0), setattr("K", false, 0, true, 1, nombr(), 0, 0), create(LCREATE, "K", 1, 9, 2, 2), create(LCREATE, "nk", 1, 9, 2, 2), create(SCREATE, "nk", 7, -1, -1, 0, 0), create(BCREATE, "nk", 0xffffffff, 0, 50001, 5, 0), create(BCREATE, "nk", 2, 0, 1, 6), create(BCREATE, "nk", 2, 0, 2, 2),
        linsert(LINSERT, "K", 1, h), linsert(LINSERT, "K", 99, h), linsert(LINSERT, "K", -1, h), linsert(LINSERT, "K", -2, h), linsert(LINSERTQ, "nk", 0, h), linsert(LINSERTQ, "nk", 0, h, 1, 3, 0, 1), ldelete(LDELETE, "K", -1, 0), ldelete(LDELETE, "K", 5, 9), ldelete(LDELETEQ, "K", 7, 9), ldelete(LDELETE, "K", 0, -1, 1), lget("K", 1, 1), lget("K", -1, 0), lget("K", 5, 9), lget("K", 0, -1, 1, 0), lget("nk", 0, 0), sinsert(SINSERT, "K", "a"), sinsert(SINSERTQ, "K", "a"), sinsert(SINSERT, "nk", "a", 1, 9, 0, 1), sdelete(SDELETE, "K", "a"), sdelete(SDELETEQ, "K", "zz"), sdelete(SDELETE, "K", "a", 1), sexist("K", "a"), sexist("nk", "a"), sget("K", 1), sget("K", 9, 1), sget("nk", 1),
        binsert(BINSERT, "K", bk(5), "", h), binsert(BINSERT, "K", bk(0), "", h), binsert(BINSERT, "K", bk(~0ull), "\x01\x02", h), binsert(BINSERT, "K", bkx("\x01\x05"), "", h), binsert(BUPSERTQ, "nk", bk(1), "", h, 1, 1, 0, 1), binsert(BUPSERT, "K", bkx("\x01\x02"), "\x07", h), bupdate(BUPDATE, "K", bk(99), "", 0xff, 0, 0, 0, h), bupdate(BUPDATE, "K", bk(5), "\x04", -1, 0, 2, 1, ""), bupdate(BUPDATE, "K", bk(5), "\x04", -1, 0, 3, 1, ""), bupdate(BUPDATE, "K", bk(5), "\x04", -1, 3, 1, 1, ""), bupdate(BUPDATE, "K", bk(9), "\x04", -1, 0, 1, 1, ""), bupdate(BUPDATE, "K", bk(5), "", 0, 0, 3, 0, h), bupdate(BUPDATEQ, "K", bk(9), "\x01\x02", -1, 0, 3, 0, h), bupdate(BUPDATE, "K", bkx("\x01\x02"), "", 0xff, 0, 0, 0, h)};
    { P p = key(DELETE, "K"); p.cas = 1; r.push_back(p); p.cas = 999999999999ull; r.push_back(p); p.op = DELETEQ; r.push_back(p); } return r; }
static bool skip26(const B::P &p, const TypeInit &t) { using namespace B; int o = base(p.op); string n = t.name; bool bt = n == "tree" || n == "tree0" || n == "tree1" || n == "bintree" || n == "trimmed" || n == "untree" || n == "fullerr"; (void)o; (void)bt; return o == STAT || (o == BUPDATE && p.ext[66] && !p.val.empty()); }
static vector<B::P> corpus26() { vector<B::P> r; for (auto p : B::corpus()) { if (p.cas == 77) p.cas = 999999999999ull; r.push_back(p); } for (auto &p : more()) r.push_back(p); vector<B::P> o; for (auto &p : r) if (!skip26(p, types16()[0])) o.push_back(p); return o; }
static void seqs(mc::Ctx &ctx, Bx &b, const Strs &init, const vector<B::P> &al, int depth, const Strs &obs, int modes) { vector<const B::P *> s; std::function<bool()> rec = [&]() -> bool { if ((int)s.size() == depth) { for (int k = 0; k < 2; k++) if (modes & (1 << k)) if (ctx.mine()) b.run(init, s, k, obs); return !ctx.out_of_time_fast(); } for (auto &p : al) { s.push_back(&p); bool ok = rec(); s.pop_back(); if (!ok) return false; } return true; }; rec(); }
SUITE_B("C26", bin_pairs, "std", BOTH, 200, 1500) { // every type x every pair of requests
    mc::boot_std({"-g", "10"}); Bx b(ctx); auto al = corpus26(); auto ts = types16(); ctx.note_bound(S(al.size()) + " binary requests of all types: every sequence of " + (ctx.thorough ? "1..2 (every item state) and 3 (empty store, half of the requests)" : "1 and 2") + " over " + S(ts.size()) + " item states, one at a time and all in one segment; each answer against the reference model through the equivalent ASCII request, then the whole item read back in ASCII");
    for (auto &t : ts) for (int d = 1; d <= 2; d++) seqs(ctx, b, t.init, al, d, OBS, 3); if (ctx.thorough) { vector<B::P> h; for (size_t i = 0; i < al.size(); i++) h.push_back(al[i]); seqs(ctx, b, {}, h, 3, OBS, 3); } }
SUITE("C26", bin_types, "small", BOTH) { // longer histories of one type
    using namespace B; mc::boot_std({"-g", "10"}); Bx b(ctx); int d = ctx.thorough ? 6 : 5; ctx.note_bound("all " + S(d) + "-step histories over 9..13 binary requests of one type from the empty store, one at a time and in one segment");
    vector<P> kvs = {kv(SET, "K", "5", 1), kv(ADD, "K", "7", 2), kv(REPLACE, "K", "x", 3), kv(SETQ, "K", "8", 1, 0, 1), kv(SET, "K", "8", 1, 0, 999999999999ull), key(DELETEQ, "K"), arith(INCR, "K", 3, 4, 0), arith(DECRQ, "K", 6), cat(APPEND, "K", "1"), cat(PREPENDQ, "K", "2"), key(GETK, "K"), key(GETQ, "K"), getattr("K")};
    vector<P> ls = {create(LCREATE, "K", 1, 0, 2, 2), linsert(LINSERT, "K", 0, "a", 1, 2, 0, 3), linsert(LINSERT, "K", -1, "bb"), linsert(LINSERTQ, "K", 1, "c"), ldelete(LDELETE, "K", 0, 0), ldelete(LDELETEQ, "K", -1, -1, 1), lget("K", 0, -1), lget("K", -1, 0, 1, 0), lget("K", 0, 0, 1, 1), setattr("K", false, 0, true, 1, nombr(), 1, 0), getattr("K")};
    vector<P> ss = {create(SCREATE, "K", 1, 0, 2, 0), sinsert(SINSERT, "K", "a", 1, 2, 0, 3), sinsert(SINSERTQ, "K", "bb"), sinsert(SINSERT, "K", "c"), sdelete(SDELETE, "K", "a"), sdelete(SDELETEQ, "K", "bb", 1), sexist("K", "a"), sget("K", 0), sget("K", 1, 1), sget("K", 0, 1, 1), getattr("K")};
    vector<P> bs = {create(BCREATE, "K", 1, 0, 2, 5), binsert(BINSERT, "K", bk(5), "\x01", "a", 1, 2, 0, 3), binsert(BINSERTQ, "K", bk(7), "", "bb"), binsert(BINSERT, "K", bk(2), "\x02\x03", "c"), binsert(BUPSERT, "K", bk(5), "", "dd", 1), binsert(BUPSERTQ, "K", bkx("\x05"), "", "e", 1), bupdate(BUPDATE, "K", bk(5), "\x02", -1, 0, 1, 1, ""), bupdate(BUPDATEQ, "K", bk(7), "\x09", -1, 0, 3, 0, "zz"), setattr("K", false, 0, false, 0, bk(3), 0, 0), setattr("K", false, 0, true, 2, nombr(), 6, 0), getattr("K")};
    int i = 0; for (auto *a : {&kvs, &ls, &ss, &bs}) { int dd = d - (i++ == 0 ? 1 : 0); Strs obs = {"getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "bop get K 0..100\r\n", "bop get K 0x00..0xff\r\n"}; seqs(ctx, b, {}, *a, dd, obs, 3); } }
SUITE("C26", bin_time, "std", BOTH) { // expiration, flush and prefixes through the binary protocol
    using namespace B; mc::boot_std({"-g", "10"}); Bx b(ctx); int d = ctx.thorough ? 6 : 5; P fp{FLUSHP, "", "p", ""}, fpd{FLUSHP, be(10, 4), "p", ""}, fn{FLUSHP, "", "<null>", ""};
    vector<P> a = {kv(SET, "p:a", "1", 1), kv(SETQ, "p:b", "2", 1), kv(SETQ, "K", "2", 1, 6), kv(SET, "K", "3", 2, 0), flush(FLUSH, false, 0), flush(FLUSHQ, true, 7), fp, fpd, fn, clk(5), clk(8), key(GETQ, "p:a"), arith(INCR, "K", 1, 8, 4), binsert(BINSERT, "p:a", bk(1), "", "v", 1, 0, 0), binsert(BINSERT, "K", bk(1), "", "v", 1, 0, 6)};
    Strs obs = {"gets p:a p:b K\r\n", "getattr p:a\r\n", "getattr p:b\r\n", "getattr K\r\n"}; ctx.note_bound("all " + S(d) + "-step histories over 15 requests: stores with and without expiry, flush and flush prefix with and without delay, and clock steps");
    vector<const P *> s; std::function<bool()> rec = [&]() -> bool { if ((int)s.size() == d) { bool da = false, dp = false; for (auto p : s) { if (p->op == FLUSHQ) da = true; if (p->op == FLUSHP && !p->ext.empty()) dp = true; } if (da && dp) return true; if (ctx.mine()) b.run({}, s, false, obs); return !ctx.out_of_time_fast(); } for (auto &p : a) { s.push_back(&p); bool ok = rec(); s.pop_back(); if (!ok) return false; } return true; }; rec(); }
