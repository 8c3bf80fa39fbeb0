// binary protocol packets
#pragma once
#include "alpha.h"
#include <cstring>
namespace bin {
using std::string; using std::vector;
inline string be(uint64_t v, int n) { string s; for (int i = n - 1; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
inline uint64_t rd(const string &s, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)s[o + i]; return v; }
struct P { int op; string ext, key, val; uint64_t cas = 0; uint32_t opq = 0x1234; int magic = 0x80; long keylen = -1, extlen = -1, bodylen = -1; int dtype = 0, vb = 0;
    string str() const { string h; h += (char)magic; h += (char)op; h += be(keylen < 0 ? key.size() : keylen, 2); h += (char)(extlen < 0 ? ext.size() : extlen); h += (char)dtype; h += be(vb, 2); h += be(bodylen < 0 ? ext.size() + key.size() + val.size() : bodylen, 4); h += be(opq, 4); h += be(cas, 8); return h + ext + key + val; } };
struct R { int magic, op, status; string ext, key, val; uint64_t cas; uint32_t opq; };
inline bool parse(const string &s, vector<R> &out) { size_t o = 0; out.clear(); while (o + 24 <= s.size()) { R r; r.magic = (unsigned char)s[o]; r.op = (unsigned char)s[o + 1]; size_t kl = rd(s, o + 2, 2), el = (unsigned char)s[o + 4], bl = rd(s, o + 8, 4); r.status = rd(s, o + 6, 2); r.opq = rd(s, o + 12, 4); r.cas = rd(s, o + 16, 8); if (r.magic != 0x81 || o + 24 + bl > s.size() || kl + el > bl) return false; r.ext = s.substr(o + 24, el); r.key = s.substr(o + 24 + el, kl); r.val = s.substr(o + 24 + el + kl, bl - el - kl); out.push_back(r); o += 24 + bl; } return o == s.size(); }
enum { GET, SET, ADD, REPLACE, DELETE, INCR, DECR, QUIT, FLUSH, GETQ, NOOP, VERSION, GETK, GETKQ, APPEND, PREPEND, STAT, SETQ, ADDQ, REPLACEQ, DELETEQ, INCRQ, DECRQ, QUITQ, FLUSHQ, APPENDQ, PREPENDQ, GETATTR = 0x4e, SETATTR, LCREATE = 0x50, LINSERT, LDELETE, LGET, LINSERTQ, LDELETEQ, SCREATE = 0x60, SINSERT, SDELETE, SEXIST, SGET, SINSERTQ, SDELETEQ, BCREATE = 0x70, BINSERT, BUPSERT, BUPDATE, BDELETE, BGET, BCOUNT, BPOS, BPWG, BGBP, BMGET, BSMGET, BINSERTQ, BUPSERTQ, BUPDATEQ, BDELETEQ, FLUSHP = 0x90, SCRUB = 0xf0 };
inline P kv(int op, const string &k, const string &v, uint32_t fl = 0, uint32_t exp = 0, uint64_t cas = 0) { P p{op, be(fl, 4) + be(exp, 4), k, v}; p.cas = cas; return p; }
inline P key(int op, const string &k) { return P{op, "", k, ""}; }
inline P cat(int op, const string &k, const string &v) { return P{op, "", k, v}; }
inline P arith(int op, const string &k, uint64_t d, uint64_t init = 0, uint32_t exp = 0xffffffff) { return P{op, be(d, 8) + be(init, 8) + be(exp, 4), k, ""}; }
inline string cattr(uint32_t fl, int exp, int mx) { return be(fl, 4) + be((uint32_t)exp, 4) + be((uint32_t)mx, 4); }
inline P create(int op, const string &k, uint32_t fl, int exp, int mx, int ovfl = 0, int readable = 1) { return P{op, cattr(fl, exp, mx) + (char)ovfl + (char)readable + string(2, '\0'), k, ""}; }
inline P linsert(int op, const string &k, int idx, const string &v, int cr = 0, uint32_t fl = 0, int exp = 0, int mx = 0) { return P{op, be((uint32_t)idx, 4) + cattr(fl, exp, mx) + (char)cr + string(3, '\0'), k, v}; }
inline P ldelete(int op, const string &k, int f, int t, int drop = 0) { return P{op, be((uint32_t)f, 4) + be((uint32_t)t, 4) + (char)drop + string(3, '\0'), k, ""}; }
inline P lget(const string &k, int f, int t, int del = 0, int drop = 0) { return P{LGET, be((uint32_t)f, 4) + be((uint32_t)t, 4) + (char)del + (char)drop + string(2, '\0'), k, ""}; }
inline P sinsert(int op, const string &k, const string &v, int cr = 0, uint32_t fl = 0, int exp = 0, int mx = 0) { return P{op, cattr(fl, exp, mx) + (char)cr + string(3, '\0'), k, v}; }
inline P sdelete(int op, const string &k, const string &v, int drop = 0) { return P{op, string(1, (char)drop) + string(3, '\0'), k, v}; }
inline P sexist(const string &k, const string &v) { return P{SEXIST, "", k, v}; }
inline P sget(const string &k, uint32_t n, int del = 0, int drop = 0) { return P{SGET, be(n, 4) + (char)del + (char)drop + string(2, '\0'), k, ""}; }
inline string bk(uint64_t b) { return be(b, 8) + string(23, '\0') + string(1, '\0'); }
inline string bkx(const string &b) { return b + string(31 - std::min<size_t>(b.size(), 31), '\0') + (char)b.size(); }
inline string efl(const string &e) { return e + string(31 - std::min<size_t>(e.size(), 31), '\0') + (char)e.size(); }
inline P binsert(int op, const string &k, const string &bkey, const string &ef, const string &v, int cr = 0, uint32_t fl = 0, int exp = 0, int mx = 0) { return P{op, bkey + efl(ef) + cattr(fl, exp, mx) + (char)cr + string(3, '\0'), k, v}; }
inline P bupdate(int op, const string &k, const string &bkey, const string &ef, int nef, int off, int bitw, int noval, const string &v) { string e = efl(ef); if (nef >= 0) e[31] = (char)nef; return P{op, bkey + e + (char)off + (char)bitw + (char)noval + string(5, '\0'), k, v}; }
inline P getattr(const string &k) { return P{GETATTR, string(56, '\0'), k, ""}; }
inline P setattr(const string &k, bool ef, int exp, bool mf, int mx, const string &mbr32, int ovfl, int readable) { return P{SETATTR, be((uint32_t)exp, 4) + be((uint32_t)mx, 4) + mbr32 + (char)ovfl + (char)readable + (char)ef + (char)mf, k, ""}; }
inline string nombr() { return string(31, '\0') + (char)0xff; }
inline P flush(int op, bool has, uint32_t w) { return P{op, has ? be(w, 4) : "", "", ""}; }
inline P simple(int op) { return P{op, "", "", ""}; }
inline vector<P> corpus() { string s5 = "hello"; return {key(GET, "K"), kv(SET, "K", s5, 3), kv(ADD, "K", s5, 3), kv(REPLACE, "K", s5, 3), kv(SET, "K", s5, 3, 0, 77), key(DELETE, "K"), arith(INCR, "K", 2), arith(INCR, "nk", 2, 9, 0), arith(DECR, "K", 2), simple(NOOP), simple(VERSION), key(GETK, "K"), key(GETK, "nk"), cat(APPEND, "K", "zz"), cat(PREPEND, "K", "zz"), key(STAT, "settings"), key(STAT, ""), key(GETQ, "K"), key(GETKQ, "nk"), kv(SETQ, "K", s5), kv(ADDQ, "K", s5), kv(REPLACEQ, "K", s5), key(DELETEQ, "K"), arith(INCRQ, "K", 1), arith(DECRQ, "K", 1), cat(APPENDQ, "K", "q"), cat(PREPENDQ, "K", "q"), flush(FLUSH, false, 0), flush(FLUSHQ, true, 5),
    getattr("K"), setattr("K", true, 50, true, 20, nombr(), 0, 0), setattr("K", false, 0, false, 0, bk(9), 0, 0), setattr("K", false, 0, false, 0, nombr(), 3, 1), create(LCREATE, "nk", 1, 0, 10), create(SCREATE, "nk", 1, 0, 10), create(BCREATE, "nk", 1, 0, 10, 4), linsert(LINSERT, "K", 0, s5), linsert(LINSERT, "nk", -1, s5, 1, 2, 0, 9), linsert(LINSERTQ, "K", 0, s5), ldelete(LDELETE, "K", 0, 1), ldelete(LDELETEQ, "K", 0, -1, 1), lget("K", 0, -1), lget("K", 0, 0, 1, 1), sinsert(SINSERT, "K", s5), sinsert(SINSERT, "nk", s5, 1, 2), sinsert(SINSERTQ, "K", s5), sdelete(SDELETE, "K", "aa"), sdelete(SDELETEQ, "K", "aa", 1), sexist("K", "aa"), sget("K", 0), sget("K", 1, 1, 1), binsert(BINSERT, "K", bk(7), "\x01", s5), binsert(BINSERT, "nk", bkx("\x01\x02"), "", s5, 1, 2), binsert(BUPSERT, "K", bk(5), "\x02", s5), binsert(BINSERTQ, "K", bk(8), "", s5), binsert(BUPSERTQ, "K", bk(5), "", s5), bupdate(BUPDATE, "K", bk(5), "\x02", -1, 0, 0, 0, s5), bupdate(BUPDATE, "K", bk(5), "\x02", -1, 0, 1, 1, "x"), bupdate(BUPDATEQ, "K", bk(5), "", 0xff, 0, 0, 0, s5), P{FLUSHP, "", "K", ""}, simple(QUIT), simple(QUITQ)}; }
}
