#include "model.h"
#include "mc.h"
#include <cstring>
#include <climits>
#include <algorithm>
using std::string; using std::vector;
namespace model {
size_t Item::count() const { return type == LIST ? list.size() : type == SET ? set.size() : type == MAP ? mp.size() : type == BTREE ? bt.size() : 0; }
static int bcmp_(const string &a, const string &b) { size_t n = std::min(a.size(), b.size()); int c = memcmp(a.data(), b.data(), n); if (c) return c < 0 ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
int BKey::cmp(const BKey &o) const { if (bin != o.bin) return bin ? 1 : -1; if (!bin) return u < o.u ? -1 : u > o.u; return bcmp_(b, o.b); }
static string hex(const string &b) { string r = "0x"; for (unsigned char c : b) { char t[3]; snprintf(t, 3, "%02X", c); r += t; } return r; }
string BKey::str() const { return bin ? hex(b) : std::to_string(u); }
vector<string> split(const string &s, char c) { vector<string> r; size_t i = 0; while (i <= s.size()) { size_t e = s.find(c, i); if (e == string::npos) e = s.size(); if (e > i) r.push_back(s.substr(i, e - i)); i = e + 1; } return r; }
static bool digits(const string &s) { if (s.empty() || s.size() > 20000) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
bool parse_u64(const string &s, uint64_t &v) { if (!digits(s)) return false; unsigned __int128 x = 0; for (char c : s) { x = x * 10 + (c - '0'); if (x > ~0ull) return false; } v = (uint64_t)x; return true; }
bool parse_i64(const string &s, int64_t &v) { bool neg = !s.empty() && s[0] == '-'; uint64_t x; if (!parse_u64(neg ? s.substr(1) : s, x)) return false; if (x > (neg ? 1ull << 63 : (1ull << 63) - 1)) return false; v = neg ? -(int64_t)x : (int64_t)x; return true; }
bool parse_u32(const string &s, uint32_t &v) { uint64_t x; if (!parse_u64(s, x) || x > 0xffffffffull) return false; v = x; return true; }
bool parse_i32(const string &s, int32_t &v) { int64_t x; if (!parse_i64(s, x) || x > INT_MAX || x < INT_MIN) return false; v = x; return true; }
static bool unhex(const string &s, string &v) { // after 0x
    if (s.empty() || s.size() % 2 || s.size() > 62) return false; v.clear();
    for (size_t i = 0; i < s.size(); i += 2) { int x = 0; for (int k = 0; k < 2; k++) { char c = s[i + k]; int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return false; x = x * 16 + d; } v += (char)x; }
    return true;
}
bool parse_bkey(const string &s, BKey &k) {
    if (s.compare(0, 2, "0x") == 0) { k.bin = true; k.u = 0; return unhex(s.substr(2), k.b); }
    k.bin = false; k.b.clear(); return parse_u64(s, k.u);
}
bool parse_hexflag(const string &s, string &v) { return s.compare(0, 2, "0x") == 0 && unhex(s.substr(2), v); }
string prefix_of(const string &key) { size_t p = key.rfind(':'); size_t f = key.find(':'); (void)p; return f == string::npos ? "" : key.substr(0, f); }
static const char *OVN[] = {"error", "head_trim", "tail_trim", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"};
static int ovf_of(const string &s) { for (int i = 0; i < 7; i++) if (s == OVN[i]) return i; return -1; }
static const char *TYN[] = {"kv", "list", "set", "map", "b+tree"};
static const string BADFMT = "CLIENT_ERROR bad command line format\r\n", TM = "TYPE_MISMATCH\r\n", NF = "NOT_FOUND\r\n", NFE = "NOT_FOUND_ELEMENT\r\n", UNR = "UNREADABLE\r\n", OOR = "OUT_OF_RANGE\r\n", BKM = "BKEY_MISMATCH\r\n", BADCHUNK = "CLIENT_ERROR bad data chunk\r\n", TLV = "CLIENT_ERROR too large value\r\n", BADVAL = "CLIENT_ERROR bad value\r\n";

static int64_t abs_time(int64_t e, int64_t now) {
    if (e == 0) return 0; if (e == -1) return -1; if (e < 0) return now > 1 ? 1 : 1; // already expired
    if (e > 60 * 60 * 24 * 30) return e;
    return now + e;
}
bool Model::dead(const string &k, const Item &it) const {
    if (it.exp > 0 && it.exp <= now) return true;
    auto f = flush.find("*"); if (f != flush.end() && f->second <= now && it.time <= f->second) return true;
    string p = prefix_of(k); f = flush.find("p:" + p);
    if (f != flush.end() && f->second <= now && it.time <= f->second) return true;
    return false;
}
Item *Model::find(const string &k) {
    auto i = kv.find(k); if (i == kv.end()) return nullptr;
    if (dead(k, i->second)) { unsure.insert(prefix_of(k)); kv.erase(i); return nullptr; }
    return &i->second;
}
void Model::expire_all() { for (auto i = kv.begin(); i != kv.end();) if (dead(i->first, i->second)) { unsure.insert(prefix_of(i->first)); i = kv.erase(i); } else ++i; }
size_t Model::max_count(const Item &it) const {
    if (it.mcnt > 0) return it.mcnt;
    return it.type == LIST ? lim.max_list : it.type == SET ? lim.max_set : it.type == MAP ? lim.max_map : lim.max_btree;
}
string Model::canon() const {
    string r;
    for (auto &p : kv) {
        const Item &it = p.second; if (dead(p.first, it)) continue;
        r += p.first + "|" + std::to_string(it.type) + "|" + std::to_string(it.flags) + "|" + (it.exp > 0 ? std::to_string(it.exp - now) : std::to_string(it.exp)) + "|";
        if (it.type == KV) {
            r += it.val; auto c = cas.find(p.first);
            if (c != cas.end()) r += string("|c") + (c->second.last_ver == it.ver ? "1" : c->second.last_ver ? "2" : "0") + (c->second.first_ver == it.ver ? "1" : c->second.first_ver ? "2" : "0");
        } else {
            r += std::to_string(it.mcnt) + "," + std::to_string(it.ovf) + "," + (it.readable ? "r" : "u") + (it.trimmed ? "t" : "") + std::to_string(it.bktype) + (it.has_range ? it.range.str() : "") + "|";
            for (auto &v : it.list) r += v + ",";
            for (auto &v : it.set) r += v + ",";
            for (auto &v : it.mp) r += v.first + "=" + v.second + ",";
            for (auto &v : it.bt) r += v.first.str() + "/" + v.second.eflag + "=" + v.second.val + ",";
        }
        r += "\n";
    }
    for (auto &f : flush) if (f.second > now) r += "F" + f.first + std::to_string(f.second - now);
    // relation of a remembered token to an absent item
    for (auto &c : cas) if (!kv.count(c.first)) r += "C" + c.first + (c.second.last_ver ? "2" : "0");
    return r;
}
string Model::subst(const string &req) const {
    size_t nl = req.find("\r\n"); string r = req.substr(0, nl), tail = nl == string::npos ? "" : req.substr(nl); size_t p;
    if (r.find('@') == string::npos) return req;
    while ((p = r.find("@L(")) != string::npos || (p = r.find("@F(")) != string::npos) {
        size_t e = r.find(')', p); string k = r.substr(p + 3, e - p - 3); auto c = cas.find(k);
        uint64_t t = c == cas.end() ? 0 : r[p + 1] == 'L' ? c->second.last_tok : c->second.first_tok;
        r.replace(p, e - p + 1, std::to_string(t ? t : 999999999999ull));
    }
    return r + tail;
}

// ---------------------------------------------------------------- b+tree queries
struct Range { BKey from, to; bool single = true; int type() const { int c = from.cmp(to); return c == 0 ? 0 : c < 0 ? 1 : 2; } }; // 0 SIN 1 ASC 2 DSC
static bool parse_range(const string &s, Range &r) {
    size_t p = s.find("..");
    if (p == string::npos) { if (!parse_bkey(s, r.from)) return false; r.to = r.from; r.single = true; return true; }
    r.single = false;
    if (!parse_bkey(s.substr(0, p), r.from) || !parse_bkey(s.substr(p + 2), r.to)) return false;
    return r.from.bin == r.to.bin;
}
struct Filter { bool on = false; int off = 0; int bitop = -1; string bitval; int cmp = 0; vector<string> vals; };
static int cmpop(const string &s) { const char *n[] = {"EQ", "NE", "LT", "LE", "GT", "GE"}; for (int i = 0; i < 6; i++) if (s == n[i]) return i; return -1; }
static int bitop(const string &s) { return s == "&" ? 0 : s == "|" ? 1 : s == "^" ? 2 : -1; }
static string bitdo(int op, const string &a, const string &b) { string r = a; for (size_t i = 0; i < r.size(); i++) r[i] = op == 0 ? a[i] & b[i] : op == 1 ? a[i] | b[i] : a[i] ^ b[i]; return r; }
// tries to parse a filter at t[i]; returns number of tokens consumed, 0 none, -1 error
static int parse_filter(const vector<string> &t, size_t i, Filter &f) {
    auto hexlike = [&](size_t k) { return k < t.size() && t[k].compare(0, 2, "0x") == 0; };
    size_t n = 0;
    if (t.size() - i >= 3 && i < t.size() && hexlike(i + 2)) {
        uint32_t off; if (!parse_u32(t[i], off) || off >= 31) return -1; f.off = off; size_t v;
        if (t.size() - i >= 5 && hexlike(i + 4)) {
            f.bitop = bitop(t[i + 1]); if (f.bitop < 0) return -1;
            if (!parse_hexflag(t[i + 2], f.bitval)) return -1;
            f.cmp = cmpop(t[i + 3]); v = i + 4; n = 5;
        } else { f.cmp = cmpop(t[i + 1]); v = i + 2; n = 3; }
        if (f.cmp < 0) return -1;
        for (auto &x : split(t[v], ',')) { string h; if (!parse_hexflag(x, h)) return -1; if (!f.vals.empty() && h.size() != f.vals[0].size()) return -1; f.vals.push_back(h); }
        if (f.vals.empty() || f.vals.size() > 100) return -1;
        if (f.vals.size() > 1 && f.cmp > 1) return -1;
        if (f.off + f.vals[0].size() > 31) return -1;
        if (f.bitop >= 0 && f.bitval.size() != f.vals[0].size()) return -1;
        f.on = true;
    }
    return (int)n;
}
static bool pass(const Filter &f, const BElem &e) {
    if (!f.on) return true;
    size_t n = f.vals[0].size();
    if ((size_t)f.off >= e.eflag.size() || n > e.eflag.size() - f.off) return f.cmp == 1;
    string op = e.eflag.substr(f.off, n);
    if (f.bitop >= 0) op = bitdo(f.bitop, op, f.bitval);
    if (f.vals.size() > 1) { bool in = std::find(f.vals.begin(), f.vals.end(), op) != f.vals.end(); return f.cmp == 0 ? in : !in; }
    int c = bcmp_(op, f.vals[0]);
    switch (f.cmp) { case 0: return c == 0; case 1: return c != 0; case 2: return c < 0; case 3: return c <= 0; case 4: return c > 0; default: return c >= 0; }
}
// scan of one tree mirroring the documented query semantics
struct Scan { vector<BE> all; bool none = false; bool start_trim = false, end_trim = false; BE last; bool from_eq = false; };
static bool overlapped(const Item &it, long pos, int rt) {
    long n = it.bt.size();
    if (it.ovf == O_SMALL) return pos == -1 || (pos == 0 && n > 0 && rt == 1);
    if (it.ovf == O_LARGE) return pos == n || (pos == n - 1 && rt == 2);
    return false;
}
// walk in range order starting at `from`; visitor returns false to stop (before moving on)
template <class F> static void walk(const Item &it, const Range &r, Scan &s, F visit) {
    vector<BE> v(it.bt.begin(), it.bt.end()); long n = v.size(); int rt = r.type();
    long pos; bool eq = false;
    long lb = std::lower_bound(v.begin(), v.end(), r.from, [](const BE &a, const BKey &b) { return a.first < b; }) - v.begin();
    if (lb < n && v[lb].first == r.from) { eq = true; pos = lb; }
    else if (rt == 2) pos = lb - 1;
    else pos = lb;
    if (!eq && rt == 0) { // not found: only a position outside the tree matters
        s.none = true; long q = lb >= n ? n : lb == 0 ? -1 : lb; if (n == 0) q = n;
        if (it.trimmed && (q == -1 || q == n) && overlapped(it, q, rt)) s.start_trim = true; return;
    }
    bool inr = pos >= 0 && pos < n && (rt == 2 ? !(v[pos].first < r.to) : !(r.to < v[pos].first));
    if (!inr) { s.none = true; if (it.trimmed && overlapped(it, pos, rt)) s.start_trim = true; return; }
    s.from_eq = eq;
    if (!eq && it.trimmed && overlapped(it, pos, rt)) s.start_trim = true;
    bool bkeq = false;
    for (;;) {
        s.last = v[pos];
        if (!visit(v[pos])) return;
        if (bkeq) return;
        pos += rt == 2 ? -1 : 1;
        if (pos < 0 || pos >= n) { if (it.trimmed && overlapped(it, pos < 0 ? -1 : n, rt)) s.end_trim = true; return; }
        int c = v[pos].first.cmp(r.to);
        if (rt == 2 ? c < 0 : c > 0) return;
        if (c == 0) bkeq = true;
    }
}
struct QRes { vector<BE> el; bool trim = false; };
static QRes query(const Item &it, const Range &r, const Filter &f, uint32_t off, uint32_t cnt) {
    QRes q; Scan s; uint32_t skip = 0; 
    if (r.type() == 0) {
        walk(it, r, s, [&](const BE &e) { if (off == 0 && pass(f, e.second)) q.el.push_back(e); return false; });
        q.trim = s.none && s.start_trim; return q;
    }
    walk(it, r, s, [&](const BE &e) {
        if (pass(f, e.second)) { if (skip < off) skip++; else { q.el.push_back(e); if (cnt > 0 && q.el.size() >= cnt) return false; } }
        return true; });
    q.trim = s.start_trim || s.end_trim;
    return q;
}
static string elem_line(const BE &e) { return e.first.str() + (e.second.eflag.empty() ? "" : " " + hex(e.second.eflag)) + " " + std::to_string(e.second.val.size()) + " " + e.second.val + "\r\n"; }
static string bin_sub(const string &a, const string &b, size_t n) { // a-b over n bytes (right padded with zeros)
    string x = a, y = b; x.resize(n, 0); y.resize(n, 0); int bo = 0; string r(n, 0);
    for (long i = n - 1; i >= 0; i--) { int d = (unsigned char)x[i] - (unsigned char)y[i] - bo; bo = d < 0; if (d < 0) d += 256; r[i] = d; }
    return r;
}
static int span_cmp(const BKey &hi, const BKey &lo, const BKey &range) { // (hi-lo) vs range
    if (!hi.bin) { uint64_t d = hi.u - lo.u; return d < range.u ? -1 : d > range.u; }
    return bcmp_(bin_sub(hi.b, lo.b, range.b.size()), range.b);
}

// ---------------------------------------------------------------- attributes
static bool parse_create(const vector<string> &t, size_t i, size_t end, Type type, Item &a, int64_t now, string &rep) {
    // t[i..end) : flags [exptime [maxcount [ovfl] [unreadable]]]
    a = Item(); a.type = type; a.ovf = type == LIST ? O_TAIL : type == BTREE ? O_SMALL : O_ERROR; a.exp = 0;
    size_t n = end - i; int32_t mc = 0; int64_t e = 0;
    if (n < 1 || !parse_u32(t[i], a.flags) || (n > 1 && !parse_i64(t[i + 1], e)) || (n > 2 && !parse_i32(t[i + 2], mc))) { rep = BADFMT; return false; } // the shorter forms belong to older clients
    a.exp = abs_time(e, now); a.mcnt = mc; size_t k = std::min(i + 3, end);
    if (k < end) {
        int o = ovf_of(t[k]);
        if (o >= 0) {
            if (!(o == O_ERROR || (type == LIST && (o == O_HEAD || o == O_TAIL)) || (type == BTREE && o >= O_SMALL))) { rep = BADFMT; return false; }
            a.ovf = (Ovf)o; k++;
        }
    }
    if (k < end && t[k] == "unreadable") { a.readable = false; k++; }
    if (k < end) { rep = BADFMT; return false; }
    return true;
}
static void norm_count(Item &a, const Limits &l) {
    int32_t mx = a.type == LIST ? l.max_list : a.type == SET ? l.max_set : a.type == MAP ? l.max_map : l.max_btree;
    if (a.mcnt < 0) a.mcnt = -1; else if (a.mcnt == 0) a.mcnt = 4000; 
    if (a.mcnt > mx) a.mcnt = mx;
}
static string strip_nr(vector<string> &t, bool &noreply) { if (!t.empty() && t.back() == "noreply") { noreply = true; t.pop_back(); } return ""; }
// 1 a plain decimal number, 0 not a number, 2 a decimal number with blanks or a plus sign around it (either answer is acceptable)
static int numeric(const string &s, uint64_t &v) {
    if (parse_u64(s, v)) return 1; if (!s.empty() && s.find_first_not_of("0123456789") == string::npos && s.find_first_not_of('0') != string::npos && s.size() - s.find_first_not_of('0') <= 20) return parse_u64(s.substr(s.find_first_not_of('0')), v);
    if (!s.empty() && s.find_first_not_of('0') == string::npos) { v = 0; return 1; }
    size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') { size_t j = i + 1, z = j; while (j < s.size() && s[j] == '0') j++; if (j == z || (j < s.size() && !isspace((unsigned char)s[j]))) return 0; v = 0; return 2; } i++; }
    size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == b || (i < s.size() && !isspace((unsigned char)s[i]))) return 0;
    string d = s.substr(b, i - b); while (d.size() > 1 && d[0] == '0') d.erase(0, 1); return parse_u64(d, v) ? 2 : 0; }
static bool refused(const string *actual) { return actual && actual->compare(0, 12, "CLIENT_ERROR") == 0; }

long data_length(const string &line) {
    vector<string> t = split(line); if (t.empty()) return -1; const string &c = t[0]; int32_t n;
    auto num = [&](size_t i) -> long { return i < t.size() && parse_i32(t[i], n) && n >= 0 ? n : -1; };
    if (c == "set" || c == "add" || c == "replace" || c == "append" || c == "prepend" || c == "cas") return num(4);
    if (c == "mget" || c == "mgets") return num(1);
    if (t.size() < 3) return -1;
    const string &s = t[1];
    if (c == "lop" && s == "insert") return num(4);
    if (c == "sop" && (s == "insert" || s == "delete" || s == "exist")) return num(3);
    if (c == "mop" && (s == "insert" || s == "upsert" || s == "update")) return num(4);
    if (c == "mop" && (s == "get" || s == "delete")) { long n = num(3); return n > 0 ? n : -1; }
    if (c == "bop" && (s == "insert" || s == "upsert")) { if (t.size() > 5 && t[4].compare(0, 2, "0x") == 0) return num(5); return num(4); }
    if (c == "bop" && s == "update") { size_t e = t.size() - (t.back() == "noreply" || t.back() == "pipe"); return e < 5 ? -1 : e >= 7 ? num(7) : num(e - 1); }
    if (c == "bop" && (s == "mget" || s == "smget")) return num(2);
    return -1;
}

string Model::exec(const string &req, const string *actual, string &err) {
    err.clear();
    size_t nl = req.find("\r\n"); string line = req.substr(0, nl), rest = nl == string::npos ? "" : req.substr(nl + 2);
    vector<string> t = split(line); bool noreply = false;
    auto data_of = [&](long n, string &d) -> bool { // complete data block of n bytes?
        if (rest.size() != (size_t)n + 2 || rest.compare(n, 2, "\r\n") != 0) return false; d = rest.substr(0, n); return true; };
    auto touch_ver = [&](Item &it) { it.ver = ++serial; };
    auto put = [&](const string &k, Item &&it) -> Item & { it.time = now; Item &r = kv[k] = std::move(it); touch_ver(r); return r; };
    auto done = [&](const string &r) -> string {
        string e = noreply ? "" : r;
        if (actual && *actual != e) err = "expected \"" + mc::esc(e, 800) + "\" got \"" + mc::esc(*actual, 800) + "\"";
        return e; };
    if (t.empty()) return done("ERROR unknown command\r\n");
    const string c = t[0];
    { size_t ki = c == "lop" || c == "sop" || c == "mop" || (c == "bop" && t.size() > 1 && t[1] != "mget" && t[1] != "smget") ? 2 : c == "get" || c == "gets" || c == "mget" || c == "mgets" || c == "bop" ? 0 : 1; if (ki && t.size() > ki + 0 && t[ki].size() > 16000 && ki + 1 < t.size() + (c == "delete" || c == "getattr")) return done(BADFMT); }
    // ------------------------------------------------ KV
    if ((c == "get" || c == "gets") && t.size() < 2) return done("ERROR unknown command\r\n");
    if (c == "get" || c == "gets" || c == "mget" || c == "mgets") {
        vector<string> keys; bool cs = c.back() == 's';
        if (c[0] == 'g') keys.assign(t.begin() + 1, t.end());
        else { string d; uint32_t ln, nk; if (t.size() != 3 || !parse_u32(t[1], ln) || !parse_u32(t[2], nk)) return done(BADFMT);
            if (ln == 0 || nk == 0) return done(BADFMT);
            if (nk > 10000 || nk > ln / 2 + 1) return done(BADVAL);
            if (!data_of(ln, d)) return done(BADCHUNK); keys = split(d); if (keys.size() != nk) return done(BADCHUNK);
            for (auto &k : keys) if (k.size() > 16000) return done(BADCHUNK); }
        for (auto &k : keys) if (k.size() > 16000) return done(BADFMT);
        string r;
        for (auto &k : keys) {
            Item *it = find(k); if (!it || it->type != KV) continue;
            string h = "VALUE " + k + " " + std::to_string(it->flags) + " " + std::to_string(it->val.size());
            if (cs) {
                KeyCas &kc = cas[k]; uint64_t tok = it->ver;
                if (actual) {
                    string want = r + h + " ";
                    if (actual->compare(0, want.size(), want) != 0) { r = want + "<cas>"; return done(r); }
                    size_t e = actual->find("\r\n", want.size()); if (e == string::npos || !parse_u64(actual->substr(want.size(), e - want.size()), tok) || tok == 0) { err = "malformed cas token in \"" + mc::esc(*actual) + "\""; return ""; }
                    auto q = kc.ver2tok.find(it->ver);
                    if (q != kc.ver2tok.end()) { if (q->second != tok) { err = "the cas token of " + k + " changed although the item was not modified (was " + std::to_string(q->second) + "): \"" + mc::esc(*actual) + "\""; return ""; } }
                    else if (kc.tok2ver.count(tok)) { err = "cas token " + std::to_string(tok) + " of " + k + " was used for an earlier version"; return ""; }
                }
                kc.ver2tok[it->ver] = tok; kc.tok2ver[tok] = it->ver;
                kc.last_tok = tok; kc.last_ver = it->ver; if (!kc.first_tok) { kc.first_tok = tok; kc.first_ver = it->ver; }
                h += " " + std::to_string(tok);
            }
            r += h + "\r\n" + it->val + "\r\n";
        }
        return done(r + "END\r\n");
    }
    if (c == "set" || c == "add" || c == "replace" || c == "append" || c == "prepend" || c == "cas") {
        strip_nr(t, noreply); size_t need = c == "cas" ? 6 : 5; uint32_t fl; int64_t e; int32_t n; uint64_t cu = 0;
        if (t.size() != need) return done("ERROR unknown command\r\n");
        const string &k = t[1]; if (k.size() > 16000) return done(BADFMT);
        if (!parse_u32(t[2], fl) || !parse_i64(t[3], e) || !parse_i32(t[4], n) || n < 0) return done(BADFMT);
        if (c == "cas" && !parse_u64(t[5], cu)) return done(BADFMT);
        if (n > 1000000) { if (c == "set") { find(k); kv.erase(k); } return done("CLIENT_ERROR object too large for cache\r\n"); }
        string d; if (!data_of(n, d)) return done(BADCHUNK);
        Item *it = find(k); 
        if (c == "add") { if (it) { return done(it->type != KV ? TM : "NOT_STORED\r\n"); } }
        else if (c == "set") { if (it && it->type != KV) return done(TM); }
        else if (c == "cas") {
            if (!it) return done(NF); if (it->type != KV) return done(TM);
            KeyCas &kc = cas[k]; auto q = kc.tok2ver.find(cu);
            if (q == kc.tok2ver.end() || q->second != it->ver) return done("EXISTS\r\n");
        } else { if (!it) return done("NOT_STORED\r\n"); if (it->type != KV) return done(TM); }
        if (c == "append" || c == "prepend") { it->val = c == "append" ? it->val + d : d + it->val; it->time = now; touch_ver(*it); return done("STORED\r\n"); }
        Item ni; ni.flags = fl; ni.exp = abs_time(e, now); ni.val = d; put(k, std::move(ni));
        return done("STORED\r\n");
    }
    if (c == "incr" || c == "decr") {
        strip_nr(t, noreply); uint64_t delta, init = 0; uint32_t fl = 0; int64_t e = 0; bool create = false;
        if (t.size() != 3 && t.size() != 6) return done("ERROR unknown command\r\n");
        if (!parse_u64(t[2], delta)) return done("CLIENT_ERROR invalid numeric delta argument\r\n");
        if (t.size() == 6) { create = true; if (!parse_u32(t[3], fl) || !parse_i64(t[4], e) || !parse_u64(t[5], init)) return done(BADFMT); }
        Item *it = find(t[1]); uint64_t v;
        if (!it) { if (!create) return done(NF); Item ni; ni.flags = fl; ni.exp = abs_time(e, now); ni.val = std::to_string(init); put(t[1], std::move(ni)); return done(std::to_string(init) + "\r\n"); }
        if (it->type != KV) return done(TM);
        int nk = numeric(it->val, v); if (!nk || (nk == 2 && refused(actual))) return done("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n");
        v = c == "incr" ? v + delta : delta > v ? 0 : v - delta;
        it->val = std::to_string(v); it->time = now; touch_ver(*it); return done(it->val + "\r\n");
    }
    if (c == "delete") {
        strip_nr(t, noreply); if (t.size() == 3 && t[2] == "0") t.pop_back();
        if (t.size() != 2) return done("CLIENT_ERROR bad command line format.  Usage: delete <key> [noreply]\r\n");
        if (t[1].size() > 16000) return done(BADFMT);
        Item *it = find(t[1]); if (!it) return done(NF); kv.erase(t[1]); return done("DELETED\r\n");
    }
    if (c == "touch") {
        strip_nr(t, noreply); int64_t e; if (t.size() != 3) return done("ERROR unknown command\r\n");
        if (!parse_i64(t[2], e)) return done(BADVAL);
        Item *it = find(t[1]); if (!it) return done(NF); int64_t a = abs_time(e, now);
        if ((it->exp == -1) != (a == -1)) return done(BADVAL);
        it->exp = a; return done("TOUCHED\r\n");
    }
    if (c == "flush_all" || c == "flush_prefix") {
        strip_nr(t, noreply); int64_t d = 0; size_t base = c == "flush_all" ? 1 : 2;
        if (t.size() < base || t.size() > base + 1) return done("ERROR unknown command\r\n");
        if (t.size() == base + 1 && (!parse_i64(t[base], d) || d < 0)) return done(BADFMT);
        string scope = "*", pfx;
        if (base == 2) { pfx = t[1] == "<null>" ? "" : t[1]; scope = "p:" + pfx; bool any = false; expire_all(); for (auto &p : kv) if (prefix_of(p.first) == pfx) any = true; if (!any && !pfx.empty() && !(unsure.count(pfx) && actual && *actual == "OK\r\n")) return done(NF); }
        if (d == 0) { flush.erase(scope); for (auto i = kv.begin(); i != kv.end();) if (base == 1 || prefix_of(i->first) == pfx) { unsure.insert(prefix_of(i->first)); i = kv.erase(i); } else ++i; }
        else { // an already effective earlier flush stays effective
            expire_all(); int64_t w = abs_time(d, now); auto of = flush.find(scope); if (of != flush.end() && of->second <= now) flushed[scope] = of->second; flush[scope] = w - 1; 
            if (w - 1 <= now) expire_all(); }
        return done("OK\r\n");
    }
    // ------------------------------------------------ attributes
    if (c == "getattr") { if (t.size() < 2) return done("ERROR unknown command\r\n");
        static const char *names[] = {"flags", "expiretime", "type", "count", "maxcount", "overflowaction", "readable", "maxbkeyrange", "minbkey", "maxbkey", "trimmed"};
        vector<string> ns(t.begin() + 2, t.end());
        for (auto &n : ns) { bool ok = false; for (auto x : names) if (n == x) ok = true; if (!ok) return done("ATTR_ERROR not found\r\n"); }
        Item *it = find(t[1]); if (!it) return done(NF);
        if (ns.empty()) { ns = {"type", "flags", "expiretime"}; if (it->type != KV) for (auto x : {"count", "maxcount", "overflowaction", "readable"}) ns.push_back(x); if (it->type == BTREE) for (auto x : {"maxbkeyrange", "minbkey", "maxbkey", "trimmed"}) ns.push_back(x); }
        string r;
        for (auto &n : ns) {
            bool coll = n == "count" || n == "maxcount" || n == "overflowaction" || n == "readable", btr = n == "maxbkeyrange" || n == "minbkey" || n == "maxbkey" || n == "trimmed";
            if ((coll && it->type == KV) || (btr && it->type != BTREE)) return done("ATTR_ERROR not found\r\n");
            string v;
            if (n == "type") v = TYN[it->type]; else if (n == "flags") v = std::to_string(it->flags);
            else if (n == "expiretime") v = it->exp <= 0 ? std::to_string(it->exp) : std::to_string(it->exp - now);
            else if (n == "count") v = std::to_string(it->count()); else if (n == "maxcount") v = std::to_string(max_count(*it));
            else if (n == "overflowaction") v = OVN[it->ovf]; else if (n == "readable") v = it->readable ? "on" : "off";
            else if (n == "maxbkeyrange") v = it->has_range ? it->range.str() : "0";
            else if (n == "minbkey") v = it->bt.empty() ? "-1" : it->bt.begin()->first.str(); else if (n == "maxbkey") v = it->bt.empty() ? "-1" : it->bt.rbegin()->first.str();
            else v = it->trimmed ? "1" : "0";
            r += "ATTR " + n + "=" + v + "\r\n";
        }
        return done(r + "END\r\n");
    }
    if (c == "setattr") {
        if (t.size() < 3) return done("ERROR unknown command\r\n");
        string e1; int64_t ex = 0; bool hx = false, hm = false, ho = false, hr = false, hk = false; int32_t m = 0; int o = 0; BKey bk; bool reset = false;
        vector<string> order;
        for (size_t i = 2; i < t.size() && e1.empty(); i++) {
            size_t q = t[i].find('='); if (q == string::npos) return done(BADFMT);
            string n = t[i].substr(0, q), v = t[i].substr(q + 1); order.push_back(n);
            if (n == "expiretime") { if (!parse_i64(v, ex)) e1 = "v"; hx = true; }
            else if (n == "maxcount") { if (!parse_i32(v, m)) e1 = "v"; hm = true; }
            else if (n == "overflowaction") { o = ovf_of(v); if (o < 0) e1 = "v"; ho = true; }
            else if (n == "readable") { if (v != "on") e1 = "v"; hr = true; }
            else if (n == "maxbkeyrange") { if (!parse_bkey(v, bk)) e1 = "v"; hk = true; reset = !bk.bin && bk.u == 0; }
            else e1 = "n";
        }
        if (e1 == "v") return done("ATTR_ERROR bad value\r\n");
        if (e1 == "n") return done("ATTR_ERROR not found\r\n");
        Item *it = find(t[1]); if (!it) return done(NF);
        int64_t a = abs_time(ex, now); Item n = *it; 
        // validity: any violation refuses the whole command (kind of error by first offender: unsupported names first)
        string unsup, bad;
        if (it->type == KV && (hm || ho || hr || hk)) unsup = "1";
        if (it->type != BTREE && hk) unsup = "1";
        if (hx && ((it->exp == -1) != (a == -1))) bad = "1";
        if (hm && it->type != KV) { n.mcnt = m; norm_count(n, lim); if (n.mcnt > 0 && (size_t)n.mcnt < it->count()) bad = "1"; }
        if (ho && it->type != KV) { if (!(o == O_ERROR || (it->type == LIST && (o == O_HEAD || o == O_TAIL)) || (it->type == BTREE && o >= O_SMALL))) bad = "1"; if (n.ovf != o && it->type == BTREE) n.trimmed = false; n.ovf = (Ovf)o; }
        if (hr) n.readable = true;
        if (hk && it->type == BTREE) {
            if (!reset && !it->bt.empty()) {
                if ((it->bktype == 1) == bk.bin) bad = "1";
                else if (it->bt.size() >= 2 && !(it->has_range && it->range == bk) && span_cmp(it->bt.rbegin()->first, it->bt.begin()->first, bk) > 0) bad = "1";
            }
            if (reset) { if (n.has_range) { n.has_range = false; if (n.bt.empty()) n.bktype = 0; } }
            else { n.has_range = true; n.range = bk; if (n.bt.empty()) n.bktype = bk.bin ? 2 : 1; }
        }
        if (hx) n.exp = a;
        if (!unsup.empty() && !bad.empty()) { // either refusal is acceptable
            string x = "ATTR_ERROR not found\r\n", y = "ATTR_ERROR bad value\r\n"; return done(actual && *actual == y ? y : x);
        }
        if (!unsup.empty()) return done("ATTR_ERROR not found\r\n");
        if (!bad.empty()) return done("ATTR_ERROR bad value\r\n");
        *it = n; return done("OK\r\n");
    }
    // ------------------------------------------------ collections
    if (c != "lop" && c != "sop" && c != "mop" && c != "bop") return done("ERROR unknown command\r\n");
    if (t.size() < 3) return done("ERROR unknown command\r\n");
    Type ty = c == "lop" ? LIST : c == "sop" ? SET : c == "mop" ? MAP : BTREE; const string s = t[1];
    if (t.back() == "noreply") { noreply = true; t.pop_back(); }
    if (s == "create") {
        Item a; string rep; if (t.size() < 6) return done(BADFMT); if (!parse_create(t, 3, t.size(), ty, a, now, rep)) return done(rep);
        norm_count(a, lim);
        if (find(t[2])) return done("EXISTS\r\n");
        put(t[2], std::move(a)); return done("CREATED\r\n");
    }
    // parse optional trailing "create ..." of insert commands starting at index i
    Item cattr; bool create = false, getrim = false;
    auto parse_tail = [&](size_t i, string &rep) -> bool {
        if (i < t.size() && t.back() == "getrim") { getrim = true; t.pop_back(); }
        if (i == t.size()) return true;
        if (t[i] != "create") { rep = BADFMT; return false; }
        if (!parse_create(t, i + 1, t.size(), ty, cattr, now, rep)) return false;
        create = true; norm_count(cattr, lim); return true; };
    const string key = t[2];
    auto finish_insert = [&](const string &r, bool ok, bool created) { if (!ok && created) kv.erase(key); return done(ok ? (created ? "CREATED_STORED\r\n" : r) : r); };
    auto del_reply = [&](Item *it, size_t n, bool drop) -> string { if (n == 0) return NFE; if (it->count() == 0 && drop) { kv.erase(key); return "DELETED_DROPPED\r\n"; } return "DELETED\r\n"; };

    if (ty == LIST) {
        if (s == "insert") {
            int32_t ix, n; string rep, d; if (t.size() < 5 || !parse_i32(t[3], ix) || !parse_i32(t[4], n) || n < 0) return done(BADFMT);
            if (!parse_tail(5, rep)) return done(rep);
            if ((uint32_t)n + 2 > lim.max_elem) return done(TLV);
            if (!data_of(n, d)) return done(BADCHUNK);
            Item *it = find(key); bool cr = false;
            if (!it) { if (!create) return done(NF); it = &put(key, Item(cattr)); cr = true; }
            if (it->type != LIST) return done(TM);
            long cnt = it->list.size(), mx = max_count(*it);
            if (ix >= 0) { if (ix > cnt || ix > mx - 1) return finish_insert(OOR, false, cr); }
            else { if (-(int64_t)ix > cnt + 1 || -(int64_t)ix > mx) return finish_insert(OOR, false, cr); }
            if (it->ovf == O_ERROR && cnt >= mx) return finish_insert("OVERFLOWED\r\n", false, cr);
            if (cnt >= mx) { // trim first
                bool at_head = ix == 0, at_tail = ix == -1; long pos = ix >= 0 ? ix : ix + cnt + 1;
                string tr; bool head;
                if (at_head) head = false; else if (at_tail) head = true; else head = it->ovf == O_HEAD;
                if (head) { it->list.pop_front(); if (pos > 0) pos--; } else { it->list.pop_back(); if (pos > (long)it->list.size()) pos = it->list.size(); }
                if (!head && ix < 0 && !at_tail) { /* negative index counts from the new end */ }
                it->list.insert(it->list.begin() + pos, d);
            } else { long pos = ix >= 0 ? ix : ix + cnt + 1; it->list.insert(it->list.begin() + pos, d); }
            return finish_insert("STORED\r\n", true, cr);
        }
        if (s == "get" || s == "delete") {
            if (t.size() < 4) return done(BADFMT);
            int64_t f, g; size_t p = t[3].find("..", 1); int32_t f3, g3;
            if (p == string::npos) { if (!parse_i32(t[3], f3)) return done(BADFMT); f = g = f3; }
            else { if (!parse_i32(t[3].substr(0, p), f3) || !parse_i32(t[3].substr(p + 2), g3)) return done(BADFMT); f = f3; g = g3; }
            bool del = s == "delete", drop = false;
            if (t.size() == 5) { if (t[4] == "drop") { drop = true; del = true; } else if (t[4] == "delete" && s == "get") del = true; else return done(BADFMT); } else if (t.size() > 5) return done(BADFMT);
            Item *it = find(key); if (!it) return done(NF); if (it->type != LIST) return done(TM);
            if (s == "get" && !it->readable) return done(UNR);
            long n = it->list.size(); bool single = f == g; (void)single;
            if (n == 0) return done(NFE);
            if (f < 0) f += n; if (g < 0) g += n;
            if ((f < 0 && g < 0) || (f >= n && g >= n)) return done(NFE);
            f = std::max<int64_t>(0, std::min<int64_t>(f, n - 1)); g = std::max<int64_t>(0, std::min<int64_t>(g, n - 1));
            vector<string> out; if (f <= g) for (long i = f; i <= g; i++) out.push_back(it->list[i]); else for (long i = f; i >= g; i--) out.push_back(it->list[i]);
            string r = "VALUE " + std::to_string(it->flags) + " " + std::to_string(out.size()) + "\r\n"; for (auto &x : out) r += std::to_string(x.size()) + " " + x + "\r\n";
            string tail = "END\r\n";
            if (del) { long a = std::min(f, g), b = std::max(f, g); it->list.erase(it->list.begin() + a, it->list.begin() + b + 1); tail = del_reply(it, out.size(), drop); }
            return done(s == "get" ? r + tail : tail);
        }
        return done(BADFMT);
    }
    if (ty == SET) {
        if (s == "insert" || s == "delete" || s == "exist") {
            int32_t n; string rep, d; if (t.size() < 4 || !parse_i32(t[3], n) || n < 0) return done(BADFMT);
            bool drop = false;
            if (s == "insert") { if (!parse_tail(4, rep)) return done(rep); } else if (t.size() == 5) { if (s == "delete" && t[4] == "drop") drop = true; else return done(BADFMT); } else if (t.size() > 5) return done(BADFMT);
            if ((uint32_t)n + 2 > lim.max_elem) return done(TLV);
            if (!data_of(n, d)) return done(BADCHUNK);
            Item *it = find(key); bool cr = false;
            if (!it) { if (s != "insert" || !create) return done(NF); it = &put(key, Item(cattr)); cr = true; }
            if (it->type != SET) return done(TM);
            if (s == "insert") {
                if (it->set.count(d) && it->set.size() >= max_count(*it) && actual && *actual == "OVERFLOWED\r\n") return finish_insert(*actual, false, cr); // both refusals apply
                if (it->set.count(d)) return finish_insert("ELEMENT_EXISTS\r\n", false, cr);
                if (it->set.size() >= max_count(*it)) return finish_insert("OVERFLOWED\r\n", false, cr);
                it->set.insert(d); return finish_insert("STORED\r\n", true, cr);
            }
            if (s == "exist") { if (!it->readable) return done(UNR); return done(it->set.count(d) ? "EXIST\r\n" : "NOT_EXIST\r\n"); }
            size_t k = it->set.erase(d); return done(del_reply(it, k, drop));
        }
        if (s == "get") {
            uint32_t cnt; if (t.size() < 4 || !parse_u32(t[3], cnt)) return done(BADFMT); bool del = false, drop = false;
            if (t.size() == 5) { if (t[4] == "drop") del = drop = true; else if (t[4] == "delete") del = true; else return done(BADFMT); } else if (t.size() > 5) return done(BADFMT);
            if (cnt > 1000) return done("CLIENT_ERROR invalid: too many count\r\n");
            Item *it = find(key); if (!it) return done(NF); if (it->type != SET) return done(TM); if (!it->readable) return done(UNR);
            if (it->set.empty()) return done(NFE);
            size_t want = cnt == 0 || cnt >= it->set.size() ? it->set.size() : cnt; string h = "VALUE " + std::to_string(it->flags) + " " + std::to_string(want) + "\r\n";
            vector<string> out;
            if (actual) { // parse and check membership
                if (actual->compare(0, h.size(), h) != 0) return done(h + "...");
                size_t p = h.size(); std::set<string> seen; string body;
                for (size_t i = 0; i < want; i++) {
                    size_t sp = actual->find(' ', p); uint32_t l; if (sp == string::npos || !parse_u32(actual->substr(p, sp - p), l) || actual->size() < sp + 1 + l + 2) { err = "malformed sop get reply \"" + mc::esc(*actual) + "\""; return ""; }
                    string v = actual->substr(sp + 1, l);
                    if (!it->set.count(v)) { err = "sop get returned \"" + mc::esc(v) + "\", which is not a member: \"" + mc::esc(*actual) + "\""; return ""; }
                    if (!seen.insert(v).second) { err = "sop get returned \"" + mc::esc(v) + "\" twice: \"" + mc::esc(*actual) + "\""; return ""; }
                    out.push_back(v); p = sp + 1 + l + 2;
                }
            } else out.assign(it->set.begin(), std::next(it->set.begin(), want));
            string r = h; for (auto &v : out) r += std::to_string(v.size()) + " " + v + "\r\n";
            string tail = "END\r\n"; if (del) { for (auto &v : out) it->set.erase(v); tail = del_reply(it, out.size(), drop); }
            return done(r + tail);
        }
        return done(BADFMT);
    }
    if (ty == MAP) {
        if (s == "insert" || s == "upsert" || s == "update") {
            int32_t n; string rep, d; if (t.size() < 5) return done(BADFMT); const string &f = t[3];
            if (f.size() > 250) return done("CLIENT_ERROR too long field name\r\n");
            if (!parse_i32(t[4], n) || n < 0) return done(BADFMT);
            if (s != "update") { if (!parse_tail(5, rep)) return done(rep); } else if (t.size() > 5) return done(BADFMT);
            if ((uint32_t)n + 2 > lim.max_elem) return done(TLV);
            if (!data_of(n, d)) return done(BADCHUNK);
            Item *it = find(key); bool cr = false;
            if (!it) { if (s == "update" || !create) return done(NF); it = &put(key, Item(cattr)); cr = true; }
            if (it->type != MAP) return done(TM);
            auto q = it->mp.find(f);
            if (s == "update") { if (q == it->mp.end()) return done(NFE); q->second = d; return done("UPDATED\r\n"); }
            if (q != it->mp.end()) { if (s == "upsert") { q->second = d; return done("REPLACED\r\n"); } return finish_insert("ELEMENT_EXISTS\r\n", false, cr); }
            if (it->mp.size() >= max_count(*it)) return finish_insert("OVERFLOWED\r\n", false, cr);
            it->mp[f] = d; return finish_insert("STORED\r\n", true, cr);
        }
        if (s == "get" || s == "delete") {
            uint32_t ln, nf; if (t.size() < 5 || !parse_u32(t[3], ln) || !parse_u32(t[4], nf)) return done(BADFMT); bool del = s == "delete", drop = false; vector<string> fs;
            if (t.size() == 6) { if (t[5] == "drop") del = drop = true; else if (t[5] == "delete" && s == "get") del = true; else return done(BADFMT); } else if (t.size() > 6) return done(BADFMT);
            if ((ln == 0) != (nf == 0)) return done(BADFMT);
            if (ln > 0) { string d; if (nf > ln / 2 + 1) return done(BADVAL); if (!data_of(ln, d)) return done(BADCHUNK); fs = split(d); if (fs.size() != nf) return done(BADCHUNK); }
            Item *it = find(key); if (!it) return done(NF); if (it->type != MAP) return done(TM); if (s == "get" && !it->readable) return done(UNR);
            if (it->mp.empty()) return done(NFE);
            vector<string> out; bool all = fs.empty();
            if (all) for (auto &p : it->mp) out.push_back(p.first);
            else { std::set<string> dup; for (auto &f : fs) if (it->mp.count(f) && (!del || dup.insert(f).second)) out.push_back(f); }
            if (out.empty()) return done(NFE);
            string h = "VALUE " + std::to_string(it->flags) + " " + std::to_string(out.size()) + "\r\n";
            if (s == "get" && all && actual) { // any order
                if (actual->compare(0, h.size(), h) != 0) return done(h + "..."); size_t p = h.size(); std::set<string> seen; size_t want = out.size(); out.clear();
                for (size_t i = 0; i < want; i++) {
                    size_t s1 = actual->find(' ', p), s2 = s1 == string::npos ? s1 : actual->find(' ', s1 + 1); if (s2 == string::npos) { err = "malformed mop get reply \"" + mc::esc(*actual) + "\""; return ""; }
                    string f = actual->substr(p, s1 - p); if (!it->mp.count(f) || !seen.insert(f).second) { err = "mop get returned field " + mc::esc(f) + " wrongly: \"" + mc::esc(*actual) + "\""; return ""; }
                    out.push_back(f); p = s2 + 1 + it->mp[f].size() + 2; if (p > actual->size()) { err = "truncated mop get reply \"" + mc::esc(*actual) + "\""; return ""; }
                }
            }
            string r = h; for (auto &f : out) r += f + " " + std::to_string(it->mp[f].size()) + " " + it->mp[f] + "\r\n";
            string tail = "END\r\n"; if (del) { size_t k = 0; for (auto &f : out) k += it->mp.erase(f); tail = del_reply(it, k, drop); }
            return done(s == "get" ? r + tail : tail);
        }
        return done(BADFMT);
    }
    // ------------------------------------------------ b+tree
    if (s == "mget" || s == "smget") {
        uint32_t ln, nk, a = 0, b = 0, off = 0, cnt; Range r; Filter f; string d; if (t.size() < 6) return done(BADFMT);
        if (!parse_u32(t[2], ln) || !parse_u32(t[3], nk) || !parse_range(t[4], r)) return done(BADFMT);
        size_t i = 5; int k = parse_filter(t, i, f); if (k < 0) return done(BADFMT); i += k; int uniq = -1;
        if (s == "smget" && t.back() == "duplicate") { uniq = 0; t.pop_back(); } else if (s == "smget" && t.back() == "unique") { uniq = 1; t.pop_back(); }
        if (t.size() - i == 2) { if (!parse_u32(t[i], a) || !parse_u32(t[i + 1], b)) return done(BADFMT); off = a; cnt = b; }
        else if (t.size() - i == 1) { if (!parse_u32(t[i], cnt)) return done(BADFMT); } else return done(BADFMT);
        if (cnt == 0 || ln == 0 || nk == 0) return done(BADFMT);
        if (s == "mget" ? (cnt > 50 || nk > 200) : ((uint64_t)off + cnt > 2000 || nk > 10000)) return done(BADVAL);
        if (s == "smget" && uniq >= 0 && off > 0) return done(BADFMT);
        if (!data_of(ln, d)) return done(BADCHUNK);
        vector<string> keys = split(d); if (keys.size() != nk) return done(BADCHUNK);
        if (s == "mget") {
            string out;
            for (auto &k2 : keys) {
                Item *it = find(k2); string st; 
                if (!it) st = "NOT_FOUND"; else if (it->type != BTREE) st = "TYPE_MISMATCH"; else if (!it->readable) st = "UNREADABLE";
                else if (it->bt.empty() || off >= it->bt.size()) st = "NOT_FOUND_ELEMENT"; else if ((it->bktype == 1) == r.from.bin) st = "BKEY_MISMATCH";
                else { QRes q = query(*it, r, f, off, cnt);
                    if (q.el.empty()) st = q.trim ? "OUT_OF_RANGE" : "NOT_FOUND_ELEMENT";
                    else { out += "VALUE " + k2 + (q.trim ? " TRIMMED " : " OK ") + std::to_string(it->flags) + " " + std::to_string(q.el.size()) + "\r\n"; for (auto &e : q.el) out += "ELEMENT " + elem_line(e); continue; } }
                out += "VALUE " + k2 + " " + st + "\r\n";
            }
            return done(out + "END\r\n");
        }
        // smget
        struct Src { size_t ki; Item *it; Scan s; size_t pos = 0; };
        vector<Src> src; vector<std::pair<size_t, string>> miss; vector<std::pair<BKey, size_t>> trims; int rt = r.type(); bool asc = rt != 2;
        struct Cand { BE e; size_t ki; };
        for (size_t ki = 0; ki < keys.size(); ki++) {
            Item *it = find(keys[ki]); if (!it) { miss.push_back({ki, "NOT_FOUND"}); continue; }
            if (it->type != BTREE) return done(TM);
            if (!it->readable) { miss.push_back({ki, "UNREADABLE"}); continue; }
            if (it->bt.empty()) continue;
            if ((it->bktype == 1) == r.from.bin) return done(BKM);
            Src x; x.ki = ki; x.it = it;
            walk(*it, r, x.s, [&](const BE &e) { if (pass(f, e.second)) x.s.all.push_back(e); return true; });
            if (x.s.start_trim) { if (uniq < 0) return done(OOR); miss.push_back({ki, "OUT_OF_RANGE"}); continue; }
            if (x.s.none) continue;
            if (uniq < 0 && x.s.all.empty() && x.s.end_trim) return done(OOR);
            src.push_back(x);
        }
        auto less = [&](const Cand &x, const Cand &y) { int cmp = x.e.first.cmp(y.e.first); if (cmp == 0) { const string &p = keys[x.ki], &q = keys[y.ki]; cmp = p.size() != q.size() && false ? 0 : bcmp_(p, q); } return asc ? cmp < 0 : cmp > 0; };
        vector<Cand> merged; for (auto &x : src) for (auto &e : x.s.all) merged.push_back({e, x.ki});
        std::stable_sort(merged.begin(), merged.end(), less);
        if (uniq < 0) {
            // a key whose elements are used up in a trimmed region stops the merge after its last element (and equal bkeys)
            vector<Cand> out; bool dupf = false, trimf = false, have = false; BKey prev; uint32_t skip = 0; std::map<size_t, size_t> used; bool full = false;
            for (auto &cd : merged) {
                bool dup = have && prev == cd.e.first; prev = cd.e.first; have = true;
                if (trimf && !dup) break;
                if (skip < off) skip++; else { if (!out.empty() && dup) dupf = true; out.push_back(cd); if (out.size() >= cnt) { full = true; break; } }
                for (auto &x : src) if (x.ki == cd.ki && ++used[cd.ki] == x.s.all.size() && x.s.end_trim) trimf = true;
            }
            bool tr = trimf && !full;
            string o = "VALUE " + std::to_string(out.size()) + "\r\n"; for (auto &cd : out) o += keys[cd.ki] + " " + std::to_string(find(keys[cd.ki])->flags) + " " + elem_line(cd.e);
            o += "MISSED_KEYS " + std::to_string(miss.size()) + "\r\n"; for (auto &m : miss) o += keys[m.first] + "\r\n";
            return done(o + (tr ? (dupf ? "DUPLICATED_TRIMMED\r\n" : "TRIMMED\r\n") : dupf ? "DUPLICATED\r\n" : "END\r\n"));
        }
        vector<Cand> out; bool dupf = false, have = false; BKey prev;
        for (auto &cd : merged) { bool dup = have && prev == cd.e.first; prev = cd.e.first; have = true; if (dup && uniq) continue; if (out.size() >= cnt) break; if (dup && !out.empty()) dupf = true; out.push_back(cd); }
        for (auto &x : src) if (x.s.end_trim) trims.push_back({x.s.last.first, x.ki});
        bool full = out.size() == cnt; vector<std::pair<BKey, size_t>> tv;
        for (auto &p : trims) { if (full) { int cmp = p.first.cmp(out.back().e.first); if (asc ? cmp >= 0 : cmp <= 0) continue; } tv.push_back(p); }
        std::stable_sort(tv.begin(), tv.end(), [&](const std::pair<BKey, size_t> &x, const std::pair<BKey, size_t> &y) { int cmp = x.first.cmp(y.first); return asc ? cmp < 0 : cmp > 0; });
        string o = "ELEMENTS " + std::to_string(out.size()) + "\r\n"; for (auto &cd : out) o += keys[cd.ki] + " " + std::to_string(find(keys[cd.ki])->flags) + " " + elem_line(cd.e);
        o += "MISSED_KEYS " + std::to_string(miss.size()) + "\r\n"; for (auto &m : miss) o += keys[m.first] + " " + m.second + "\r\n";
        o += "TRIMMED_KEYS " + std::to_string(tv.size()) + "\r\n"; string head = o; for (auto &p : tv) o += keys[p.second] + " " + p.first.str() + "\r\n";
        string tail = dupf ? "DUPLICATED\r\n" : "END\r\n";
        if (actual && tv.size() > 1) { // the order among equal bkeys is not specified
            if (actual->compare(0, head.size(), head) != 0 || actual->size() != (o + tail).size() || actual->compare(actual->size() - tail.size(), tail.size(), tail) != 0) return done(o + tail);
            string body = actual->substr(head.size(), actual->size() - head.size() - tail.size()); vector<string> got, want; 
            auto lines = [](const string &x) { vector<string> v; size_t p = 0; while (p < x.size()) { size_t e = x.find("\r\n", p); if (e == string::npos) break; v.push_back(x.substr(p, e - p)); p = e + 2; } return v; };
            got = lines(body); want = lines(o.substr(head.size()));
            auto tailkey = [](const string &l) { return l.substr(l.rfind(' ') + 1); };
            bool ok = got.size() == want.size(); for (size_t q = 0; ok && q < got.size(); q++) if (tailkey(got[q]) != tailkey(want[q])) ok = false;
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) ok = false;
            if (!ok) return done(o + tail); return *actual;
        }
        return done(o + tail);
    }
    if (t.size() < 4) return done(BADFMT);
    auto bk_mismatch = [&](Item *it, const BKey &k, bool with_range) { if (it->bt.empty() && !(with_range && it->has_range)) return false; return (it->bktype == 1 && k.bin) || (it->bktype == 2 && !k.bin); };
    // inserts elem into the tree (overflow rules); returns reply or "" on success; trimmed element in tr
    auto link = [&](Item *it, const BKey &k, const BElem &e, bool &trd, BE &tr) -> string {
        trd = false; size_t mx = max_count(*it); int kind = 0;
        if (!it->bt.empty()) {
            const BKey lo = it->bt.begin()->first, hi = it->bt.rbegin()->first; bool small = it->ovf == O_SMALL || it->ovf == O_SSMALL, large = it->ovf == O_LARGE || it->ovf == O_SLARGE;
            if (it->has_range) {
                if (k < lo) { if (span_cmp(hi, k, it->range) > 0) { if (large) kind = 1; else return OOR; } }
                else if (hi < k) { if (span_cmp(k, lo, it->range) > 0) { if (small) kind = 1; else return OOR; } }
            }
            if (it->bt.size() >= mx && !kind) {
                if (it->ovf == O_ERROR) return "OVERFLOWED\r\n";
                if (small) { if (k < lo) { if (it->ovf == O_SMALL) it->trimmed = true; return OOR; } }
                else if (hi < k) { if (it->ovf == O_LARGE) it->trimmed = true; return OOR; }
                kind = 2;
            }
        } else it->bktype = k.bin ? 2 : 1;
        it->bt[k] = e;
        if (kind == 1) {
            bool small = it->ovf == O_SMALL || it->ovf == O_SSMALL;
            for (auto i = it->bt.begin(); i != it->bt.end();) { bool out = small ? span_cmp(k, i->first, it->range) > 0 && i->first < k : span_cmp(i->first, k, it->range) > 0 && k < i->first; if (out) i = it->bt.erase(i); else ++i; }
            if (it->ovf == O_SMALL || it->ovf == O_LARGE) it->trimmed = false;
        } else if (kind == 2) {
            auto q = it->ovf == O_SMALL || it->ovf == O_SSMALL ? it->bt.begin() : std::prev(it->bt.end()); tr = *q; trd = true; it->bt.erase(q);
            if (it->ovf == O_SMALL || it->ovf == O_LARGE) it->trimmed = true;
        }
        return ""; };
    if (s == "insert" || s == "upsert") {
        BKey k; BElem e; size_t i = 4; int32_t n; string rep;
        if (!parse_bkey(t[3], k)) return done(BADFMT);
        if (i < t.size() && t[i].compare(0, 2, "0x") == 0) { if (!parse_hexflag(t[i], e.eflag)) return done(BADFMT); i++; }
        if (i >= t.size() || !parse_i32(t[i], n) || n < 0) return done(BADFMT);
        if (!parse_tail(i + 1, rep)) return done(rep);
        if ((uint32_t)n + 2 > lim.max_elem) return done(TLV);
        if (!data_of(n, e.val)) return done(BADCHUNK);
        Item *it = find(key); bool cr = false;
        if (!it) { if (!create) return done(NF); it = &put(key, Item(cattr)); cr = true; }
        if (it->type != BTREE) return done(TM);
        if (bk_mismatch(it, k, true)) return finish_insert(BKM, false, cr);
        auto q = it->bt.find(k);
        if (q != it->bt.end()) { if (s == "upsert") { q->second = e; return done("REPLACED\r\n"); } return finish_insert("ELEMENT_EXISTS\r\n", false, cr); }
        bool trd; BE tr; uint32_t fl = it->flags; string r = link(it, k, e, trd, tr); if (!r.empty()) return finish_insert(r, false, cr);
        if (getrim && trd) return done("VALUE " + std::to_string(fl) + " 1\r\n" + elem_line(tr) + "TRIMMED\r\n");
        return finish_insert("STORED\r\n", true, cr);
    }
    if (s == "update") {
        BKey k; size_t i = 4; bool upd_flag = false; int bop = -1; uint32_t off = 0; string fl, d; int32_t n; bool has_val;
        if (!parse_bkey(t[3], k)) return done(BADFMT);
        if (t.size() - i >= 3) { if (!parse_u32(t[i], off) || off >= 31 || (bop = bitop(t[i + 1])) < 0) return done(BADFMT); i += 2; if (!parse_hexflag(t[i], fl) && !(parse_i32(t[i], n) && n == 0)) return done(BADFMT); i++; upd_flag = true; }
        else if (t.size() - i >= 2) { if (parse_i32(t[i], n) && n == 0) upd_flag = true; else if (parse_hexflag(t[i], fl)) upd_flag = true; else return done(BADFMT); i++; }
        else if (t.size() - i == 1 && t[i].compare(0, 2, "0x") == 0) { return done(BADFMT); }
        if (i + 1 != t.size() || !parse_i32(t[i], n) || n < -1) return done(BADFMT);
        has_val = n >= 0; if (!upd_flag && !has_val) return done("NOTHING_TO_UPDATE\r\n");
        if (has_val && (uint32_t)n + 2 > lim.max_elem) return done(TLV);
        if (has_val && !data_of(n, d)) return done(BADCHUNK);
        Item *it = find(key); if (!it) return done(NF); if (it->type != BTREE) return done(TM); if (it->bt.empty()) return done(NFE); if (bk_mismatch(it, k, false)) return done(BKM);
        auto q = it->bt.find(k); if (q == it->bt.end()) return done(NFE);
        if (upd_flag && bop >= 0) { string &ef = q->second.eflag; if (!fl.empty() && (off >= ef.size() || fl.size() > ef.size() - off)) return done("EFLAG_MISMATCH\r\n"); if (!fl.empty()) ef.replace(off, fl.size(), bitdo(bop, ef.substr(off, fl.size()), fl)); }
        else if (upd_flag) q->second.eflag = fl;
        if (has_val) q->second.val = d; return done("UPDATED\r\n");
    }
    if (s == "incr" || s == "decr") {
        BKey k; uint64_t delta, init = 0; bool cre = false; string ef; if (t.size() < 5 || t.size() > 7 || !parse_bkey(t[3], k) || !parse_u64(t[4], delta) || delta < 1) return done(BADFMT);
        if (t.size() >= 6) { if (!parse_u64(t[5], init)) return done(BADFMT); cre = true; } if (t.size() == 7 && !parse_hexflag(t[6], ef)) return done(BADFMT);
        Item *it = find(key); if (!it) return done(NF); if (it->type != BTREE) return done(TM); if (bk_mismatch(it, k, true)) return done(BKM);
        auto q = it->bt.find(k);
        if (q == it->bt.end()) { if (!cre) return done(NFE); bool trd; BE tr; string r = link(it, k, BElem{ef, std::to_string(init)}, trd, tr); return done(r.empty() ? std::to_string(init) + "\r\n" : r); }
        uint64_t v; int nk = numeric(q->second.val, v); if (!nk || (nk == 2 && refused(actual))) return done("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n");
        v = s == "incr" ? v + delta : delta >= v ? 0 : v - delta; q->second.val = std::to_string(v); return done(std::to_string(v) + "\r\n");
    }
    if (s == "get" || s == "delete" || s == "count") {
        Range r; Filter f; if (!parse_range(t[3], r)) return done(BADFMT); size_t i = 4; int k = parse_filter(t, i, f); if (k < 0) return done(BADFMT); i += k;
        uint32_t off = 0, cnt = 0; bool del = s == "delete", drop = false;
        if (s != "count") {
            if (t.size() > i && (t.back() == "drop" || (t.back() == "delete" && s == "get"))) { del = true; drop = t.back() == "drop"; t.pop_back(); }
            if (s == "get" && t.size() - i == 2) { if (!parse_u32(t[i], off) || !parse_u32(t[i + 1], cnt)) return done(BADFMT); }
            else if (t.size() - i == 1) { if (!parse_u32(t[i], cnt)) return done(BADFMT); } else if (t.size() != i) return done(BADFMT);
        } else if (t.size() != i) return done(BADFMT);
        Item *it = find(key); if (!it) return done(NF); if (it->type != BTREE) return done(TM);
        if (s != "delete" && !it->readable) return done(UNR);
        if (s == "count") { if (it->bktype && ((it->bktype == 1) == r.from.bin) ) return done(BKM); QRes q = query(*it, r, f, 0, 0); return done("COUNT=" + std::to_string(q.el.size()) + "\r\n"); }
        if (it->bt.empty() || (s == "get" && off >= it->bt.size())) return done(NFE);
        if ((it->bktype == 1) == r.from.bin) return done(BKM);
        QRes q = query(*it, r, f, off, cnt);
        if (q.el.empty()) return done(s == "get" && q.trim ? OOR : NFE);
        string o = "VALUE " + std::to_string(it->flags) + " " + std::to_string(q.el.size()) + "\r\n"; for (auto &e : q.el) o += elem_line(e);
        string tail = q.trim ? "TRIMMED\r\n" : "END\r\n"; if (del) { for (auto &e : q.el) it->bt.erase(e.first); tail = del_reply(it, q.el.size(), drop); }
        return done(s == "get" ? o + tail : tail);
    }
    if (s == "position" || s == "pwg") {
        BKey k; uint32_t cnt = 0; if (t.size() < 5 || !parse_bkey(t[3], k) || (t[4] != "asc" && t[4] != "desc")) return done(BADFMT); bool asc = t[4] == "asc";
        if (s == "pwg" && t.size() == 6) { if (!parse_u32(t[5], cnt) || cnt > 100) return done(BADFMT); } else if (t.size() != 5) return done(BADFMT);
        Item *it = find(key); if (!it) return done(NF); if (it->type != BTREE) return done(TM); if (!it->readable) return done(UNR); if (it->bt.empty()) return done(NFE); if (bk_mismatch(it, k, false)) return done(BKM);
        if (!it->bt.count(k)) return done(NFE);
        vector<BE> v(it->bt.begin(), it->bt.end()); if (!asc) std::reverse(v.begin(), v.end()); long p = 0; while (!(v[p].first == k)) p++;
        if (s == "position") return done("POSITION=" + std::to_string(p) + "\r\n");
        long a = std::max(0l, p - (long)cnt), b = std::min((long)v.size() - 1, p + (long)cnt);
        string o = "VALUE " + std::to_string(p) + " " + std::to_string(it->flags) + " " + std::to_string(b - a + 1) + " " + std::to_string(p - a) + "\r\n"; for (long x = a; x <= b; x++) o += elem_line(v[x]);
        return done(o + "END\r\n");
    }
    if (s == "gbp") {
        if (t.size() != 5 || (t[3] != "asc" && t[3] != "desc")) return done(BADFMT); uint32_t a, b; size_t p = t[4].find("..");
        if (p == string::npos) { if (!parse_u32(t[4], a)) return done(BADFMT); b = a; } else if (!parse_u32(t[4].substr(0, p), a) || !parse_u32(t[4].substr(p + 2), b)) return done(BADFMT);
        Item *it = find(key); if (!it) return done(NF); if (it->type != BTREE) return done(TM); if (!it->readable) return done(UNR); if (it->bt.empty()) return done(NFE);
        long n = it->bt.size(); if (a >= n && b >= n) return done(NFE); long x = std::min<long>(a, n - 1), y = std::min<long>(b, n - 1);
        vector<BE> v(it->bt.begin(), it->bt.end()); if (t[3] == "desc") std::reverse(v.begin(), v.end());
        string o = "VALUE " + std::to_string(it->flags) + " " + std::to_string(std::labs(x - y) + 1) + "\r\n"; if (x <= y) for (long q = x; q <= y; q++) o += elem_line(v[q]); else for (long q = x; q >= y; q--) o += elem_line(v[q]);
        return done(o + "END\r\n");
    }
    return done(BADFMT);
}
}
