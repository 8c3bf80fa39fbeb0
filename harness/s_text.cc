// repo headers
// shim: shim_text.c
// C36: numbers, hexadecimal strings, key lists and command lines
#include <cstring>
#include <functional>
#include "alpha.h"
extern "C" {
#include <memcached/util.h>
int shim_blocks(const char *data, int len, int cnt, int maxk, int blen, int compat, char *out, int *lens); int shim_command(const char *line, int len, int max, int *off, int *lens, int *rest, int *restlen); int shim_join(const char **w, const int *lens, int n, int room, char *out); int shim_keys(const char *str, int len, int cnt, char delim, int *off, int *lens);
}
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
typedef __int128 big;
template <class F> void strings(const string &al, int len, F f) { vector<int> ix(len, 0); string s(len, al[0]); for (;;) { f(s); int i = len - 1; while (i >= 0) { if (++ix[i] < (int)al.size()) { s[i] = al[ix[i]]; break; } ix[i] = 0; s[i--] = al[0]; } if (i < 0) return; } }
struct Num { enum { REFUSE, CANON, OPEN } k = REFUSE; big v = 0; string canon; };
bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// what a number between lo and hi may be written like: canonical text has to be taken, white space around it, a plus sign or leading zeros may be
Num classify(const string &s, big lo, big hi) {
    Num r; size_t i = 0, n = s.size(); bool odd = false; while (i < n && blank(s[i])) { i++; odd = true; } bool neg = false; if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; odd |= !neg; i++; } size_t d = i; big v = 0; while (i < n && isdigit((unsigned char)s[i])) { if (v < ((big)1 << 100)) v = v * 10 + (s[i] - '0'); i++; } if (i == d) return r; if (i - d > 1 && s[d] == '0') odd = true; if (neg && v == 0) odd = true; if (i < n) { if (!blank(s[i])) return r; odd = true; }
    if (neg) v = -v; if (v < lo || v > hi) return r; if (neg && v == 0 && lo == 0) { r.k = Num::OPEN; r.v = 0; } else { r.k = odd ? Num::OPEN : Num::CANON; r.v = v; } string t; big a = v < 0 ? -v : v; do { t.insert(t.begin(), '0' + (int)(a % 10)); a /= 10; } while (a); if (v < 0) t.insert(t.begin(), '-'); r.canon = t; return r;
}
string bstr(big v) { string t; big a = v < 0 ? -v : v; do { t.insert(t.begin(), '0' + (int)(a % 10)); a /= 10; } while (a); if (v < 0) t.insert(t.begin(), '-'); return t; }
const big U32 = 0xffffffffll, I32 = 0x7fffffffll; const big U64 = (big)~0ull, I64 = (big)0x7fffffffffffffffll;
Strs boundaries() { Strs r; std::set<string> seen; auto add = [&](const string &s) { if (seen.insert(s).second) r.push_back(s); }; for (big b : {(big)128, (big)256, (big)32768, (big)65536, I32, U32, (big)9999999999ll, I64, U64, (big)U64 * 10, (big)1 << 96}) for (int d = -1; d <= 2; d++) { string s = bstr(b + d); for (auto &x : {s, "-" + s, "+" + s, "0" + s, "000000000000000000000000000000" + s, s + "x", s + "\t", "\t" + s, s + ".", s + ".0", s + "e1", s + "\tx", "0x" + s}) add(x); } for (auto s : {"99999999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999999", "0", "-0", "+0", "00", "", "-", "+", "1e3", "1_0", "--1", "+-1", "0b1", "0o7"}) add(s); return r; }
}
SUITE("C36", numbers, "asan", BOTH) {
    mc::boot_std(); string al = "019-+.xa\t ,"; int L = ctx.thorough ? 7 : 6; ctx.note_bound(mc::fmt("all strings of up to %d characters over 0 1 9 - + . x a tab space comma and %zu boundary texts through the number readers, each in memory of its own size", L, boundaries().size()));
    auto one = [&](const string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); auto chk = [&](const char *fn, bool ok, big got, big lo, big hi) { Num n = classify(s, lo, hi); if ((n.k == Num::CANON && !ok) || (n.k == Num::REFUSE && ok) || (ok && got != n.v)) { ctx.note("text " + mc::esc(s)); ctx.fail("number", string(fn) + (ok ? " reads " + mc::esc(s) + " as " + bstr(got) : " refuses " + mc::esc(s))); } };
        uint64_t a = 77; bool ok = safe_strtoull(p, &a); chk("strtoull", ok, a, 0, U64); int64_t b = 77; ok = safe_strtoll(p, &b); chk("strtoll", ok, b, -I64 - 1, I64); uint32_t c = 77; ok = safe_strtoul(p, &c); chk("strtoul", ok, c, 0, U32); int32_t d = 77; ok = safe_strtol(p, &d); chk("strtol", ok, d, -I32 - 1, I32); free(p); ctx.trans(4); };
    if (ctx.mine()) ctx.isolated([&] { for (auto &s : boundaries()) one(s); }, 60); for (char c0 : al) for (char c1 : al) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); if (c0 == al[0]) one(string(1, c1)); one(string{c0, c1}); for (int n = 1; n <= L - 2; n++) strings(al, n, [&](const string &t) { one(string{c0, c1} + t); }); ctx.state(c0 * 256 + c1); }, 200); ctx.trace(); }
    // any byte after or before a digit
    if (ctx.mine()) ctx.isolated([&] { for (int x = 1; x < 256; x++) { one(string("1") + (char)x); one((char)x + string("1")); one(string("1") + (char)x + "1"); } }, 20);
    // hexadecimal
    string hx = "09afAFgG/:@`x"; for (int size : {1, 2, 3}) for (char c0 : hx) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); for (int n = 0; n <= (ctx.thorough ? 5 : 4); n++) strings(hx, n, [&](const string &t) { string s = n || c0 != hx[0] ? c0 + t : t; if (!n && c0 == hx[0]) s = ""; char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); unsigned char *o = (unsigned char *)malloc(size); bool ok = safe_strtohexa(p, o, size), want = !s.empty() && s.size() % 2 == 0 && (int)s.size() <= 2 * size; for (char ch : s) if (!isxdigit((unsigned char)ch)) want = false; bool same = ok == want; if (ok && want) for (size_t i = 0; i < s.size(); i += 2) if (o[i / 2] != strtol(s.substr(i, 2).c_str(), nullptr, 16)) same = false; if (!same) { ctx.note("text " + mc::esc(s)); ctx.fail("hex", mc::fmt("hexadecimal text %s with room for %d bytes %s", mc::esc(s).c_str(), size, ok ? "is taken" : "is refused")); } free(p); free(o); ctx.trans(1); }); }, 100); ctx.trace(); }
    if (ctx.mine()) ctx.isolated([&] { for (int x = 0; x < 65536; x++) { unsigned char b[2] = {(unsigned char)(x >> 8), (unsigned char)x}, q[2]; char *s = (char *)malloc(5); safe_hexatostr(b, 2, s); if (mc::fmt("%02X%02X", b[0], b[1]) != s || !safe_strtohexa(s, q, 2) || memcmp(b, q, 2)) ctx.fail("hex", mc::fmt("bytes %04x are written as %s", x, s)); free(s); } for (int n = 0; n <= 31; n++) { string v; for (int i = 0; i < n; i++) v += (char)(i * 37 + n); char *s = (char *)malloc(2 * n + 1); safe_hexatostr((const unsigned char *)v.data(), n, s); unsigned char q[31]; if (strlen(s) != 2u * n || (n && (!safe_strtohexa(s, q, 31) || memcmp(q, v.data(), n)))) ctx.fail("hex", mc::fmt("%d bytes do not survive", n)); free(s); } }, 30);
    // names
    if (ctx.mine()) ctx.isolated([&] { auto okc = [](unsigned char c) { return isalnum(c) || c == '_' || c == '-' || c == '+' || c == '.'; }; for (int a = 1; a < 256; a++) for (int b = 0; b < 256; b++) { string s(1, (char)a); if (b) s += (char)b; bool want = a != '-' && a < 128 && okc(a) && (!b || (b < 128 && okc(b))); if (mc_isvalidname(s.c_str(), s.size()) != want) { ctx.note("name " + mc::esc(s)); ctx.fail("name", "the name " + mc::esc(s) + (want ? " is refused" : " is allowed")); } ctx.trans(1); } }, 20);
    ctx.sample("4294967296 -1 0x1");
}
namespace {
// a key list: exactly cnt keys of 1..maxk characters separated by one blank (or, for old clients, by one comma without any blank)
bool split_keys(const string &s, int cnt, int maxk, char d, Strs &out) { out.clear(); size_t p = 0; for (;;) { size_t q = s.find(d, p); string k = s.substr(p, q == string::npos ? string::npos : q - p); if (k.empty() || (int)k.size() > maxk || k.find(' ') != string::npos) return false; out.push_back(k); if (q == string::npos) break; p = q + 1; } return (int)out.size() == cnt; }
string one_list(const string &s, const string &tail, int cnt, int maxk, int blen, bool compat) {
    static char out[1 << 16]; static int lens[1 << 14]; string data = s + tail; int r = shim_blocks(data.data(), data.size(), cnt, maxk, blen, compat, out, lens); if (r >= 100) return mc::fmt("block bookkeeping is broken (%d)", r); Strs want; bool ok = tail == "\r\n" && (split_keys(s, cnt, maxk, ' ', want) || (compat && split_keys(s, cnt, maxk, ',', want))); if (ok != (r == 0)) return ok ? mc::fmt("refused (%d)", r) : "accepted"; if (ok) { char *o = out; for (int i = 0; i < cnt; i++) { if (string(o, lens[i]) != want[i]) return "key " + S(i + 1) + " is read as " + mc::esc(string(o, lens[i])); o += lens[i]; } } return "";
}
}
SUITE("C36", key_lists, "asan", BOTH) {
    mc::boot_std(); int A = ctx.thorough ? 14 : 12, B = ctx.thorough ? 23 : 20; ctx.note_bound(mc::fmt("key lists held in blocks of 6, 7, 8 bytes: all texts of up to %d characters over letter / blank / comma and of up to %d over letter / blank, with key counts one less to one more than there are; long periodic lists over 128 divided keys; the sizes around the real block of 32760 bytes", A, B));
    auto test = [&](string s, int blen) { int words = 1, commas = 1; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 'a') s[i] = 'a' + i % 26; words += s[i] == ' '; commas += s[i] == ','; } std::set<int> cs; for (int w : {words - 1, words, words + 1, commas}) if (w > 0) cs.insert(w); for (int cnt : cs) for (int compat = 0; compat < 2; compat++) for (int maxk : {blen - 3, 2}) { auto note = [&] { ctx.note(mc::fmt("key list %s, %d keys, blocks of %d, keys of up to %d%s", mc::esc(s, 200).c_str(), cnt, blen, maxk, compat ? ", commas allowed" : "")); }; string e = one_list(s, "\r\n", cnt, maxk, blen, compat); ctx.trans(1); if (!e.empty()) { note(); ctx.fail("keys", "the key list " + mc::esc(s, 80) + mc::fmt(" for %d keys (blocks of %d): ", cnt, blen) + e); } } for (auto t : {"\r\r", "\n\n", "xx", " \n", "\r ", "\n\r"}) { string e = one_list(s, t, words, blen - 3, blen, true); if (!e.empty()) { ctx.note("key list " + mc::esc(s + t)); ctx.fail("keys", "a key list that does not end in a line end: " + e); } } };
    for (int blen : {6, 7, 8}) { for (int n = 1; n <= A; n++) for (int f = 0; f < 9; f++) { if (n == 1 && f > 2) continue; if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); const char al[] = "a ,"; if (n == 1) test(string(1, al[f]), blen); else if (n == 2) test(string{al[f / 3], al[f % 3]}, blen); else strings("a ,", n - 2, [&](const string &t) { test(string{al[f / 3], al[f % 3]} + t, blen); }); ctx.state(blen * 1000 + n * 9 + f); }, 300); ctx.trace(); }
        for (int n = A + 1; n <= B; n++) for (int f = 0; f < 16; f++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); string h; for (int i = 0; i < 4; i++) h += f >> i & 1 ? ' ' : 'a'; if (h.find("  ") != string::npos || h[0] == ' ') return; strings("a ", n - 4, [&](const string &t) { size_t p = t.find("  "); if ((p != string::npos && p + 3 < t.size()) || t.find("aaaaaaa") != string::npos) return; test(h + t, blen); }); ctx.state(blen * 1000 + n * 16 + f); }, 300); ctx.trace(); }
        for (int per = 1; per <= 6; per++) { if (!ctx.mine()) continue; ctx.isolated([&] { strings("a ", per, [&](const string &p) { for (int total : {127 * blen, 129 * blen, 260 * blen, 400 * blen}) for (int d = -2; d <= 2; d++) { string s; while ((int)s.size() < total + d) s += p; s.resize(total + d); test(s, blen); } }); }, 300); ctx.trace(); } }
    // command lines
    for (int max = 2; max <= 6; max++) for (int n = 0; n <= (ctx.thorough ? 11 : 10); n++) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); strings("ab ", n, [&](const string &s) { int off[8], lens[8], rest, rl; int r = shim_command(s.data(), s.size(), max, off, lens, &rest, &rl); vector<std::pair<int, int>> w; size_t i = 0; while (i < s.size() && (int)w.size() < max - 1) { if (s[i] == ' ') { i++; continue; } size_t j = s.find(' ', i); if (j == string::npos) j = s.size(); w.push_back({(int)i, (int)(j - i)}); i = j; } bool ok = r == (int)w.size(); for (int k = 0; ok && k < r; k++) ok = off[k] == w[k].first && lens[k] == w[k].second; if (ok && (int)w.size() == max - 1) { size_t after = i; string tail = after < s.size() ? s.substr(after) : ""; bool more = tail.find_first_not_of(' ') != string::npos; if (more && rest < 0) ok = false; if (rest >= 0 && (rest + rl != (int)s.size() || rest < (int)after || rest > (int)after + 1)) ok = false; } else if (ok && rest >= 0) ok = false; if (!ok) { ctx.note("line " + mc::esc(s)); ctx.fail("words", mc::fmt("the line %s with room for %d words is split wrongly (%d words)", mc::esc(s).c_str(), max - 1, r)); }
        if (r > 0) { const char *ws[8]; int total = 0; string want; for (int k = 0; k < r; k++) { ws[k] = s.data() + off[k]; want += (k ? " " : "") + s.substr(off[k], lens[k]); } total = want.size() + 1; char buf[64]; int q = shim_join(ws, lens, r, total, buf); if (q != total || want != buf) ctx.fail("words", "joining " + mc::esc(want)); if (shim_join(ws, lens, r, total - 1, buf) >= 0) ctx.fail("words", "joining into too little room " + mc::esc(want)); } ctx.trans(1); }); ctx.state(max * 100 + n); }, 200); ctx.trace(); }
    for (int n = 1; n <= 9; n++) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); strings("a ,", n, [&](const string &s) { for (char d : {',', ' '}) for (int cnt = 1; cnt <= 5; cnt++) { int off[8], lens[8]; int r = shim_keys(s.data(), s.size(), cnt, d, off, lens); Strs want; bool ok = split_keys(s, cnt, 1000, d, want); if (ok != (r == cnt) || (!ok && r != -1)) { ctx.note(mc::esc(s)); ctx.fail("keys", mc::fmt("%d keys of %s: result %d", cnt, mc::esc(s).c_str(), r)); } if (ok && r == cnt) for (int k = 0; k < cnt; k++) if (s.substr(off[k], lens[k]) != want[k]) ctx.fail("keys", "keys of " + mc::esc(s)); ctx.trans(1); } }); }, 100); ctx.trace(); }
    // the real block size
    for (int d = -3; d <= 4; d++) for (int how = 0; how < 4; how++) { if (!ctx.mine()) continue; ctx.isolated([&] { int c = sim::connect(); sim::run(); sim::rpc(c, "set kk 0 0 1\r\nv\r\n"); int len = 32760 + d; string s; int n = 0; while ((int)s.size() + 20 < len) { s += "kk_not_hit "; n++; } string last(len - s.size(), 'z'); n++; if (how == 1) { last.back() = ' '; } if (how == 2) { last[last.size() - 2] = ' '; n++; } if (how == 3) { last[0] = 'k'; last[1] = 'k'; last[2] = ' '; n++; } s += last; for (int dn = -1; dn <= 1; dn++) { string r = sim::rpc(c, mc::fmt("mget %d %d\r\n", len, n + dn) + s + "\r\n"); bool ok = dn == 0 && how != 1; string hit = how == 3 ? "VALUE kk 0 1\r\nv\r\n" : ""; ctx.trans(1); if (ok ? r != hit + "END\r\n" : r.compare(0, 12, "CLIENT_ERROR")) { ctx.note(mc::fmt("mget of %d bytes, %d keys, ending in %s", len, n + dn, mc::esc(last).c_str())); ctx.fail("keys", mc::fmt("mget of %d bytes and %d keys is answered ", len, n + dn) + mc::esc(r, 60)); } if (sim::rpc(c, "get kk\r\n") != "VALUE kk 0 1\r\nv\r\nEND\r\n") ctx.fail("keys", "the connection is out of step"); } }, 20); ctx.trace(); }
    ctx.sample("mget 32761 2978: a list that ends in a blank at the first byte of the second block");
}
// ---------------------------------------------------------------- arguments of commands
#include <sys/mman.h>
namespace {
enum Kind { NUM, LEN, BKEY, EFLAG, RANGE, IRANGE, PRANGE, LIST, ONEOF };
struct Slot { string tmpl; Kind k; big lo, hi; string data; Strs words; };
vector<Slot> slots() {
    vector<Slot> v; auto num = [&](const string &t, big lo, big hi, const string &d = "") { v.push_back({t, NUM, lo, hi, d, {}}); }; auto oth = [&](const string &t, Kind k, const string &d = "", Strs w = {}) { v.push_back({t, k, 0, 0, d, w}); }; big i64lo = -I64 - 1, i32lo = -I32 - 1;
    for (auto c : {"set k % 0 1", "set q % 0 1", "add q % 0 1", "append k % 0 1"}) num(c, 0, U32, "v\r\n"); for (auto c : {"set q 7 % 1", "replace k 7 % 1"}) num(c, i64lo, I64, "v\r\n"); num("cas nope 0 0 1 %", 0, U64, "v\r\n");
    for (auto c : {"incr n %", "decr n %", "incr q 3 7 0 %"}) num(c, 0, U64); num("incr q 3 % 0 5", 0, U32); num("decr q 3 7 % 5", i64lo, I64); num("touch k %", i64lo, I64); num("flush_all %", 0, I64); num("flush_prefix p %", 0, I64);
    for (auto t : {"lop", "sop", "mop", "bop"}) { string c = string(t) + " create q "; num(c + "% 0 10", 0, U32); num(c + "7 % 10", i64lo, I64); num(c + "7 0 %", i32lo, I32); }
    for (auto k : {"l", "s", "m", "b"}) { num(string("setattr ") + k + " expiretime=%", i64lo, I64); num(string("setattr ") + k + " maxcount=%", i32lo, I32); } num("setattr k expiretime=%", i64lo, I64); oth("setattr b maxbkeyrange=%", BKEY); oth("setattr h maxbkeyrange=%", BKEY); oth("setattr l overflowaction=%", ONEOF, "", {"error", "head_trim", "tail_trim"}); oth("setattr b overflowaction=%", ONEOF, "", {"error", "smallest_trim", "largest_trim", "smallest_silent_trim", "largest_silent_trim"}); oth("setattr s overflowaction=%", ONEOF, "", {"error"}); oth("setattr s readable=%", ONEOF, "", {"on"});
    num("mget 3 %", 2, 2, "k n\r\n"); num("mget % 2", 3, 3, "k n\r\n"); num("mgets 3 %", 2, 2, "z n\r\n");
    num("lop insert l % 1", i32lo, I32, "z\r\n"); oth("lop delete l %", IRANGE); oth("lop get l %", IRANGE); oth("lop get l % delete", IRANGE); num("sop get s %", 0, 1000); num("sop get s % delete", 0, 1000); num("mop get m % 1", 1, 1, "f\r\n"); num("mop get m 1 %", 1, 1, "f\r\n"); num("mop delete m % 2", 3, 3, "f g\r\n"); num("mop delete m 3 %", 2, 2, "f g\r\n");
    for (auto c : {"set q 0 0 %", "set k 0 0 %", "append k 0 0 %", "lop insert l 0 %", "sop insert s %", "sop delete s %", "sop exist s %", "mop insert m x %", "mop upsert m f %", "mop update m f %", "bop insert b 7 %", "bop upsert b 5 0x05 %", "bop update b 5 0x02 %"}) v.push_back({c, LEN, 0, I32 - 2, "", {}});
    for (auto c : {"bop insert b % 1", "bop upsert b % 0x07 1", "bop insert h % 1", "bop insert q % 1 create 0 0 5"}) oth(c, BKEY, "z\r\n"); for (auto c : {"bop position b % asc", "bop pwg b % asc 2", "bop incr n2 % 1", "bop decr n2 % 1 5"}) oth(c, BKEY); oth("bop update b % 1", BKEY, "z\r\n"); for (auto c : {"bop insert b 7 % 1", "bop update b 5 % 1"}) oth(c, EFLAG, "z\r\n"); oth("bop incr n2 9 1 5 %", EFLAG); oth("bop update b 5 0 & % 1", EFLAG, "z\r\n"); num("bop update b 5 % & 0x01 1", 0, 30, "z\r\n"); oth("bop update b 5 0 % 0x01 1", ONEOF, "z\r\n", {"&", "|", "^"});
    for (auto c : {"bop get b %", "bop get h %", "bop count b %", "bop count h %", "bop delete b %", "bop delete h %"}) oth(c, RANGE); oth("bop mget 1 1 % 5", RANGE, "b\r\n"); oth("bop smget 1 1 % 5 unique", RANGE, "b\r\n"); oth("bop smget 1 1 % 5 duplicate", RANGE, "h\r\n");
    num("bop get b 0..100 %", 0, U32); num("bop get b 0..100 % 2", 0, U32); num("bop get b 0..100 1 %", 0, U32); num("bop delete b 0..100 %", 0, U32); num("bop incr n2 1 %", 1, U64); num("bop decr n2 1 %", 1, U64); num("bop incr n2 9 1 %", 0, U64); num("bop pwg b 5 asc %", 0, 100); oth("bop gbp b asc %", PRANGE); oth("bop gbp b desc %", PRANGE);
    num("bop mget 1 1 0..100 %", 1, 50, "b\r\n"); num("bop mget 1 1 0..100 % 5", 0, U32, "b\r\n"); num("bop mget % 1 0..100 5", 1, 1, "b\r\n"); num("bop mget 1 % 0..100 5", 1, 1, "b\r\n"); num("bop smget 1 1 0..100 % unique", 1, 2000, "b\r\n"); num("bop smget % 2 0..100 5 unique", 4, 4, "b n2\r\n"); num("bop smget 4 % 0..100 5 unique", 2, 2, "b n2\r\n");
    num("bop get b 0..100 % EQ 0x01", 0, 30); num("bop count b 0..100 % NE 0x01", 0, 30); oth("bop get b 0..100 0 % 0x01", ONEOF, "", {"EQ", "NE", "LT", "LE", "GT", "GE"}); oth("bop delete b 0..100 0 & 0x01 % 0x01", ONEOF, "", {"EQ", "NE", "LT", "LE", "GT", "GE"}); oth("bop get b 0..100 0 % 0xff EQ 0x01", ONEOF, "", {"&", "|", "^"}); oth("bop get b 0..100 0 EQ %", LIST); oth("bop count b 0..100 0 NE %", LIST); for (auto c : {"bop get b 0..100 0 LT %", "bop get b 0..100 1 LT %", "bop count b 0..100 16 GE %", "bop delete b 0..100 30 GT %"}) oth(c, EFLAG); oth("bop get b 0..100 1 EQ %", LIST); oth("bop get b 0..100 0 & 0x0f EQ %", LIST); oth("bop count b 0..100 0 ^ % EQ 0x01", EFLAG);
    num("scan key 0 count %", 1, 2000); num("scan prefix 0 count %", 1, 2000); num("lqdetect start %", 0, U32);
    return v;
}
Strs init_cmds() { return {kset("set", "k", "vv", 5), kset("set", "n", "10"), "lop create l 3 0 10\r\n", "lop insert l -1 1\r\na\r\n", "lop insert l -1 1\r\nb\r\n", "lop insert l -1 1\r\nc\r\n", "sop create s 3 0 10\r\n", "sop insert s 1\r\na\r\n", "mop create m 3 0 10\r\n", "mop insert m f 1\r\na\r\n", "mop insert m g 1\r\nb\r\n", "bop create b 3 0 10\r\n", bopi("b", "5", "five", "0x01"), bopi("b", "9", "nine", "0x0102"), bopi("b", "30", "xxx"), bopi("b", "18446744073709551615", "top", "0x80"), "bop create n2 3 0 10\r\n", bopi("n2", "1", "10"), bopi("n2", "2", "0"), "bop create h 3 0 10\r\n", bopi("h", "0x01", "one", "0x01"), bopi("h", "0x0102", "two"), bopi("h", "0xAF", "af"), kset("set", "p:k", "v")}; }
Strs dump_cmds() { Strs r = {"get k\r\n", "get n\r\n", "get q\r\n", "get p:k\r\n", "lop get l 0..-1\r\n", "sop get s 0\r\n", "mop get m 0 0\r\n", "bop get b 0..18446744073709551615\r\n", "bop get n2 0..100\r\n", "bop get h 0x00..0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF\r\n", "lop get q 0..-1\r\n", "bop get q 0..100\r\n"}; for (auto k : {"k", "n", "q", "l", "s", "m", "b", "n2", "h"}) r.push_back(string("getattr ") + k + "\r\n"); return r; }
string hexn(int n, bool low = false) { string s = "0x"; for (int i = 0; i < n; i++) s += mc::fmt(low ? "%02x" : "%02X", (i * 53 + 0xa1) & 255); return s; }
struct Cls { enum { REFUSE, CANON, OPEN, SKIP } k; string canon; };
Cls num_cls(const string &s, big lo, big hi) { Num n = classify(s, lo, hi); return {n.k == Num::REFUSE ? Cls::REFUSE : n.k == Num::CANON ? Cls::CANON : Cls::OPEN, n.canon}; }
bool hex_ok(const string &s) { if (s.size() < 4 || s.size() % 2 || s.size() > 64 || s.compare(0, 2, "0x")) return false; for (size_t i = 2; i < s.size(); i++) if (!isxdigit((unsigned char)s[i])) return false; return true; }
Cls bkey_cls(const string &s) { if (hex_ok(s)) return {Cls::CANON, s}; return num_cls(s, 0, U64); }
Cls join_cls(const string &s, bool pair, std::function<Cls(const string &)> f) { size_t p = s.find(".."); if (p == string::npos) return f(s); string a = s.substr(0, p), b = s.substr(p + 2); Cls x = f(a), y = f(b); if (x.k == Cls::REFUSE || y.k == Cls::REFUSE || (pair && hex_ok(a) != hex_ok(b))) return {Cls::REFUSE, ""}; return {x.k == Cls::OPEN || y.k == Cls::OPEN ? Cls::OPEN : Cls::CANON, x.canon + ".." + y.canon}; }
Cls slot_cls(const Slot &sl, const string &s) {
    switch (sl.k) { case NUM: if (sl.lo == sl.hi && num_cls(s, sl.lo, sl.hi).k == Cls::REFUSE && num_cls(s, 1, U32).k != Cls::REFUSE) return {Cls::SKIP, ""}; // a count or length that only the data shows to be wrong
        return num_cls(s, sl.lo, sl.hi); case LEN: if (sl.tmpl.compare(0, 12, "bop update b") == 0 && num_cls(s, -1, -1).k != Cls::REFUSE) return {Cls::SKIP, ""}; return num_cls(s, sl.lo, sl.hi); case BKEY: return bkey_cls(s); case RANGE: return join_cls(s, true, bkey_cls); case IRANGE: return join_cls(s, false, [](const string &t) { return num_cls(t, -I32 - 1, I32); }); case PRANGE: return join_cls(s, false, [](const string &t) { return num_cls(t, 0, U32); }); case ONEOF: for (auto &w : sl.words) if (w == s) return {Cls::CANON, s}; return {Cls::REFUSE, ""};
    case EFLAG: if (hex_ok(s)) return {Cls::CANON, s}; return {sl.tmpl.compare(0, 10, "bop update") == 0 && num_cls(s, 0, 0).k != Cls::REFUSE ? Cls::SKIP : Cls::REFUSE, ""};
    case LIST: { vector<string> el; size_t p = 0; string canon; bool open = false; for (;;) { size_t q = s.find(',', p); string e = s.substr(p, q == string::npos ? string::npos : q - p); if (e.empty()) open = true; else { if (!hex_ok(e) || (!el.empty() && e.size() != el[0].size())) return {Cls::REFUSE, ""}; canon += (el.empty() ? "" : ",") + e; el.push_back(e); } if (q == string::npos) break; p = q + 1; } if (el.empty() || el.size() > 100) return {Cls::REFUSE, ""}; return {open ? Cls::OPEN : Cls::CANON, canon}; } }
    return {Cls::REFUSE, ""};
}
Strs universe(const Slot &sl, bool deep) {
    Strs r; std::set<string> seen; auto add = [&](const string &s) { if (!s.empty() && s.find(' ') == string::npos && seen.insert(s).second) r.push_back(s); }; for (int n = 1; n <= (deep ? 5 : 4); n++) strings("019-+.xa\t,", n, add); for (auto &s : boundaries()) add(s); for (big e : {sl.lo, sl.hi}) for (int d = -2; d <= 2; d++) for (auto t : {"%", "+%", "0%", "%\t", "%x", "%.", "-%"}) { string w = t; size_t p = w.find('%'); add(w.replace(p, 1, bstr(e + d))); }
    for (auto &w : sl.words) { add(w); add(w + "x"); add(w.substr(0, w.size() - 1)); string u = w; for (auto &c : u) c = isupper(c) ? tolower(c) : toupper(c); add(u); add(w + w); add(w + "\t"); } for (auto s : {"EQ", "eq", "&", "&&", "and", "off", "ON", "head_trim", "largest_trim", "EQ\t"}) add(s);
    if (sl.k == BKEY || sl.k == EFLAG || sl.k == RANGE || sl.k == LIST) { Strs h; for (int n : {1, 2, 3, 8, 30, 31, 32, 33, 64, 200}) { h.push_back(hexn(n)); h.push_back(hexn(n, true)); h.push_back(hexn(n) + "0"); string g = hexn(n); g[g.size() - 1] = 'G'; h.push_back(g); g = hexn(n); g[2] = 'g'; h.push_back(g); } for (auto s : {"0x", "0X01", "0x0", "0x01", "0x1", "0x0102", "0xAF", "0xaf", "0x-1", "0x+1", "0x0 ", "0x0x01", "x01", "01", "0x01\t", "\t0x01", "+0x01", "-0x01", "0x01.", "0x0.", "0x/0", "0x:0", "0x@0", "0x`0", "00x01", "0x01,0x02", "0x01,0x0102", "0x01,", ",0x01", "0x01,,0x02", "0x0102,0x0304", "0x01,0x02,0x80", "0x01,2", "0x01;0x02"}) h.push_back(s); for (auto &s : h) add(s);
        if (sl.k == LIST) for (int n : {99, 100, 101, 150}) for (int len : {1, 15, 31}) { if (n * len > 900) continue; string s; for (int i = 0; i < n; i++) s += (i ? "," : "") + hexn(len); add(s); } }
    if (sl.k == RANGE || sl.k == IRANGE || sl.k == PRANGE) { Strs p = {"", "0", "1", "5", "30", "-1", "+1", "01", "x", "5\t", "\t5", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "0x01", "0xAF", "0x0102", "0x1", "0x", hexn(31), hexn(32), ".", ".5", "5."}; for (auto &a : p) for (auto &b : p) for (auto d : {"..", "...", ".", "....", ".. ", "-", ","}) add(a + d + b); for (auto s : {"1..2..3", "0..0x01..5", "..", "....", "0x01..0x02..0x03"}) add(s); }
    return r;
}
}
SUITE_B("C36", arguments, "std", BOTH, 150, 1500) {
    auto sl = slots(); mc::boot_std({"-g", "10"}); ctx.note_bound(mc::fmt("%zu places where commands take a number, bkey, flag, range, list or word, each with all texts of up to %d characters over 0 1 9 - + . x a tab comma, boundaries of every width written in 13 ways, and all pairs of range ends: canonical texts in lock step with the model, others refused without effect (or, where only blanks, a plus or zeros are added, exactly like the canonical text)", sl.size(), ctx.thorough ? 5 : 4));
    char *shared = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); const int CH = 4;
    for (size_t si = 0; si < sl.size(); si++) for (int ch = 0; ch < CH; ch++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; const Slot &s = sl[si]; ctx.isolated([&] {
        ctx.clear_note(); Lock l(ctx); l.connect(); for (auto &c : init_cmds()) l.step(c); Strs dc = dump_cmds(); int c2 = sim::connect(); sim::run(); auto dump = [&] { string r; for (auto &c : dc) r += sim::rpc(c2, c); return r; }; string base = dump(); int cx = -1; std::map<string, string> canon;
        bool weird = s.tmpl.compare(0, 4, "conf") == 0 || s.tmpl.compare(0, 4, "lqde") == 0 || s.tmpl.compare(0, 4, "cmdl") == 0 || s.tmpl.compare(0, 4, "scan") == 0;
        auto line = [&](const string &t) { string w = s.tmpl; w.replace(w.find('%'), 1, t); return w + "\r\n"; };
        auto refused = [&](const string &rep) { return (rep.compare(0, 12, "CLIENT_ERROR") == 0 || rep.compare(0, 5, "ERROR") == 0 || rep.compare(0, 10, "ATTR_ERROR") == 0) && rep.find("\r\n") == rep.size() - 2; };
        auto u = universe(s, ctx.thorough && s.k != RANGE); for (size_t i = ch; i < u.size(); i += CH) { const string &t = u[i]; Cls c = slot_cls(s, t); if (c.k == Cls::SKIP) continue; if (c.k != Cls::REFUSE && weird) continue; ctx.trans(1); string what = "command " + mc::esc(line(t), 120);
            if (c.k == Cls::REFUSE) { if (cx < 0) { cx = sim::connect(); sim::run(); } string rep = sim::rpc(cx, line(t)); string bad; if (!refused(rep)) bad = rep.empty() ? "is accepted (the server waits for data)" : "is answered " + mc::esc(rep, 100); else if (i % 31 == ch) { if (dump() != base) bad = "is refused but has an effect"; } if (!bad.empty()) { ctx.note("> " + mc::esc(line(t), 400)); ctx.fail("arguments", what + " " + bad); if (rep.empty() || dump() != base) { sim::shut(cx); sim::run(); return; } } continue; }
            if (s.k == LEN && c.canon.size() > 3) { ctx.isolated([&] { string rep = sim::rpc(l.c, line(t)); if (!(rep.empty() || refused(rep) || rep.find("too large") != string::npos)) { ctx.note("> " + mc::esc(line(t), 400)); ctx.fail("arguments", what + " is answered " + mc::esc(rep, 80)); } }, 20); continue; }
            if (s.k == LEN && c.canon.size() == 3 && c.canon > "110") continue; string data = s.k == LEN ? string(atoi(c.canon.c_str()), '7') + "\r\n" : s.data;
            if (s.k == NUM && s.hi == I64 && c.canon.size() > 9 && c.canon[0] != '-') { // a time further away than the server can count: as far as possible
                if (c.k == Cls::CANON) ctx.isolated([&] { Strs before; auto ats = [&] { Strs r; for (auto k : {"k", "q", "l", "s", "m", "b"}) r.push_back(sim::rpc(l.c, string("getattr ") + k + " expiretime\r\n")); return r; }; before = ats(); string rep = sim::rpc(l.c, line(t) + data); if (s.tmpl.compare(0, 5, "flush") == 0) { if (rep != "OK\r\n") ctx.fail("arguments", what + " is answered " + mc::esc(rep)); return; } sim::advance_s(2000); auto now = ats(); int far = 0, same = 0; for (size_t j = 0; j < now.size(); j++) { size_t e = now[j].find("expiretime="); if (e != string::npos && atoll(now[j].c_str() + e + 11) > 100000000) far++; else if (now[j] == before[j]) same++; } if (refused(rep) || far != 1 || same != (int)now.size() - 1) { ctx.note("> " + mc::esc(line(t), 200)); ctx.fail("arguments", what + " is answered " + mc::esc(rep, 60) + mc::fmt(" and %d items expire far in the future", far)); } }, 20);
                continue; }
            if (c.k == Cls::CANON) { ctx.isolated([&] { if (l.step(line(t) + data)) for (auto &q : dc) if (!l.step(q)) break; }, 20); ctx.state(i); continue; }
            auto result = [&](const string &text, bool &ref) { string rep = sim::rpc(l.c, line(text)); ref = refused(rep); if (!ref && !data.empty()) { if (!rep.empty()) return "answer before the data: " + rep; rep = sim::rpc(l.c, data); } return rep + "|" + dump(); };
            if (!canon.count(c.canon)) { ctx.isolated([&] { bool r; string v = result(c.canon, r); snprintf(shared, 1 << 20, "%s", v.c_str()); }, 20); canon[c.canon] = shared; } string want = canon[c.canon]; ctx.isolated([&] { bool ref; string got = result(t, ref); if (ref ? got.substr(got.find('|') + 1) != base : got != want) { ctx.note("> " + mc::esc(line(t), 400)); ctx.fail("arguments", what + (ref ? " is refused but has an effect" : " is neither refused nor taken like " + mc::esc(line(c.canon), 120)) + ": " + mc::esc(got, 200)); } }, 20); }
        if (dump() != base) { ctx.note("refused texts for " + s.tmpl); ctx.fail("arguments", "a refused command has an effect: " + s.tmpl); }
        }, 300); ctx.trace(); }
    ctx.sample("bop get b 5..0x01 ; lop insert l 2147483648 1");
}
