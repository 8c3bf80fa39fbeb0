// C41: the command log and the long query detection record exactly what was asked
#include <sys/mman.h>
#include <algorithm>
#include <cstring>
#include <ctime>
#include "alpha.h"
#include "conc.h"
#include "vfs.h"
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
string hms(uint64_t us) { time_t t = us / 1000000; struct tm x; localtime_r(&t, &x); return mc::fmt("%02d:%02d:%02d.%06d", x.tm_hour, x.tm_min, x.tm_sec, (int)(us % 1000000)); }
string dt(uint64_t us) { time_t t = us / 1000000; struct tm x; localtime_r(&t, &x); return mc::fmt("%d_%d", (x.tm_year + 1900) * 10000 + (x.tm_mon + 1) * 100 + x.tm_mday, x.tm_hour * 10000 + x.tm_min * 100 + x.tm_sec); }
// ---------------------------------------------------------------- long query detection
const char *NAMES[10] = {"sop get", "mop delete", "mop get", "lop insert", "lop delete", "lop get", "bop delete", "bop get", "bop count", "bop gbp"};
struct Q { int cmd = -1; uint64_t cost = 0; string key, query; };
int cmd_of(const string &r) { for (int i = 0; i < 10; i++) { size_t n = strlen(NAMES[i]); if (r.compare(0, n, NAMES[i]) == 0 && r.size() > n && r[n] == ' ') return i; } return -1; }
int64_t num(const string &s) { return strtoll(s.c_str(), nullptr, 10); }
string hexup(const string &s) { if (s.compare(0, 2, "0x")) return S((long long)strtoull(s.c_str(), nullptr, 10)); string r = s; for (size_t i = 2; i < r.size(); i++) r[i] = toupper(r[i]); return r; }
// what the documentation calls the number of elements the command accesses, from the state before it; cmd -1: no long query candidate
Q cost_of(const model::Model &m0, const string &req) {
    Q q; string line = req.substr(0, req.find("\r\n")); int c = cmd_of(line); if (c < 0) return q; model::Model m = m0; auto t = model::split(line); string err; string key = t[2]; auto *it = m.find(key); if (!it) { if (c != 3) return q; }
    model::Item before; if (it) before = *it; string r1 = req; size_t np = r1.find(" noreply\r\n"); if (np != string::npos) r1.erase(np, 8); np = r1.find(" pipe\r\n"); if (np != string::npos) r1.erase(np, 5); model::Model m1 = m; string rep = m1.exec(r1, nullptr, err);
    bool ok = rep.compare(0, 6, "VALUE ") == 0 || rep.find("STORED\r\n") == 0 || rep.find("CREATED_STORED\r\n") == 0 || rep.compare(0, 7, "DELETED") == 0 || rep.compare(0, 6, "COUNT=") == 0; if (!ok) return q;
    auto after = m1.find(key); size_t nb = it ? before.count() : 0, na = after ? after->count() : 0; string suf; for (auto &x : t) if (x == "drop") suf = " drop"; else if (x == "delete" && &x != &t[1]) suf = " delete";
    auto got = [&] { size_t a = rep.find(' ', 6); return (uint64_t)strtoull(rep.c_str() + a, nullptr, 10); };
    q.key = key; q.cmd = c; switch (c) {
    case 0: q.cost = got(); q.query = S(num(t.size() > 3 ? t[3] : "0")) + suf; break;
    case 2: q.cost = got(); q.query = S(num(t[4])) + suf; break;
    case 1: q.cost = nb - na; q.query = S(num(t[4])) + suf; break;
    case 3: { int64_t i = num(t[3]); q.cost = i >= 0 ? i + 1 : -i; q.query = S(i); break; }
    case 4: case 5: { size_t p = t[3].find(".."); int64_t a = num(t[3].substr(0, p)), b = p == string::npos ? a : num(t[3].substr(p + 2)); uint64_t n = c == 4 ? nb - na : got(); q.cost = n + (a >= 0 ? a + 1 : -a); q.query = S(a) + ".." + S(b) + suf; break; }
    case 9: { q.cost = got(); size_t p = t[4].find(".."); string a = p == string::npos ? t[4] : t[4].substr(0, p), b = p == string::npos ? t[4] : t[4].substr(p + 2); q.query = S(num(a)) + ".." + S(num(b)) + " " + t[3]; break; }
    default: { // bop delete, get, count: elements of the range are visited in its direction until enough have been found
        size_t p = t[3].find(".."); model::BKey a, b; string sa = t[3].substr(0, p), sb = p == string::npos ? sa : t[3].substr(p + 2); model::parse_bkey(sa, a); model::parse_bkey(sb, b); bool single = p == string::npos || a.cmp(b) == 0; size_t i = 4; string filter; if (t.size() > 5 && t[4].compare(0, 2, "0x") != 0 && 0) {} 
        // filter tokens: [offset bitwop operand] op value ; everything up to the trailing plain numbers and words
        vector<string> rest; vector<uint64_t> nums; for (i = 4; i < t.size(); i++) { const string &x = t[i]; if (x == "drop" || x == "delete" || x == "noreply" || x == "pipe") continue; rest.push_back(x); }
        bool hasf = false; size_t fe = 0; for (size_t k = 0; k < rest.size(); k++) if (rest[k].find("0x") == 0) { hasf = true; fe = k + 1; } if (hasf) for (size_t k = 0; k < fe; k++) filter += " " + rest[k]; for (size_t k = fe; k < rest.size(); k++) nums.push_back(strtoull(rest[k].c_str(), nullptr, 10));
        uint64_t off = 0, cnt = 0; if (c == 7) { if (nums.size() == 2) off = nums[0], cnt = nums[1]; else if (nums.size() == 1) cnt = nums[0]; } else if (c == 6 && !nums.empty()) cnt = nums[0];
        vector<model::BKey> v; for (auto &e : before.bt) { const model::BKey &lo = a.cmp(b) <= 0 ? a : b, &hi = a.cmp(b) <= 0 ? b : a; if (e.first.cmp(lo) >= 0 && e.first.cmp(hi) <= 0) v.push_back(e.first); } if (a.cmp(b) > 0) std::reverse(v.begin(), v.end());
        auto match = [&](const model::BKey &k) { if (!hasf) return true; model::Model m2 = m; string e2; return m2.exec("bop count " + key + " " + k.str() + filter + "\r\n", nullptr, e2) == "COUNT=1\r\n"; };
        uint64_t vis = 0, skip = 0, found = 0; for (auto &k : v) { vis++; if (single) break; if (c != 8 && match(k)) { if (skip < off) skip++; else if (++found >= cnt && cnt > 0) break; } }
        if (c == 8 && !single && !hasf && v.size() == before.bt.size() && !v.empty()) vis = 0; // the whole tree: the count is known
        q.cost = vis; q.query = hexup(sa) + (p == string::npos || single ? string() : ".." + hexup(sb)) + (hasf ? " efilter" : ""); if (c == 7) q.query += " " + S((long long)off) + " " + S((long long)cnt) + suf; else if (c == 6) q.query += " " + S((long long)cnt) + suf; } }
    return q;
}
struct LQ {
    bool on = false; uint64_t thr = 0; int state = 0; uint64_t bgn = 0, end = 0; bool ever = false; struct { uint64_t total = 0; vector<string> lines; vector<std::pair<string, string>> seen; } c[10]; int full = 0;
    void start(uint64_t th) { for (auto &x : c) { x.total = 0; x.lines.clear(); x.seen.clear(); } on = true; thr = th ? th : 4000; state = 2; bgn = sim::now_us(); ever = true; full = 0; end = 0; }
    void stop(int why) { on = false; state = why; end = sim::now_us(); }
    void see(const Q &q) {
        if (!on || q.cmd < 0 || q.cost < thr) return; auto &x = c[q.cmd]; x.total++; if (x.lines.size() >= 20) return; string key = q.key; if (key.size() > 250) key = key.substr(0, 124) + "..." + key.substr(key.size() - 123); bool perkey = q.cmd < 3 && num(q.query) == 0; for (auto &s : x.seen) if (s.first == q.query && (!perkey || s.second == key)) return;
        x.seen.push_back({q.query, key}); x.lines.push_back(hms(sim::now_us()) + " 10.0.0.7 <" + S((long long)q.cost) + "> " + NAMES[q.cmd] + " " + key + " " + q.query + "\n"); if (x.lines.size() == 20 && ++full == 10) stop(1);
    }
    string show() const { string r; for (int i = 0; i < 10; i++) { r += string(NAMES[i]) + " : " + S((long long)c[i].total) + "\n"; for (auto &l : c[i].lines) r += l; } return r; }
    string stats() const { static const char *st[] = {"stopped by explicit request", "stopped by internal buffer overflow", "running"}; uint64_t n = 0; for (auto &x : c) n += x.total; return string("\tLong query detection stats : ") + st[state] + "\n\tThe last running time : " + (ever ? dt(bgn) : "0_0") + " ~ " + (on || !ever ? "0_0" : dt(end)) + "\n\tThe number of total long query commands : " + S((long long)n) + "\n\tThe detection threshold : " + S((long long)thr) + "\n"; }
};
struct LqRun { mc::Ctx &ctx; Lock l; LQ q; LqRun(mc::Ctx &c) : ctx(c), l(c) { l.c = sim::connect("10.0.0.7"); sim::run(); l.note = true; }
    bool is(const string &cmd, const string &want) { string got = sim::rpc(l.c, cmd); ctx.note("> " + mc::esc(cmd, 200)); ctx.trans(1); if (got == want) return true; l.fail(cmd.substr(0, cmd.find("\r\n")), "long query detection: " + mc::esc(cmd, 80) + " answered\n" + mc::esc(got, 3000) + "\nexpected\n" + mc::esc(want, 3000)); return false; }
    bool look() { return is("lqdetect show\r\n", q.show()) && is("lqdetect stats\r\n", q.stats()); }
    bool step(const string &cmd) {
        if (cmd.compare(0, 8, "lqdetect")) { if (cmd[0] == '+' || cmd[0] == '~') return l.step(cmd); if (cmd.compare(0, 5, "PIPE|") == 0) return pipe(cmd.substr(5)); Q x = cost_of(l.m, cmd); if (!l.step(cmd)) return false; q.see(x); return true; }
        auto t = model::split(cmd.substr(0, cmd.find("\r\n"))); if (t[1] == "start") { if (q.on) return is(cmd, "\tlong query detection already started.\n\r\n"); uint64_t th = t.size() > 2 ? strtoull(t[2].c_str(), nullptr, 10) : 0; q.start(th); return is(cmd, "\tlong query detection started.\n\r\n"); }
        if (t[1] == "stop") { if (!q.on) return is(cmd, "\tlong query detection already stopped.\n\r\n"); q.stop(0); return is(cmd, "\tlong query detection stopped.\n\r\n"); } return look();
    }
    bool pipe(const string &all) { // requests separated by '|', sent as one pipeline
        string req, want; vector<string> v = model::split(all, '|'); string reps; for (size_t i = 0; i < v.size(); i++) { Q x = cost_of(l.m, v[i]); q.see(x); string r1 = v[i], e; size_t np = r1.find(" pipe\r\n"); if (np != string::npos) r1.erase(np, 5); reps += l.m.exec(r1, nullptr, e); req += v[i]; } want = "RESPONSE " + S(v.size()) + "\r\n" + reps + "END\r\n"; return is(req, want); }
};
Strs lq_init() { Strs v; v.push_back("lop insert l 0 1 create 0 0 50\r\na\r\n"); for (int i = 1; i < 6; i++) v.push_back("lop insert l -1 1\r\nb\r\n"); for (int i = 0; i < 5; i++) v.push_back(string("sop insert s 1") + (i ? "" : " create 0 0 50") + "\r\n" + S(i) + "\r\n"); for (int i = 0; i < 5; i++) v.push_back("mop insert m f" + S(i) + " 1" + (i ? "" : " create 0 0 50") + "\r\n" + S(i) + "\r\n"); for (int i = 0; i < 6; i++) v.push_back("bop insert t " + S(i * 10) + (i % 2 ? " 0x0A0B" : "") + " 1" + (i ? "" : " create 0 0 50") + "\r\n" + S(i) + "\r\n"); for (int i = 0; i < 5; i++) v.push_back("bop insert h 0x0" + S(i) + "ab 1" + (i ? "" : " create 0 0 50") + "\r\n" + S(i) + "\r\n"); return v; }
Strs lq_ops() { return {
    "lop insert l 2 1\r\nx\r\n", "lop insert l -3 1\r\nx\r\n", "lop insert l 3 1\r\nx\r\n", "lop insert l -1 1\r\nx\r\n", "lop insert none 3 1\r\nx\r\n", "lop insert l 2 1 noreply\r\nx\r\n", "lop get l 0..1\r\n", "lop get l 2\r\n", "lop get l 1..0\r\n", "lop get l -1..-2\r\n", "lop get l 0..-1\r\n", "lop get l 0\r\n", "lop get l 0..1 delete\r\n", "lop get l 40..50\r\n", "lop delete l 0..1\r\n", "lop delete l 1\r\n", "lop delete l 0..-1 drop\r\n", "lop delete l -1\r\n", "sop get s 0\r\n", "sop get s 3\r\n", "sop get s 2\r\n", "sop get s 4 delete\r\n", "sop get s 0 drop\r\n", "mop get m 0 0\r\n", "mop get m 8 3\r\nf0 f1 f2\r\n", "mop get m 5 2\r\nf0 f1\r\n", "mop get m 0 0 drop\r\n", "mop get m 8 3 delete\r\nf0 f1 f2\r\n", "mop delete m 8 3\r\nf2 f3 f4\r\n", "mop delete m 0 0\r\n", "mop delete m 5 2 drop\r\nf0 f1\r\n", "mop delete m 8 3\r\nf2 zz f4\r\n", "bop get t 0..20\r\n", "bop get t 20..0\r\n", "bop get t 0..100 2\r\n", "bop get t 0..100 1 2\r\n", "bop get t 100..0 0 0\r\n", "bop get t 10\r\n", "bop get t 0..100 0 EQ 0x0A 1\r\n", "bop get t 0..100 0 & 0xFF EQ 0x0A 1 1\r\n", "bop get t 0..30 drop\r\n", "bop get t 5..8\r\n", "bop get h 0x00..0x03ab\r\n", "bop get h 0x04ab..0x00ab 2 delete\r\n", "bop delete t 0..20\r\n", "bop delete t 0..100 0 EQ 0x0A 1\r\n", "bop delete t 0..100 2 drop\r\n", "bop delete t 30\r\n", "bop delete h 0x00..0xFF\r\n", "bop count t 0..40\r\n", "bop count t 0..100\r\n", "bop count t 40..10\r\n", "bop count t 0..100 0 EQ 0x0A\r\n", "bop count t 10..30 0 NE 0x0A\r\n", "bop count t 10\r\n", "bop gbp t asc 0..2\r\n", "bop gbp t desc 0..1\r\n", "bop gbp t asc 4..1\r\n", "bop gbp h desc 0..5\r\n", "bop gbp t asc 3\r\n",
    "get l\r\n", "bop mget 1 1 0..100 5\r\nt\r\n", "bop pwg t 20 asc\r\n", "lop get s 0..1\r\n", "sop get none 0\r\n", "bop smget 3 2 0..100 5\r\nt h\r\n"}; }
Strs lq_ctl() { return {"lqdetect start 3\r\n", "lqdetect start\r\n", "lqdetect stop\r\n", "lqdetect show\r\n", "+2", "lqdetect start 1\r\n", "lqdetect start 0\r\n", "lqdetect start 5\r\n"}; }
}
SUITE("C41", long_query_sequences, "std", BOTH) {
    mc::boot_std(); auto ops = lq_ops(), ctl = lq_ctl(), init = lq_init(); vector<Strs> progs; for (auto &st : Strs{"lqdetect start 3\r\n", "lqdetect start 1\r\n", "lqdetect start 4\r\n", "lqdetect start 6\r\n"}) for (auto &a : ops) for (auto &b : ops) { if (st[15] != '3' && !ctx.thorough && (mc::hash(a + b) & 3)) continue; progs.push_back({st, a, b}); } for (auto &a : ops) for (auto &c : ctl) for (auto &b : ops) { if (!ctx.thorough && (mc::hash(a + c + b) % 3)) continue; progs.push_back({"lqdetect start 2\r\n", a, c, b}); } for (auto &c1 : ctl) for (auto &c2 : ctl) for (auto &c3 : ctl) for (auto &a : Strs{ops[6], ops[32], ops[18]}) progs.push_back({c1, a, c2, a, c3, a});
    if (ctx.thorough) for (auto &a : ops) for (auto &b : ops) for (auto &c : ops) if (mc::hash(a + b + c) % 3 == 0) progs.push_back({"lqdetect start 3\r\n", a, b, c});
    ctx.note_bound(mc::fmt("%zu histories: all pairs of %zu commands under 4 thresholds, all command / control / command triples, all control triples; after each history show and stats are compared", progs.size(), ops.size()));
    for (auto &p : progs) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { LqRun r(ctx); r.l.begin(); r.l.pre = "lq"; for (auto &x : init) if (!r.step(x)) return; for (auto &x : p) if (!r.step(x)) return; if (!r.look()) return; ctx.state(mc::hash(r.q.show())); }, 30); ctx.trace(); if (ctx.case_index() % 1999 == 1) { string t; for (auto &x : p) t += mc::esc(x, 40) + " ; "; ctx.sample(t); } }
}
SUITE("C41", long_query_limits, "asan", BOTH) { // more than 20 queries per command, automatic stop, long keys, longest bkeys
    mc::boot_std({"-m", "256"}); auto init = lq_init(); auto ks = [](size_t n) { string k(n, 'k'); for (size_t i = 0; i < n; i += 7) k[i] = 'a' + i / 7 % 26; return k; };
    vector<std::pair<string, Strs>> progs; // fill: per command the i-th distinct query
    auto fill = [&](int cmd, int i) -> string { string n = S(i); switch (cmd) { case 0: return "sop get s " + n + "\r\n"; case 1: return "mop delete m " + S(2) + " 1\r\nf" + S(i % 5) + "\r\n"; case 2: return "mop get m 2 1\r\nf0\r\n"; case 3: return "lop insert l " + S(i % 2 ? -1 - i / 2 % 6 : i / 2 % 6) + " 1\r\nx\r\n"; case 4: return "lop delete l 0.." + n + "\r\n"; case 5: return "lop get l 0.." + n + "\r\n"; case 6: return "bop delete t 0.." + S(100 + i) + " 1\r\n"; case 7: return "bop get t 0.." + S(100 + i) + "\r\n"; case 8: return "bop count t 0.." + S(10 + i) + " 0 EQ 0x0A\r\n"; default: return "bop gbp t asc 0.." + n + "\r\n"; } };
    for (int c = 0; c < 10; c++) for (int n : {1, 19, 20, 21, 25}) { Strs p{"lqdetect start 1\r\n"}; for (int i = 0; i < n; i++) { if (c == 4) p.push_back("lop insert l 0 1\r\nz\r\n"); if (c == 6) p.push_back("bop upsert t 0 1\r\nz\r\n"); if (c == 1) p.push_back("mop upsert m f" + S(i % 5) + " 1\r\nz\r\n"); p.push_back(fill(c, i)); } p.push_back("lqdetect show\r\n"); p.push_back("lqdetect stop\r\n"); p.push_back("lqdetect start 2\r\n"); p.push_back("lop get l 0..3\r\n"); progs.push_back({mc::fmt("%d x %s", n, NAMES[c]), p}); }
    // everything full: distinct queries for all ten (maps and sets: different numbers of fields or keys)
    for (int last : {-1, 0, 3, 9}) for (int drop : {0, 1}) { Strs p{"lqdetect start 1\r\n"}; for (int k = 0; k < 21; k++) { string K = "z" + S(k); p.push_back("mop insert " + K + " f 1 create 0 0 5\r\nx\r\n"); p.push_back("mop insert " + K + " g 1\r\nx\r\n"); p.push_back("mop insert " + K + " h 1\r\nx\r\n"); }
        for (int i = 0; i < 20; i++) for (int c = 0; c < 10; c++) { if (c == last && i == 19) continue; string K = "z" + S(i); switch (c) { case 0: p.push_back("sop get s " + S(i + 1) + "\r\n"); break; case 1: p.push_back("mop delete " + K + " 0 0\r\n"); break; case 2: p.push_back("mop get " + K + " 0 0\r\n"); std::swap(p[p.size() - 1], p[p.size() - 2]); break; case 3: p.push_back("lop insert l " + S(i % 2 ? -1 - i / 2 : i / 2) + " 1\r\nx\r\n"); break; case 4: p.push_back("lop delete l 0.." + S(i * 3) + (i == 19 ? "" : "") + "\r\n"); p.push_back("lop insert l -1 1\r\nq\r\n"); for (int q = 0; q < 22; q++) p.push_back("lop insert l -1 1\r\nq\r\n"); break; case 5: p.push_back("lop get l 0.." + S(i) + "\r\n"); break; case 6: p.push_back("bop upsert t 0 1\r\nz\r\n"); p.push_back("bop delete t 0.." + S(100 + i) + " 1\r\n"); break; default: p.push_back(fill(c, i)); } }
        if (drop) { Strs q{p[0]}; for (int i = 0; i < 20; i++) q.push_back("lop get l 0.." + S(100 + i) + "\r\n"); q.push_back("lqdetect stop\r\n"); q.insert(q.end(), p.begin(), p.end()); p = q; }
        if (drop) p.push_back("lqdetect show\r\n"); p.push_back(last < 0 ? string("lop get l 0..40\r\n") : fill(last == 3 ? 5 : last, 30)); p.push_back("lqdetect show\r\n"); p.push_back("lqdetect stop\r\n"); p.push_back("lqdetect start 3\r\n"); p.push_back("lop get l 0..5\r\n"); progs.push_back({mc::fmt("all full but %d", last), p}); }
    for (size_t n : {200u, 249u, 250u, 251u, 252u, 300u, 1000u, 2000u, 15999u, 16000u}) { string k = ks(n), hx; for (int i = 0; i < 31; i++) hx += mc::fmt("%02x", 0xa0 + i); string a = "0x00" + hx.substr(2), b = "0x" + string(62, 'f'); progs.push_back({mc::fmt("key of %zu bytes", n), {"lqdetect start 1\r\n", "lop insert " + k + " 0 1 create 0 0 5\r\nx\r\n", "lop get " + k + " 0..-1\r\n", "lop delete " + k + " 0..-1 drop\r\n", "sop insert " + k + " 1 create 0 0 5\r\nx\r\n", "sop get " + k + " 0\r\n", "sop get " + k + " 0\r\n", "sop get " + k + "\r\n" + string(), "sop get " + k + " 0 drop\r\n", "mop insert " + k + " f 1 create 0 0 5\r\nx\r\n", "mop get " + k + " 0 0\r\n", "mop get " + k.substr(0, n - 1) + "Z 0 0\r\n", "mop get " + k + " 1 1\r\nf\r\n", "mop delete " + k + " 0 0 drop\r\n", "bop insert " + k + " 0x" + hx + " 0x" + hx + " 1 create 0 0 5\r\nx\r\n", "bop insert " + k + " 0x" + string(62, '0') + " 1\r\nx\r\n", "bop get " + k + " " + a + ".." + b + "\r\n", "bop get " + k + " " + a + ".." + b + " 0 & 0x" + hx + " NE 0x" + hx + ",0x" + hx + " 0 4294967295\r\n", "bop get " + k + " " + a + ".." + b + " 0 NE 0x" + hx + " 4294967295 4294967295 delete\r\n", "bop get " + k + " 0x" + string(62, '0') + ".." + b + " 0 NE 0x01 0 4294967295 delete\r\n", "bop count " + k + " " + b + ".." + a + "\r\n", "bop gbp " + k + " asc 0..4294967295\r\n", "bop delete " + k + " " + a + ".." + b + " 0 EQ 0x" + hx + " 4294967295 drop\r\n"}}); auto &v = progs.back().second; v.erase(std::find(v.begin(), v.end(), "sop get " + k + "\r\n")); }
    progs.push_back({"pipelines", {"lqdetect start 2\r\n", "PIPE|lop insert l 2 1 pipe\r\na\r\n|lop insert l 0 1 pipe\r\nb\r\n|lop insert none 5 1 pipe\r\nb\r\n|lop insert l -2 1\r\nc\r\n", "PIPE|lop delete l 0..1 pipe\r\n|mop delete m 5 2 pipe\r\nf0 f1\r\n|bop delete t 0..20 pipe\r\n|bop delete t 0..100\r\n"}});
    progs.push_back({"unreadable", {"setattr l readable=on\r\n", "lop create u 0 0 10 unreadable\r\n", "lqdetect start 1\r\n", "lop insert u 0 1\r\na\r\n", "lop get u 0..1\r\n", "lop delete u 0\r\n"}});
    ctx.note_bound(mc::fmt("%zu histories", progs.size()));
    for (auto &p : progs) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { LqRun r(ctx); r.l.begin(); r.l.pre = "lq"; ctx.note(p.first); for (auto &x : init) if (!r.step(x)) return; for (auto &x : p.second) if (!r.step(x)) return; if (!r.look()) return; ctx.state(mc::hash(r.q.show())); }, 60); ctx.trace(); ctx.sample(p.first); }
}

// ---------------------------------------------------------------- command log
namespace {
const char *IPS[4] = {"10.0.0.1", "10.0.0.2", "10.0.0.3", "192.168.100.200"};
string entry(uint64_t us, const string &ip, const string &cmd) { string r = hms(us) + " " + ip + " " + cmd + "\n"; if (r.size() > 399) { r.resize(396); r += "..\n"; } return r; }
struct LogModel {
    bool on = false; string state = "Not started", path, base; uint64_t bgn = 0, end = 0; bool ever = false; uint64_t entered = 0; int stops = 0; std::map<string, string> whole; // log (name without number) -> all lines
    string pend; // lines of the log that is running
};
struct Files { std::map<string, vector<string>> f; }; // base name -> files 0, 1, ...
Files files() { Files r; auto im = vfs::image(); for (auto &x : im) { size_t p = x.first.rfind('_'); if (x.first.find("/command_") == string::npos || p == string::npos) continue; int n = atoi(x.first.c_str() + p + 1); auto &v = r.f[x.first.substr(0, p)]; if ((int)v.size() <= n) v.resize(n + 1); v[n] = x.second; } return r; }
struct Stats { string state, name; unsigned entered = 0, skipped = 0; int files = -1; string from, to; };
bool stats_of(int c, Stats &s, string &raw) { raw = sim::rpc(c, "cmdlog stats\r\n"); char st[100] = {}, nm[300] = {}, f[40], t[40]; if (sscanf(raw.c_str(), "\tCommand logging state : %99[^\n]\n\tThe last running time : %39s ~ %39s\n\tThe number of entered commands : %u\n\tThe number of skipped commands : %u\n\tThe number of log files : %d\n\tThe log file name: %299[^\n]\n", st, f, t, &s.entered, &s.skipped, &s.files, nm) != 7) return false; s.state = st; s.name = nm; s.from = f; s.to = t; return true; }
// one history of requests by several clients; every request is one command line (plus data), "A;B" style pipelines are given as one step
struct LogRun {
    mc::Ctx &ctx; vector<int> cs; LogModel m; uint64_t total = 0; // bytes of the running log
    LogRun(mc::Ctx &c) : ctx(c) { for (int i = 0; i < 4; i++) { cs.push_back(sim::connect(IPS[i])); sim::run(); } }
    bool bad(const string &k, const string &msg) { ctx.fail("cmdlog:" + k, msg); return false; }
    bool expect(const string &got, const string &want, const string &cmd) { return got == want || bad("reply", mc::esc(cmd, 100) + " answered " + mc::esc(got, 300) + ", expected " + mc::esc(want, 300)); }
    void log(int c, const string &line) { if (!m.on) return; m.entered++; m.pend += entry(sim::now_us(), IPS[c], line); }
    bool step(int c, const string &cmd, const Strs &lines) {
        ctx.trans(1); ctx.note(mc::fmt("client %d > ", c) + mc::esc(cmd, 150)); if (cmd[0] == '+') { sim::advance_s(atoll(cmd.c_str() + 1)); return true; } if (cmd[0] == '~') { for (int i = 0; i < 8; i++) sim::advance_us(20000); return true; }
        string t = cmd.substr(0, cmd.find("\r\n"));
        if (t.compare(0, 12, "cmdlog start") == 0) { auto w = model::split(t); log(c, t); string got = sim::rpc(cs[c], cmd); string dir = w.size() > 2 ? w[2] : "command_log"; if (m.on) return expect(got, "\tcommand logging already started.\n\r\n", t); if (got == "\tcommand logging failed to start.\n\r\n") { if (dir.compare(0, 4, "/vfs") == 0 && dir.size() < 128 && vfs::fail_at <= 0) return bad("start", "a log cannot be started"); m.state = "Not started"; m.ever = false; return true; } if (!expect(got, "\tcommand logging started.\n\r\n", t)) return false; m.on = true; m.ever = true; m.state = "running"; m.bgn = sim::now_us(); m.entered = 0; m.path = dir; m.base = dir + mc::fmt("/command_%d_", 11211) + dt(m.bgn); m.pend.clear(); return true; }
        if (t == "cmdlog stop") { log(c, t); string got = sim::rpc(cs[c], cmd); if (!m.on) return expect(got, "\tcommand logging already stopped.\n\r\n", t); m.on = false; m.end = sim::now_us(); m.state = "stopped by explicit request"; if (!expect(got, "\tcommand logging stopped.\n\r\n", t)) return false; for (int i = 0; i < 8; i++) sim::advance_us(20000); m.whole[m.base] += m.pend; m.pend.clear(); return check(); }
        if (t == "cmdlog stats") { log(c, t); Stats s; string raw; if (!stats_of(cs[c], s, raw)) return bad("stats", "stats: " + mc::esc(raw, 500)); return stat(s); }
        for (auto &l : lines) log(c, l); sim::send(cs[c], cmd); sim::run(); sim::take(cs[c]); return true;
    }
    bool stat(const Stats &s) { if (s.state != m.state) return bad("state", "stats: state " + s.state + ", it is " + m.state); if (s.entered != m.entered) return bad("entered", mc::fmt("stats: %u commands entered, it was %llu", s.entered, (unsigned long long)m.entered)); if (m.ever && s.from != dt(m.bgn)) return bad("time", "stats: begun " + s.from + ", expected " + dt(m.bgn)); if (m.ever && !m.on && s.to != dt(m.end)) return bad("time", "stats: ended " + s.to + ", expected " + dt(m.end)); if (m.ever && s.name != m.base + "_{n}.log") return bad("name", "stats: name " + s.name + ", expected " + m.base); return true; }
    bool check(unsigned *skipped = nullptr) { // after a stop: everything is in the files
        Files f = files(); for (auto &x : m.whole) { string all; auto &v = f.f[x.first]; for (size_t i = 0; i < v.size(); i++) all += v[i]; if (all != x.second) { size_t p = 0; while (p < all.size() && p < x.second.size() && all[p] == x.second[p]) p++; size_t q = p > 60 ? p - 60 : 0; return bad("content", mc::fmt("the log of %zu bytes differs from what was asked (%zu bytes) at byte %zu: ", all.size(), x.second.size(), p) + mc::esc(all.substr(q, 240), 300) + " expected " + mc::esc(x.second.substr(q, 240), 300)); } }
        for (auto &x : f.f) if (!m.whole.count(x.first) && x.first != m.base) return bad("file", "unexpected log " + x.first); return true;
    }
    bool end() { Stats s; string raw; if (m.on && !step(0, "cmdlog stop\r\n", {})) return false; if (!stats_of(cs[0], s, raw)) return bad("stats", "stats: " + mc::esc(raw, 500)); if (!stat(s)) return false; if (s.skipped) return bad("skipped", mc::fmt("%u commands skipped although the log was never full", s.skipped)); Files f = files(); if (m.ever && f.f[m.base].size() != (size_t)s.files && !(f.f[m.base].empty())) return bad("files", mc::fmt("stats: %d files, there are %zu", s.files, f.f[m.base].size())); return true; }
};
struct LStep { int c; string cmd; Strs lines; };
LStep one(int c, const string &line, const string &data = "") { return {c, line + "\r\n" + data, {line}}; }
vector<LStep> log_alpha() {
    vector<LStep> v = {one(0, "get a"), one(1, "set a 0 0 3", "abc\r\n"), one(2, "bogus  command"), one(3, "get " + string(300, 'k')), {0, "set a 0 0 1 noreply\r\nx\r\nget a\r\nincr a 1\r\n", {"set a 0 0 1 noreply", "get a", "incr a 1"}}, {1, "lop insert l 0 1 create 0 0 5 pipe\r\nx\r\nlop insert l 0 1 pipe\r\ny\r\nlop insert l 0 1\r\nz\r\n", {"lop insert l 0 1 create 0 0 5 pipe", "lop insert l 0 1 pipe", "lop insert l 0 1"}}, one(2, "mget 3 2", "a b\r\n"), one(0, "get " + string(240, 'q') + " " + string(240, 'r')), one(1, "   get   a  "), {3, string("get a\nget b\n"), {"get a", "get b"}} };
    for (auto x : {"cmdlog stats\r\n", "cmdlog stop\r\n", "cmdlog start /vfs\r\n", "cmdlog start /vfs/sub\r\n", "+1", "~"}) v.push_back({(int)(mc::hash(x) & 3), x, {}}); v.push_back(one(0, "cmdlog bogus")); return v;
}
void log_run(mc::Ctx &ctx, const vector<LStep> &p) { vfs::load({}); LogRun r(ctx); for (auto &x : p) if (!r.step(x.c, x.cmd, x.lines)) return; r.end(); string sg; for (auto &w : r.m.whole) sg += w.second; ctx.state(mc::hash(sg)); }
}
SUITE("C41", command_log_histories, "small", BOTH) {
    mc::boot_std({"-t", "4"}); auto a = log_alpha(); int D = ctx.thorough ? 5 : 4; vector<int> ix(D - 1, 0); uint64_t n = 0; ctx.note_bound(mc::fmt("all histories of up to %d steps over %zu (commands of 4 clients, pipelines, start / stop / stats, time), logging on from the start or not; the files, the counts and the state compared", D, a.size()));
    for (int first = 0; first < 2; first++) for (size_t top = 0; top < a.size(); top++) { std::fill(ix.begin(), ix.end(), 0); for (bool more = true; more;) { if ((first || ctx.thorough || ix[0] == 0) && ctx.mine()) { if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); vector<LStep> p; if (first) p.push_back({0, "cmdlog start /vfs\r\n", {}}); p.push_back(a[top]); for (int i : ix) p.push_back(a[i]); log_run(ctx, p); }, 30); ctx.trace(); n++; if (n % 4999 == 1) ctx.sample(a[top].cmd + " ..."); } more = false; for (auto &i : ix) { if (++i < (int)a.size()) { more = true; break; } i = 0; } if (!ctx.thorough && !first && false) break; } }
}

// ---------------------------------------------------------------- sizes, rotation, full buffer, disk errors
namespace {
const size_t BUFSZ = 2048; // ARCUS_MC_CMDLOG_BUFFER_SIZE: size of the buffer and of a file; chunks of a quarter are written
struct Bulk { // many lines by one client
    mc::Ctx &ctx; int c; string want; vector<string> lines; unsigned n = 0; string base; Bulk(mc::Ctx &x) : ctx(x) { vfs::load({}); c = sim::connect("10.0.0.1"); sim::run(); }
    bool bad(const string &k, const string &m) { ctx.fail("cmdlog:" + k, m); return false; }
    bool start(const string &dir = "/vfs") { base = dir + "/command_11211_" + dt(sim::now_us()); string r = sim::rpc(c, "cmdlog start " + dir + "\r\n"); want.clear(); lines.clear(); n = 0; return r == "\tcommand logging started.\n\r\n" || bad("reply", "start answered " + mc::esc(r)); }
    static string cmd(unsigned i, size_t len) { string s = "get k" + S(i); if (s.size() < len) s += " "; while (s.size() < len) s += s.size() % 200 == 0 ? ' ' : (char)('a' + (i + s.size()) % 26); if (s.back() == ' ') s.back() = 'z'; return s; }
    void add(const string &t) { lines.push_back(entry(sim::now_us(), "10.0.0.1", t)); want += lines.back(); n++; }
    void burst(const vector<size_t> &lens) { string seg; for (size_t l : lens) { string t = cmd(n, l); add(t); seg += t + "\r\n"; } sim::send(c, seg); sim::run(); sim::take(c); ctx.trans(lens.size()); }
    static void rest() { for (int i = 0; i < 10; i++) sim::advance_us(20000); }
    string content(vector<string> &v) { Files f = files(); v = f.f[base]; string all; for (auto &x : v) all += x; return all; }
    bool stats(Stats &s) { string raw; if (!stats_of(c, s, raw)) return bad("stats", "stats: " + mc::esc(raw, 300)); return true; }
    // end of a log that was never full: content complete or, after ten full files, a prefix
    bool finish() {
        rest(); Stats s; bool was = false; { string t = "cmdlog stats"; uint64_t us = sim::now_us(); if (!stats(s)) return false; was = s.state == "running"; if (was) { lines.push_back(entry(us, "10.0.0.1", t)); want += lines.back(); n++; } }
        if (was) { add("cmdlog stop"); string r = sim::rpc(c, "cmdlog stop\r\n"); if (r != "\tcommand logging stopped.\n\r\n") return bad("reply", "stop answered " + mc::esc(r)); } else { string r = sim::rpc(c, "cmdlog stop\r\n"); if (r != "\tcommand logging already stopped.\n\r\n") return bad("reply", "stop answered " + mc::esc(r)); } rest();
        Stats e; if (!stats(e)) return false; vector<string> v; string all = content(v); size_t p = 0; while (p < all.size() && p < want.size() && all[p] == want[p]) p++;
        if (p < all.size()) return bad("content", mc::fmt("the log differs from what was asked at byte %zu: ", p) + mc::esc(all.substr(p > 80 ? p - 80 : 0, 200), 300) + " expected " + mc::esc(want.substr(p > 80 ? p - 80 : 0, 200), 300));
        for (size_t i = 0; i + 1 < v.size(); i++) if (v[i].size() < BUFSZ || v[i].size() >= 2 * BUFSZ) return bad("file size", mc::fmt("file %zu has %zu bytes", i, v[i].size())); if (v.size() > 10) return bad("files", mc::fmt("%zu files", v.size()));
        if (e.skipped) return bad("skipped", mc::fmt("%u commands skipped although the log was never full", e.skipped));
        if (!was || e.state == "stopped by command log overflow") { if (e.state != "stopped by command log overflow") return bad("state", "the log stopped by itself, its state is " + e.state); if (v.size() != 10 || v[9].size() < BUFSZ) return bad("early", mc::fmt("overflow although there are %zu files, the last of %zu bytes", v.size(), v.empty() ? 0 : v.back().size())); return true; }
        if (e.state != "stopped by explicit request") return bad("state", "after stop: " + e.state); if (all != want) return bad("lost", mc::fmt("%zu bytes of %zu are in the log", all.size(), want.size())); if (want.size() >= 10 * 2 * BUFSZ) return bad("late", "no overflow after ten files"); if (e.entered != n) return bad("entered", mc::fmt("%u commands entered, it was %u", e.entered, n)); return true;
    }
};
}
SUITE("C41", command_log_sizes, "asmall", BOTH) {
    mc::boot_std({}); struct Case { string name; std::function<void(Bulk &)> f; }; vector<Case> v;
    // the length at which a line is shortened, alone and between others
    for (size_t len = 340; len <= 420; len++) v.push_back({mc::fmt("line of %zu", len), [len](Bulk &b) { b.start(); b.burst({20, len, 30}); b.burst({len}); b.burst({len, len}); b.finish(); }}); for (size_t len : {500u, 1000u, 1999u, 2040u, 2046u, 2047u, 2048u, 2049u, 4000u, 15000u}) v.push_back({mc::fmt("line of %zu", len), [len](Bulk &b) { b.start(); b.burst({20, len}); b.burst({len, 30}); b.finish(); }});
    // rotation: every length and number of lines
    vector<size_t> lens = {8, 20, 33, 70, 100, 101, 128, 200, 256, 300, 371, 372, 373, 399, 500}; int top = ctx.thorough ? 1000 : 340; for (size_t len : lens) for (int per : {1, 3}) for (int n = 1; n <= top; n = n < 40 ? n + 1 : n + (ctx.thorough ? 3 : 11)) { if (per == 3 && len > 300) continue; v.push_back({mc::fmt("%d lines of %zu, %d at a time", n, len, per), [=](Bulk &b) { b.start(); for (int i = 0; i < n; i += per) { vector<size_t> l; for (int j = 0; j < per && i + j < n; j++) l.push_back(len); b.burst(l); b.rest(); } if (!b.finish()) return; sim::advance_s(1); b.start(); b.burst({10, 20}); b.finish(); }}); }
    for (size_t x = 8; x <= 373; x++) v.push_back({mc::fmt("a line of %zu near the end of the buffer", x), [x](Bulk &b) { b.start(); for (size_t l : {371, 371, 371, 371}) { b.burst({l}); b.rest(); } b.burst({x}); b.rest(); b.burst({100}); b.rest(); b.burst({200}); b.rest(); b.burst({x}); b.finish(); }});
    // bursts while nothing is written: all kept as long as they fit, else counted and the rest in order
    for (size_t len : lens) for (int pre : {0, 1, 2, 5, 9, 13}) for (int n = 1; n <= 60; n = n < 12 ? n + 1 : n + 7) for (int rounds : {1, 3}) v.push_back({mc::fmt("%d times %d lines of %zu at once after %d", rounds, n, len, pre), [=](Bulk &b) {
        b.start(); for (int i = 0; i < pre; i++) { b.burst({150}); b.rest(); } uint64_t most = 0; for (int k = 0; k < rounds; k++) { size_t z = b.want.size(); b.burst(vector<size_t>(n, len)); most = std::max<uint64_t>(most, b.want.size() - z); b.rest(); } b.add("cmdlog stop"); sim::rpc(b.c, "cmdlog stop\r\n"); b.rest(); Stats e; if (!b.stats(e)) return;
        vector<string> f; string all = b.content(f); size_t p = 0, got = 0; for (auto &l : b.lines) if (all.compare(p, l.size(), l) == 0) p += l.size(), got++; if (p != all.size()) { b.bad("content", "the log is no selection of what was asked, in order: after " + S((long long)p) + " bytes " + mc::esc(all.substr(p, 120), 200)); return; }
        if (e.entered != b.n) b.bad("entered", mc::fmt("%u commands entered, it was %u", e.entered, b.n)); else if (e.skipped != b.n - got) b.bad("skipped", mc::fmt("%zu of %u commands are in the log, %u were reported as skipped", got, b.n, e.skipped)); else if (e.skipped && most <= BUFSZ / 2) b.bad("early skip", mc::fmt("%u commands skipped, at most %llu bytes came at once", e.skipped, (unsigned long long)most)); else if (e.state != "stopped by explicit request" && e.state != "stopped by command log overflow") b.bad("state", e.state);
    }});
    // the longest and too long directories
    for (size_t n : {100u, 120u, 126u, 127u, 128u, 129u, 130u, 200u, 1000u}) v.push_back({mc::fmt("directory of %zu", n), [n](Bulk &b) { string d = "/vfs/"; while (d.size() < n) d += 'd'; string r = sim::rpc(b.c, "cmdlog start " + d + "\r\n"); bool ok = r == "\tcommand logging started.\n\r\n"; if (ok ? n > 128 : (n < 128 || r != "\tcommand logging failed to start.\n\r\n")) { b.bad("directory", "start answered " + mc::esc(r)); return; } Stats s; if (ok) { if (!b.stats(s)) return; if (s.name.compare(0, d.size() + 1, d + "/")) { b.bad("name", s.name); return; } sim::rpc(b.c, "cmdlog stop\r\n"); b.rest(); } sim::advance_s(1); b.start(); b.burst({10}); b.finish(); }});
    v.push_back({"directory that does not exist", [](Bulk &b) { string r = sim::rpc(b.c, "cmdlog start /no-such-directory-for-verif\r\n"); if (r != "\tcommand logging failed to start.\n\r\n") { b.bad("directory", mc::esc(r)); return; } r = sim::rpc(b.c, "cmdlog stop\r\n"); if (r != "\tcommand logging already stopped.\n\r\n") { b.bad("reply", mc::esc(r)); return; } b.start(); b.burst({10}); b.finish(); }});
    v.push_back({"other protocol", [](Bulk &b) { b.start(); int c = sim::connect("10.0.0.9"); sim::run(); string p("\x80\x00\x00\x01\0\0\0\0\0\0\0\x01\0\0\0\0\0\0\0\0\0\0\0\0k", 25); sim::rpc(c, p); b.burst({10}); b.finish(); }});
    ctx.note_bound(mc::fmt("%zu histories: all line lengths 340..420 and longer, up to %d lines of 15 lengths through file rotation and overflow, bursts of up to 60 lines while the writer is stalled, directory lengths", v.size(), top));
    for (auto &x : v) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); ctx.note(x.name); Bulk b(ctx); x.f(b); ctx.state(mc::hash(b.want)); }, 60); ctx.trace(); if (ctx.case_index() % 499 == 1) ctx.sample(x.name); }
}
SUITE("C41", command_log_disk_errors, "small", BOTH) { // every disk operation of a history fails
    mc::boot_std({}); vector<std::pair<string, vector<vector<size_t>>>> hs; for (size_t len : {30u, 200u, 370u}) for (int n : {1, 4, 12, 40, 110}) for (int per : {1, 2}) { vector<vector<size_t>> h; for (int i = 0; i < n; i += per) h.push_back(vector<size_t>(per, len)); hs.push_back({mc::fmt("%d lines of %zu, %d at a time", n, len, per), h}); }
    ctx.note_bound(mc::fmt("%zu histories, every disk operation failing once, from then on, or a write cut in half", hs.size())); 
    for (auto &h : hs) for (int mode = 1; mode <= 3; mode++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; uint64_t pts = 4; for (uint64_t at = 0; at <= pts; at++) { uint64_t *np = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctx.isolated([&] { ctx.clear_note(); ctx.note(h.first + mc::fmt(", disk operation %llu fails (%s)", (unsigned long long)at, mode == 1 ? "once" : mode == 2 ? "and all later ones" : "cut in half")); Bulk b(ctx); vfs::fail_mode = mode; vfs::fail_at = at; vfs::failed = false; uint64_t f0 = vfs::fault_points; b.base = "/vfs/command_11211_" + dt(sim::now_us()); string r = sim::rpc(b.c, "cmdlog start /vfs\r\n");
        if (r != "\tcommand logging started.\n\r\n") { if (r != "\tcommand logging failed to start.\n\r\n" || !vfs::failed) b.bad("reply", mc::esc(r)); } else { for (auto &x : h.second) { b.burst(x); b.rest(); } b.add("cmdlog stop"); r = sim::rpc(b.c, "cmdlog stop\r\n"); bool self = r == "\tcommand logging already stopped.\n\r\n"; if (!self && r != "\tcommand logging stopped.\n\r\n") b.bad("reply", mc::esc(r)); b.rest(); np[0] = vfs::fault_points - f0; Stats e; if (!b.stats(e)) return; vector<string> v; string all = b.content(v);
            if (b.want.compare(0, all.size(), all)) { b.bad("content", "the log is no prefix of what was asked"); return; } if (vfs::failed ? e.state != "stopped by disk flush error" : e.state != "stopped by explicit request" && e.state != "stopped by command log overflow") { b.bad("state", "the disk " + string(vfs::failed ? "failed" : "did not fail") + ", state " + e.state); return; } if (e.state == "stopped by explicit request" && all != b.want) { b.bad("lost", mc::fmt("%zu of %zu bytes in the log", all.size(), b.want.size())); return; } }
        vfs::fail_at = 0; vfs::failed = false; sim::advance_s(1); if (b.start()) { b.burst({10, 20}); b.finish(); } ctx.state(mc::hash(h.first + S((long long)at))); }, 60); if (at == 0) pts = np[0]; munmap(np, 4096); ctx.trace(); } ctx.sample(h.first + mc::fmt(": %llu disk operations", (unsigned long long)pts)); }
}
SUITE_B("C41", command_log_schedules, "tsan", BOTH, 100, 1500) {
    vfs::load({}); mc::boot_std({"-t", "4"}); conc::Engine e(ctx); e.connect(3); e.o.bound = ctx.thorough ? 3 : 2; e.o.fork = true; e.o.leak = false; e.o.lf = true; e.o.free_blocked = 0; e.o.max_runs = ctx.thorough ? 60000 : 3000; e.o.setup = [] { sim::early_timeouts = 2; vfs::load({}); uint64_t t = sim::now_us() % 1000000; sim::advance_us(1000000 - t + 2000); };
    vector<conc::Prog> ps; auto add = [&](const string &n, const Strs &init, vector<Strs> cs) { conc::Prog p; p.name = n; p.init = init; p.conns = cs; ps.push_back(p); };
    string st = "cmdlog start /vfs\r\n", sp = "cmdlog stop\r\n"; auto g = [](const string &k, size_t pad = 0) { return "get " + k + (pad ? " " + string(pad, 'p') : "") + "\r\n"; };
    add("command, then stop", {st}, {{g("a1"), sp}}); add("command next to stop", {st, g("i1")}, {{g("a1"), g("a2")}, {g("b1"), sp}}); add("stop and start", {st}, {{g("a1"), sp, "!wait", st, g("a2")}, {g("b1"), g("b2")}}); add("start next to commands", {}, {{st, g("a1")}, {g("b1"), g("b2")}}); add("three writers", {st}, {{g("a1"), g("a2")}, {g("b1"), g("b2")}, {g("c1"), g("c2")}}); add("start and start", {}, {{st, g("a1")}, {st, g("b1")}}); add("stop and stop", {st}, {{g("a1"), sp}, {g("b1"), sp}}); add("stats", {st}, {{g("a1"), "cmdlog stats\r\n"}, {g("b1"), sp}});
    auto dn = [](const string &k) { return "lop insert " + k + string(220, 'd') + " 0 1 pipe\r\nx\r\n"; }; auto le = [](const string &k) { return "lop insert " + k + string(220, 'd') + " 0 1\r\nx\r\n"; }; // the buffer is about to be written, to be full, to wrap
    add("about to be written", {st, g("i", 200), g("j", 200)}, {{g("a1", 100), g("a2")}, {g("b1", 100), sp}}); for (int k : {4, 6, 7, 8}) { Strs in{st}; for (int i = 0; i < k; i++) in.push_back(g("n" + S(i), 240)); add(mc::fmt("after %d long commands", k), in, {{g("a1", 240), g("a2", 240)}, {g("b1", 240), g("b2", 240)}}); add(mc::fmt("pipelined after %d long commands", k), in, {{dn("a1") + dn("a2") + dn("a3") + le("a4")}, {dn("b1") + dn("b2") + le("b3"), sp}}); add(mc::fmt("rotation after %d", k), in, {{g("a1", 240), g("a2", 100), sp}, {g("b1", 240)}}); }
    for (auto &p : ps) if (p.name.compare(0, 4, "pipe") == 0) p.split = false;
    for (auto &p : ps) for (auto &c : p.conns) c.erase(std::remove(c.begin(), c.end(), "!wait"), c.end());
    e.o.finish = [&](conc::Run &r) { for (int i = 0; i < 10; i++) sim::advance_us(20000); string s = sim::rpc(e.adm, sp); for (int i = 0; i < 10; i++) sim::advance_us(20000); Stats t; string raw; stats_of(e.adm, t, raw); r.extra = mc::fmt("%u %u ", t.entered, t.skipped) + t.state + "\n"; for (auto &f : files().f) for (auto &x : f.second) r.extra += x; };
    e.o.judge = [&](const conc::Run &r) -> string {
        vector<string> ls = model::split(r.extra, '\n'); if (ls.empty()) return "nothing"; unsigned en = 0, sk = 0; char state[100] = ""; sscanf(ls[0].c_str(), "%u %u %99[^\n]", &en, &sk, state); if (string(state) != "stopped by explicit request") return string("state: ") + state; if (!r.extra.empty() && r.extra.back() != '\n') return "content: the log ends in the middle of a line"; if (ls.back().empty()) ls.pop_back();
        struct Cmd { string text; uint64_t call, ret; int conn; int seen = 0; int idx = -1; }; vector<Cmd> cs; for (auto *v : {&r.init, &r.ops}) for (auto &o : *v) { size_t p = 0; while (p < o.req.size()) { size_t q = o.req.find("\r\n", p); cs.push_back({o.req.substr(p, q - p), o.call, o.ret, v == &r.init ? 99 : o.conn}); p = q + 2; if (cs.back().text.compare(0, 4, "lop ") == 0) p += 3; } } cs.push_back({"cmdlog stop", ~0ull - 1, ~0ull, 98});
        std::stable_sort(cs.begin(), cs.end(), [](const Cmd &a, const Cmd &b) { return a.call < b.call; }); std::map<int, int> last; for (size_t i = 1; i < ls.size(); i++) { if (ls[i].size() < 16 || ls[i][2] != ':' || ls[i][8] != '.') return "content: line " + mc::esc(ls[i], 80); size_t p = ls[i].find(' ', 16); string t = p == string::npos ? "" : ls[i].substr(p + 1); int hit = -1; for (size_t k = 0; k < cs.size(); k++) if (cs[k].text == t && !cs[k].seen) { if (last.count(cs[k].conn) && last[cs[k].conn] > (int)k) { hit = -2; continue; } hit = k; break; } if (hit == -2) return "order: " + mc::esc(ls[i], 80); if (hit < 0) return "content: nobody asked " + mc::esc(ls[i], 80); cs[hit].seen = 1; cs[hit].idx = i; last[cs[hit].conn] = hit; }
        // must be there: called after a start had answered, answered before the next stop was called
        unsigned missing = 0, opt = 0; string m; for (auto &c : cs) { if (c.seen || c.text == "cmdlog start /vfs") { continue; } bool on = false, maybe = false; for (auto &s : cs) if (s.text == "cmdlog start /vfs" && s.ret < c.call) on = true; else if (s.text == "cmdlog start /vfs" && s.call < c.ret) maybe = true; for (auto &s : cs) if (s.text == "cmdlog stop" && &s != &c && s.call < c.ret) on = false, maybe = true; if (on) { missing++; m = c.text; } else if (maybe) opt++; }
        if (missing != sk && !(sk > missing && sk <= missing + opt)) return mc::fmt("lost: %u commands are missing in the log (%s), %u were reported as skipped", missing, mc::esc(m, 30).c_str(), sk); return ""; };
    { vector<conc::Prog> w = ps; e.warm(w); }
    ctx.note_bound(mc::fmt("%zu programs of up to 3 connections, all schedules with at most %d deviations, the flush thread included", ps.size(), e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; e.explore(p); ctx.sample(p.name + "; so far " + e.report()); if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
