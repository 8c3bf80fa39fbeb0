// C33, C34 persistence: crash points and recovery
#include "persist.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using namespace pst; using std::string; using std::vector;
static void dump(mc::Ctx &ctx, const Strs &pre, const vector<Rec> &rs, const string &more = "") { ctx.clear_note(); for (auto &s : pre) ctx.note(s); for (auto &r : rs) { ctx.note("> " + mc::esc(r.req, 300)); ctx.note("< " + mc::esc(r.rep, 300)); } if (!more.empty()) ctx.note(more); }
// ------------------------------------------------------------------ C34: stop and restart
struct Run34 { mc::Ctx &ctx; Opts o; Strs keys; };
// one life executing steps, then a clean stop; then a second life whose contents are compared. returns false on a failure
static bool lives(mc::Ctx &ctx, const Opts &o, const Strs &steps, const string &how, const string &key) {
    Phase a; Strs keys = keys_of(steps); ctx.clear_note(); for (auto &s : steps) ctx.note("> " + mc::esc(s, 200));
    if (!life(ctx, {}, T0, o, [&](Life &l) { for (auto &s : steps) if (!l.step(s)) return; if (how == "stop") l.step("!stop"); else if (how == "ckpt") l.step("!ckpt"); else if (how == "ckptstop") { l.step("!ckpt"); l.step("!stop"); } else l.step("!idle"); }, a)) return false;
    if (!a.started) { ctx.fail("start", "the server does not start on an empty directory"); return false; }
    if (!a.err.empty()) { dump(ctx, {how}, a.recs); ctx.fail("run", a.err); return false; }
    model::Model m0; m0.now = T0 / 1000000; string err; auto ms = models(m0, a.recs, err); if (!err.empty()) { dump(ctx, {how}, a.recs); ctx.fail("reply", err); return false; }
    for (int again = 0; again < 2; again++) {
        Phase b; model::Model want = ms.back();
        if (!life(ctx, a.img, (a.clock / 1000000 + 1) * 1000000, o, [&](Life &l) { want = restarted(want, sim::now_s()); Seen s = observe(l, keys); string d = differs(s, want); if (!d.empty()) { l.ph->extra = d; return; }
            l.step(again ? "!idle" : "!stop"); }, b)) return false;
        ctx.trace(); ctx.evals(keys.size() * 7);
        if (!b.started) { dump(ctx, {how}, a.recs, "files: " + show(a.img)); ctx.fail(key + ":start", "the server does not start again"); return false; }
        if (!b.extra.empty()) { dump(ctx, {how}, a.recs, "files: " + show(a.img)); ctx.fail(key, mc::fmt("after restart %d (%s): ", again + 1, how.c_str()) + b.extra); return false; }
        if (!b.err.empty()) { dump(ctx, {how}, a.recs); ctx.fail("run", b.err); return false; }
        a.img = b.img; a.clock = b.clock; ms = {want};
    }
    ctx.state(mc::hash(ms.back().canon() + how)); ctx.trans(a.recs.size()); return true;
}

// commands that change (or might change) the item K; K is replaced by the key
static const Strs &muts() { static const Strs r = {kset("set", "K", "nv", 1), kset("set", "K", "nv", 2, 500), kset("add", "K", "nv", 1), kset("replace", "K", "nw", 3, -1), kset("append", "K", "nap"), kset("prepend", "K", "npre"), kset("cas", "K", "nc", 1, 0, "@L(K)"), "incr K 7\r\n", "decr K 100 9 60 12\r\n", "touch K 100\r\n", "touch K 0\r\n", "delete K\r\n",
    "setattr K expiretime=100\r\n", "setattr K expiretime=0\r\n", "setattr K maxcount=3\r\n", "setattr K readable=on\r\n", "setattr K maxbkeyrange=10\r\n", "setattr K maxbkeyrange=0x0100\r\n", "setattr K overflowaction=error\r\n", "setattr K overflowaction=smallest_trim maxcount=2 expiretime=77\r\n", "setattr K overflowaction=head_trim\r\n",
    "lop create K 1 100 5 head_trim\r\n", "lop insert K 0 3\r\nzzz\r\n", "lop insert K -1 30 create 3 0 5\r\nzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\r\n", "lop insert K 1 12\r\nmidmidmidmid\r\n", "lop delete K 0\r\n", "lop delete K 1..-1\r\n", "lop delete K -1..0\r\n", "lop delete K 0..-1 drop\r\n", "lop get K 0 delete\r\n", "lop get K -1..-2 delete\r\n", "lop get K 0..-1 drop\r\n",
    "sop create K 2 100 5 unreadable\r\n", "sop insert K 3\r\nzzz\r\n", "sop insert K 14 create 3 0 5\r\nzzzzzzzzzzzzzz\r\n", "sop delete K 1\r\na\r\n", "sop delete K 2 drop\r\nbb\r\n", "sop get K 1 delete\r\n", "sop get K 0 drop\r\n",
    "mop create K 3 100 5\r\n", "mop insert K n 14\r\nnnnnnnnnnnnnnn\r\n", "mop insert K n 1 create 3 0 5\r\nz\r\n", "mop upsert K f 12\r\nffffffffffff\r\n", "mop update K g 1\r\nu\r\n", "mop delete K 1 1\r\nf\r\n", "mop delete K 0 0\r\n", "mop delete K 3 2 drop\r\nf g\r\n", "mop get K 1 1 delete\r\ng\r\n", "mop get K 0 0 drop\r\n",
    "bop create K 3 100 3 smallest_silent_trim\r\n", bopi("K", "6", "zzzzzzzzzzzzzzzzzz", "0x0102"), bopi("K", "70", "z", "", "create 3 0 3 largest_trim"), bopi("K", "0x06", "binbinbinbin", "0x03", "create 3 0 3"), bopi("K", "1", "o"), "bop upsert K 5 2\r\nww\r\n", "bop upsert K 9 0x0a0b 12\r\nwwwwwwwwwwww\r\n", "bop update K 5 0x03 -1\r\n", "bop update K 9 1\r\nu\r\n", "bop update K 5 0 | 0x10 -1\r\n", "bop update K 5 0 2\r\nxy\r\n", "bop delete K 5\r\n", "bop delete K 0..100\r\n", "bop delete K 100..6 1\r\n", "bop delete K 0..100 0 EQ 0x01\r\n", "bop delete K 0..100 0 & 0x01 EQ 0x01,0x00 drop\r\n", "bop delete K 0..100 drop\r\n", "bop delete K 0x00..0xff 1\r\n", "bop get K 0..100 1 1 delete\r\n", "bop get K 5 delete\r\n", "bop get K 0x00..0xffff drop\r\n", "bop incr K 5 1\r\n", "bop incr K 77 3 41 0x02\r\n", "bop decr K 77 1 8\r\n"}; return r; }
static string rekey(const string &c, const string &k) { string r = c; size_t p = r.find(" K"); while (p != string::npos) { char n = p + 2 < r.size() ? r[p + 2] : 0; size_t e = r.find("\r\n"); if (p < e && (n == ' ' || n == '\r')) { r.replace(p + 1, 1, k); break; } p = r.find(" K", p + 1); } p = r.find("@L(K)"); if (p != string::npos) r.replace(p + 3, 1, k); return r; }
struct Hist { vector<Strs> ph; };            // commands of one key, phase by phase
struct Shape { uint64_t ck = 0; string end; int gap = 1; bool async = false; string name() const { return mc::fmt("checkpoint after phase mask %llx, %s, restart %d s later, %s logging", (unsigned long long)ck, end.c_str(), gap, async ? "asynchronous" : "synchronous"); } };
static vector<TypeInit> inits() { auto t = types("K"); vector<TypeInit> r; for (auto &x : t) if (string(x.name) != "tree1" && string(x.name) != "list0") r.push_back(x); r.push_back({"num", {kset("set", "K", "41", 2)}, {}}); r.push_back({"ranged", {"bop create K 1 0 10\r\n", "setattr K maxbkeyrange=50\r\n", bopi("K", "5", "five", "0x01"), bopi("K", "9", "nine")}, {}}); r.push_back({"binranged", {"bop create K 1 0 10\r\n", bopi("K", "0x0102", "five", "0x01"), "setattr K maxbkeyrange=0x0100\r\n"}, {}}); return r; }
// several independent histories in one life; how: where checkpoints happen, how it ends, when it starts again
static bool lives(mc::Ctx &ctx, const vector<Hist> &hs, const Shape &sh, Opts o, const string &keyname, bool single = false) {
    o.async = sh.async; o.ckpt = sh.ck != 0; o.args = {"-g", "10"}; size_t np = 0; for (auto &h : hs) np = std::max(np, h.ph.size()); Strs keys; for (size_t i = 0; i < hs.size(); i++) keys.push_back("k" + S(i)); ctx.clear_note(); ctx.note(sh.name());
    auto describe = [&](size_t i) { string r; for (size_t p = 0; p < hs[i].ph.size(); p++) { for (auto &c : hs[i].ph[p]) r += rekey(c, keys[i]) + "; "; if (sh.ck >> p & 1) r += "(checkpoint); "; } return r; };
    for (size_t i = 0; i < hs.size() && i < 100; i++) ctx.note(mc::esc(describe(i), 2000));
    Phase a; model::Model m0; m0.now = T0 / 1000000;
    auto check = [&](const Seen &s, const model::Model &want, string &why) -> int { // index of the key that differs, -1 none
        for (size_t i = 0; i < keys.size(); i++) { Seen x; for (size_t q = 0; q < s.req.size(); q++) if (q / 7 == i) { x.req.push_back(s.req[q]); x.rep.push_back(s.rep[q]); } why = differs(x, want); if (!why.empty()) return i; } return -1; };
    if (!life(ctx, {}, T0, o, [&](Life &l) { model::Model m = m0; for (size_t p = 0; p < np; p++) { for (size_t i = 0; i < hs.size(); i++) if (p < hs[i].ph.size()) for (auto &c : hs[i].ph[p]) { string r = rekey(c, keys[i]); if (c[0] != '+' && c.find("@L(") != string::npos) { l.cmd("gets " + keys[i] + "\r\n"); m.now = sim::now_s(); } if (r.find("@L(") != string::npos) { string e; model::Model t = m0; auto v = models(t, l.ph->recs, e); r = v.back().subst(r); } if (!l.step(r)) return; } if (sh.ck >> p & 1) { l.step("!ckpt"); } } l.step(sh.end == "stop" ? "!stop" : "!idle"); }, a)) return false;
    if (!a.started) { ctx.fail("start", "the server does not start on an empty directory"); return false; } if (!a.err.empty()) { dump(ctx, {sh.name()}, a.recs); ctx.fail("run", a.err); return false; }
    string err; auto ms = models(m0, a.recs, err); if (!err.empty()) { dump(ctx, {sh.name()}, a.recs); ctx.fail("reply", err); return false; } model::Model want = ms.back();
    for (int again = 0; again < 2; again++) {
        Phase b; uint64_t at = (a.clock / 1000000 + sh.gap) * 1000000;
        if (!life(ctx, a.img, at, o, [&](Life &l) { Seen s = observe(l, keys); string why; int i = check(s, restarted(want, sim::now_s()), why); if (i >= 0) { l.ph->extra = S(i) + " " + why; return; } l.step(again ? "!idle" : "!stop"); }, b)) return false;
        ctx.trace(); ctx.evals(keys.size() * 7); if (!b.started) { ctx.note("files: " + show(a.img)); ctx.fail("start", "the server does not start again"); return false; }
        if (!b.extra.empty()) { size_t i = atoi(b.extra.c_str()); if (!single && hs.size() > 1 && !lives(ctx, {hs[i]}, sh, o, keyname, true)) return false; dump(ctx, {sh.name()}, a.recs, "files: " + show(a.img)); ctx.fail(keyname, mc::fmt("after restart %d: ", again + 1) + mc::esc(describe(i)) + " => " + b.extra.substr(b.extra.find(" "))); return false; }
        if (!b.err.empty()) { ctx.fail("run", b.err); return false; } want = restarted(want, b.clock / 1000000); a.img = b.img; a.clock = b.clock;
    }
    for (size_t i = 0; i < hs.size(); i++) ctx.state(mc::hash(describe(i) + want.canon())); ctx.trans(a.recs.size()); return true;
}
static vector<Shape> shapes(int phases, bool thorough) { vector<Shape> r; for (uint64_t ck = 0; ck < (1u << phases); ck++) { if (!thorough && __builtin_popcount(ck) > 1) continue; r.push_back({ck, "stop", 1, (bool)(ck & 1)}); r.push_back({ck, "kill", 2000, false}); if (thorough) { r.push_back({ck, "stop", 2000, !(ck & 1)}); r.push_back({ck, "kill", 1, false}); } } return r; }
SUITE("C34", replay_pairs, "persist", BOTH) {
    auto ts = inits(); auto &A = muts(); auto sh = shapes(3, ctx.thorough); uint64_t cnt = 0;
    if (!ctx.thorough) sh = {{2, "kill", 2000, false}, {1, "stop", 1, true}};
    ctx.note_bound(mc::fmt("every item state (%zu) x every pair of %zu changing commands, %zu combinations of checkpoints between them, clean stop or kill, early or late restart; restarted twice", ts.size(), A.size(), sh.size()));
    for (auto &s : sh) for (auto &t : ts) for (auto &c1 : A) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; vector<Hist> hs; for (auto &c2 : A) hs.push_back({{t.init, {c1}, {c2}}}); lives(ctx, hs, s, Opts(), "pair"); if (cnt++ % 101 == 0) ctx.sample(string(t.name) + ": " + mc::esc(c1, 50) + " then each of the commands; " + s.name()); }
}

// ------------------------------------------------------------------ C33: kill at every file operation, restart from every possible disk image
struct Hist33 { Strs steps; size_t from = 0; Strs more; };      // crash points count from command number `from`; more: keys observed besides those of the commands
static string list_recs(const vector<Rec> &r, size_t acked) { string s; for (size_t i = 0; i < r.size(); i++) s += (i == acked ? "|crash| " : "") + mc::esc(r[i].req, 70) + "; "; return s; }
// what the server must show after recovering img: one of ms[lo..]
static bool recovers(mc::Ctx &ctx, const Image &img, uint64_t at, const Opts &o, const Strs &keys, const vector<model::Model> &ms, size_t lo, const string &more, const string &key, const string &what, Phase &b, const std::function<void()> &explain) {
    if (!life(ctx, img, at, o, [&](Life &l) {
        size_t boot_ops = vfs::oplog.size(); Seen s = observe(l, keys); string d0, d1; for (size_t j = lo; j < ms.size(); j++) { string d = differs(s, restarted(ms[j], sim::now_s())); if (d.empty()) l.ph->matched.push_back(j); else { if (d0.empty()) d0 = d; d1 = d; } }
        l.ph->mark = boot_ops; if (l.ph->matched.empty()) { l.ph->extra = "neither the acknowledged state (" + d0 + ") nor a later one (" + d1 + ")"; return; }
        if (!more.empty()) { if (!l.step(more)) return; l.step("!idle"); } }, b)) return false;
    ctx.trace(); ctx.evals(keys.size() * 7);
    if (!b.started) { explain(); ctx.fail(key + ":start", what + ": the server does not start again"); return false; }
    if (!b.extra.empty()) { explain(); ctx.fail(key, what + ": after restart " + b.extra); return false; }
    if (!b.err.empty()) { explain(); ctx.fail(key, what + ": " + b.err); return false; }
    return true;
}
static bool crash_check(mc::Ctx &ctx, const Hist33 &h, Opts o, bool every_byte, const string &key, bool rerec) {
    o.args = {"-g", "10"};     ctx.clear_note(); for (auto &s : h.steps) ctx.note("> " + mc::esc(s, 200)); Strs keys = keys_of(h.steps); for (auto &k : h.more) keys.push_back(k);
    Phase a; if (!life(ctx, {}, T0, o, [&](Life &l) { for (auto &s : h.steps) if (!l.step(s)) return; }, a)) return false;
    auto bad = [&](const string &k, const string &m) { dump(ctx, {}, a.recs); ctx.fail(k, m); return false; };
    if (!a.started) return bad("start", "the server does not start on an empty directory"); if (!a.err.empty() && !a.exited) return bad("run", a.err);
    model::Model m0; m0.now = T0 / 1000000; string err; auto ms = models(m0, a.recs, err); if (!err.empty()) return bad("reply", err);
    int ackend = a.recs.size(); while (ackend > 0 && a.recs[ackend - 1].rep.empty()) ackend--;
    bool ok = true; uint64_t at = (a.clock / 1000000 + 1) * 1000000;
    crashes({}, a.ops, ackend, every_byte, [&](const Crash &c) {
        if (!ok || (size_t)c.acked < h.from || ctx.out_of_time_fast()) return; ctx.state(mc::hash(ser(c.img)));
        auto explain = [&] { dump(ctx, {}, a.recs, "files: " + show(c.img)); ctx.note(c.what); }; size_t lo = o.async ? 0 : c.acked; if (h.from && lo < h.from && !o.async) lo = h.from;
        string z = "set zz" + S(c.acked) + " 0 0 1\r\nz\r\n"; Phase b; if (!recovers(ctx, c.img, at, o, keys, ms, lo, z, key, c.what, b, explain)) { ok = false; return; }
        // what it appended is read back by the next start
        Strs k2 = keys; k2.push_back("zz" + S(c.acked)); vector<model::Model> m2; for (auto j : b.matched) { string e; auto v = models(restarted(ms[j], b.recs[0].at), b.recs, e); if (!e.empty()) { explain(); ctx.fail(key, c.what + ": after restart: " + e); ok = false; return; } m2.push_back(v.back()); if (o.async) m2.push_back(v[0]); }
        Phase d; if (!recovers(ctx, b.img, (b.clock / 1000000 + 1) * 1000000, o, k2, m2, 0, "", key, c.what + ", restarted, \"" + mc::esc(z) + "\", killed", d, explain)) { ok = false; return; }
        // a crash during that recovery
        if (rerec && b.mark) { vector<vfs::Op> bo(b.ops.begin(), b.ops.begin() + b.mark); for (auto &x : bo) x.tag = 0; crashes(c.img, bo, 0, every_byte, [&](const Crash &c2) { if (!ok) return; Phase e; if (!recovers(ctx, c2.img, at + 2000000, o, keys, ms, lo, "", key, c.what + "; then crash during recovery: " + c2.what, e, explain)) ok = false; }); }
    });
    ctx.trans(a.ops.size()); return ok;
}
SUITE("C33", single_commands, "persist", BOTH) {
    auto ts = inits(); auto &A = muts(); ctx.note_bound(mc::fmt("every item state (%zu) x every one of %zu changing commands, killed at every file operation of the command with unsynced data lost or torn at %s; then restarted, changed, killed and restarted again", ts.size(), A.size(), ctx.thorough ? "every byte" : "every eighth byte"));
    uint64_t cnt = 0; for (auto &t : ts) for (auto &c : A) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; Hist33 h; for (auto &x : t.init) h.steps.push_back(rekey(x, "k0")); h.from = 0; for (auto &x : h.steps) if (x[0] != '+') h.from++; string q = rekey(c, "k0"); if (q.find("@L") != string::npos) continue; h.steps.push_back(q); crash_check(ctx, h, Opts(), ctx.thorough, "single", true); if (cnt++ % 31 == 0) ctx.sample(string(t.name) + ": " + mc::esc(q, 60)); }
}

// histories of several commands on several keys, killed at every file operation from the very first one
static vector<Hist33> histories(bool thorough, bool small) {
    vector<Hist33> r; string big(300, 'B'), huge(small ? 1000 : 70000, 'H'), hl = S(huge.size());
    vector<Strs> base = {
        {"set a 1 0 2\r\nv1\r\n", "set b 0 0 300\r\n" + big + "\r\n", "append a 0 0 1\r\nx\r\n", "delete b\r\n", "incr c 1 0 0 5\r\n"},
        {"lop insert l 0 1 create 1 0 3\r\na\r\n", "lop insert l -1 300\r\n" + big + "\r\n", "lop insert l 1 1\r\nc\r\n", "lop insert l -1 1\r\nd\r\n", "lop delete l 0..1\r\n", "lop get l 0..-1 drop\r\n"},
        {"sop insert s 1 create 1 0 10\r\na\r\n", "sop insert s 300\r\n" + big + "\r\n", "sop insert s 1\r\nc\r\n", "sop get s 0 delete\r\n", "sop insert s 1\r\nd\r\n"},
        {"mop insert m f 1 create 1 0 10\r\na\r\n", "mop upsert m g 300\r\n" + big + "\r\n", "mop update m f 1\r\nz\r\n", "mop delete m 0 0 drop\r\n", "mop insert m f 1 create 1 0 10\r\na\r\n"},
        {"bop insert t 1 1 create 1 0 3\r\na\r\n", "bop insert t 2 0x01 300\r\n" + big + "\r\n", "bop insert t 3 1\r\nc\r\n", "bop insert t 4 1\r\nd\r\n", "bop insert t 1 1\r\ne\r\n", "bop delete t 0..100 2 drop\r\n", "bop get t 0..100 drop\r\n"},
        {"set p:a 0 0 1\r\n1\r\n", "set p:b 0 0 1\r\n2\r\n", "set c 0 0 1\r\n3\r\n", "flush_prefix p\r\n", "set p:a 0 0 1\r\n4\r\n", "flush_all\r\n", "set c 0 0 1\r\n5\r\n"},
        {"set a 0 0 " + hl + "\r\n" + huge + "\r\n", "set b 0 0 1\r\n1\r\n", "prepend a 0 0 1\r\n!\r\n", "set a 0 0 1\r\n2\r\n"},
        {"set a 0 0 1\r\n1\r\n", "cas a 0 0 1 7777\r\n2\r\n", "touch a 50\r\n", "setattr a expiretime=60\r\n", "getattr a\r\n", "set a 0 0 2 noreply\r\n12\r\n", "delete a noreply\r\n", "set b 0 0 1\r\n1\r\n"},
        {"bop create t 0 0 3\r\n", "setattr t maxbkeyrange=10 overflowaction=largest_trim\r\n", "bop insert t 5 1\r\na\r\n", "bop insert t 14 1\r\nb\r\n", "bop insert t 1 1\r\nc\r\n", "bop incr t 77 1 1\r\n", "bop upsert t 5 0x0102 2\r\nzz\r\n", "bop update t 5 0 | 0x0f -1\r\n"}};
    for (auto &b : base) { Hist33 h; h.steps = b; r.push_back(h); }
    if (thorough) for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < base.size(); j++) if (i != j) { Hist33 h; size_t n = std::max(base[i].size(), base[j].size()); for (size_t k = 0; k < n; k++) { if (k < base[i].size()) h.steps.push_back(base[i][k]); if (k < base[j].size()) h.steps.push_back(base[j][k]); } r.push_back(h); }
    return r;
}
static void hist_suite(mc::Ctx &ctx, bool async, bool small) {
    auto hs = histories(ctx.thorough, small); ctx.note_bound(mc::fmt("%zu histories of 4 to %d commands of every type, killed at every file operation including those of the first start, unsynced data lost or torn at every %s; records are cut into flush units", hs.size(), ctx.thorough ? 16 : 8, ctx.thorough ? "eighth byte" : "eighth byte"));
    for (size_t i = 0; i < hs.size(); i++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; Opts o; o.async = async; crash_check(ctx, hs[i], o, false, async ? "async" : "history", true); ctx.sample(mc::esc(hs[i].steps[0], 40) + " ..."); }
}
SUITE("C33", histories_small_units, "psmall", BOTH) { hist_suite(ctx, false, true); }
SUITE("C33", histories, "persist", BOTH) { hist_suite(ctx, false, false); }
SUITE("C33", async_histories, "psmall", BOTH) { hist_suite(ctx, true, true); }
// crash points around and inside checkpoints (creation of the files, snapshot, switch of the log, removal of the old files), and in what is logged after them
static vector<Hist33> ckpt_histories(bool thorough) {
    vector<Hist33> r; string big(300, 'B');
    vector<Strs> a = {{"set a 1 0 2\r\nv1\r\n", "set b 0 100 300\r\n" + big + "\r\n"}, {"lop insert l 0 1 create 1 0 3\r\na\r\n", "lop insert l -1 300\r\n" + big + "\r\n", "lop insert l 1 1\r\nc\r\n"}, {"sop insert s 1 create 1 0 10\r\na\r\n", "sop insert s 300\r\n" + big + "\r\n"}, {"mop insert m f 1 create 1 0 10\r\na\r\n", "mop insert m g 300\r\n" + big + "\r\n"}, {"bop insert t 1 1 create 1 0 3\r\na\r\n", "bop insert t 2 0x01 300\r\n" + big + "\r\n", "bop insert t 3 1\r\nc\r\n"}};
    vector<Strs> b = {{"append a 0 0 1\r\nx\r\n", "delete b\r\n"}, {"lop insert l -1 1\r\nd\r\n", "lop delete l 0..1\r\n", "lop get l 0..-1 drop\r\n"}, {"sop get s 0 delete\r\n", "sop insert s 1\r\nd\r\n"}, {"mop update m f 1\r\nz\r\n", "mop delete m 0 0 drop\r\n"}, {"bop insert t 4 1\r\nd\r\n", "bop delete t 0..100 2 drop\r\n", "bop get t 0..100 drop\r\n"}};
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < (thorough ? b.size() : 1); j++) { size_t k = (i + j) % b.size(); Hist33 h; h.steps = a[i]; if (k != i) for (auto &c : a[k]) h.steps.push_back(c); h.steps.push_back("!ckpt"); for (auto &c : b[i]) h.steps.push_back(c); if (k != i) for (auto &c : b[k]) h.steps.push_back(c); h.steps.push_back("!ckpt"); h.steps.push_back("set q 0 0 300\r\n" + big + "\r\n"); h.steps.push_back("!ckpt"); h.steps.push_back("set q2 0 0 1\r\n1\r\n"); r.push_back(h); }
    Hist33 e; e.steps = {"set a 0 0 1\r\n1\r\n", "!ckpt", "flush_all\r\n", "set p:a 0 0 1\r\n1\r\n", "!ckpt", "flush_prefix p\r\n", "!ckpt", "set b 0 3 300\r\n" + big + "\r\n", "!ckpt"}; r.push_back(e); return r;
}
static void ckpt_suite(mc::Ctx &ctx, bool async) { auto hs = ckpt_histories(ctx.thorough); ctx.note_bound(mc::fmt("%zu histories with three checkpoints, killed at every file operation (also inside a checkpoint and inside the recovery), unsynced data lost or torn", hs.size())); for (auto &h : hs) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; Opts o; o.async = async; o.ckpt = true; crash_check(ctx, h, o, false, async ? "ckpt_async" : "ckpt", true); ctx.sample(mc::esc(h.steps[0], 40) + " ..."); } }
SUITE("C33", checkpoints, "persist", BOTH) { ckpt_suite(ctx, false); }
SUITE("C33", checkpoints_small_units, "psmall", BOTH) { ckpt_suite(ctx, false); }
SUITE("C33", checkpoints_async, "psmall", BOTH) { ckpt_suite(ctx, true); }
