// shim: shim_sasl.c
// C32: who may run what on a server that requires authentication
#include <cstring>
#include <cstdlib>
#include <map>
#include "bin.h"
#include "vfs.h"
using namespace ex; using namespace al; using std::string; using std::vector;
namespace {
enum { G_DEL = 1, G_KV = 2, G_LIST = 4, G_SET = 8, G_MAP = 16, G_BT = 32, G_SCAN = 64, G_FLUSH = 128, G_ATTR = 256, G_ADMIN = 512, G_ALL = 1023 };
int group(const string &cmd) { static std::map<string, int> m = {{"get", G_KV}, {"gets", G_KV}, {"mget", G_KV}, {"mgets", G_KV}, {"set", G_KV}, {"add", G_KV}, {"replace", G_KV}, {"append", G_KV}, {"prepend", G_KV}, {"cas", G_KV}, {"incr", G_KV}, {"decr", G_KV}, {"touch", G_KV}, {"delete", G_DEL}, {"lop", G_LIST}, {"sop", G_SET}, {"mop", G_MAP}, {"bop", G_BT}, {"getattr", G_ATTR}, {"setattr", G_ATTR}, {"flush_all", G_FLUSH}, {"flush_prefix", G_FLUSH}, {"scan", G_SCAN}, {"config", G_ADMIN}, {"dump", G_ADMIN}, {"scrub", G_ADMIN}, {"cmdlog", G_ADMIN}, {"lqdetect", G_ADMIN}, {"shutdown", G_ADMIN}};
    auto w = model::split(cmd.substr(0, cmd.find('\r'))); auto i = w.empty() ? m.end() : m.find(w[0]); return i == m.end() ? 0 : i->second; }
std::map<string, int> grants = {{"all", G_ALL}, {"kv", G_KV | G_DEL}, {"list", G_LIST | G_DEL}, {"set", G_SET | G_DEL}, {"map", G_MAP | G_DEL}, {"btree", G_BT | G_DEL}, {"scan", G_SCAN}, {"flush", G_FLUSH}, {"attr", G_ATTR}, {"admin", G_ADMIN}, {"none", 0}, {"odd", G_SCAN}, {"*kv", G_KV | G_DEL}, {"kvlist", G_KV | G_LIST | G_DEL}};
string au(const string &mech, const string &d) { return "sasl auth " + (mech.empty() ? "" : mech + " ") + S(d.size()) + "\r\n" + d + "\r\n"; }
const char *NO = "CLIENT_ERROR unauthorized\r\n";
void boot() { setenv("ARCUS_ACL_ZOOKEEPER", "1", 1); mc::boot_std({"-S", "-X", "scrub.so"}); }
int opened() { int c = sim::connect(); sim::run(); return c; }
int as(mc::Ctx &ctx, const string &u) { int c = opened(); string r = sim::rpc(c, au("PLAIN", u + ":ok")); if (r != "SASL_OK\r\n") ctx.fail("login", "the right password of " + u + " is answered " + mc::esc(r)); return c; }
struct Who { string name; Strs steps; int rights; };
vector<Who> people() { vector<Who> r = {{"nobody", {}, 0}, {"a wrong password", {au("PLAIN", "all:no")}, 0}, {"an exchange begun", {au("SCRAM", "all")}, 0}, {"an exchange failed at its second step", {au("SCRAM", "all"), au("", "no")}, 0}, {"an unknown mechanism", {au("NOSUCH", "all:ok")}, 0}, {"a user without an entry in the access list", {au("PLAIN", "ghost:ok")}, 0}, {"a failed repetition", {au("PLAIN", "all:ok"), au("PLAIN", "all:no")}, 0}, {"a repetition under way", {au("PLAIN", "all:ok"), au("SCRAM", "all")}, 0}, {"a repetition without an entry", {au("PLAIN", "all:ok"), au("PLAIN", "ghost:ok")}, 0}, {"fewer rights the second time", {au("PLAIN", "all:ok"), au("PLAIN", "none:ok")}, 0}};
    for (auto &g : grants) r.push_back({"the rights of " + g.first, {au("PLAIN", g.first + ":ok")}, g.second}); r.push_back({"all rights by two steps", {au("SCRAM", "all"), au("", "ok")}, G_ALL}); r.push_back({"other rights the second time", {au("PLAIN", "kv:ok"), au("SCRAM", "list"), au("", "ok")}, G_LIST | G_DEL}); return r; }
Strs commands() { Strs r; for (auto &c : all_cmds()) if (group(c)) r.push_back(c); for (auto c : {"mgets 1 1\r\nK\r\n", "gets K other\r\n", "get other K\r\n", "flush_all\r\n", "flush_all 5\r\n", "flush_prefix p\r\n", "flush_prefix <null>\r\n", "scan key 0\r\n", "scan prefix 0\r\n", "scan key 0 count 10 match *\r\n", "config memlimit 100\r\n", "config verbosity 1\r\n", "config verbosity\r\n", "config maxconns\r\n", "config max_list_size 5000\r\n", "dump start key /vfs/d\r\n", "dump stop\r\n", "scrub\r\n", "scrub stale\r\n", "cmdlog start\r\n", "cmdlog stop\r\n", "cmdlog stats\r\n", "lqdetect start\r\n", "lqdetect stats\r\n", "shutdown\r\n", "shutdown 9\r\n", "set K 0 0 1 noreply\r\nz\r\n", "delete K noreply\r\n", "lop insert K 0 1 noreply\r\nz\r\n", "lop insert K 0 1 pipe\r\nz\r\n", "incr K 1 noreply\r\n", "touch K 7\r\n", "setattr K expiretime=7\r\n", "flush_all noreply\r\n"}) r.push_back(c); return r; }
string look(int o, const TypeInit &t) { string s; for (auto &c : t.dump) s += sim::rpc(o, c); for (auto c : {"getattr K\r\n", "get nk\r\n", "getattr nk\r\n", "config memlimit\r\n", "config verbosity\r\n", "config max_list_size\r\n", "stats scrub\r\n", "stats dump\r\n", "cmdlog stats\r\n", "lqdetect stats\r\n", "scan key 0 count 100\r\n"}) s += sim::rpc(o, c); return s; }
}
SUITE("C32", every_command, "asasl", BOTH) {
    boot(); auto ty = types16(); auto ps = people(); Strs cs = commands(); ctx.note_bound(mc::fmt("ASCII: %zu stores x %zu ways of (not) being somebody x %zu commands: refused ones are answered so and change nothing, granted ones are carried out", ty.size(), ps.size(), cs.size()));
    for (auto &t : ty) for (auto &p : ps) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] {
        ctx.clear_note(); ctx.note(string("K is ") + t.name + ", the connection has " + p.name); int o = as(ctx, "all"); for (auto &c : t.init) { string r = sim::rpc(o, c); if (r == NO) ctx.fail("granted", "a connection with all rights is refused " + mc::esc(c)); } string before = look(o, t); int c = opened(); for (auto &s : p.steps) ctx.note(mc::esc(s) + " -> " + mc::esc(sim::rpc(c, s)));
        for (auto &cmd : cs) { int g = group(cmd); bool may = (p.rights & g) == g; bool quiet = cmd.find(" noreply") != string::npos; ctx.trans(1); ctx.state(mc::hash(p.name + t.name + cmd));
            if (!may) { string r = sim::rpc(c, cmd); if (!quiet && r.compare(0, strlen(NO), NO)) { ctx.note(mc::esc(cmd)); ctx.fail("refused", "with " + p.name + " the command " + mc::esc(cmd, 60) + " is answered " + mc::esc(r, 100)); } if (look(o, t) != before) { ctx.note(mc::esc(cmd)); ctx.fail("effect", "with " + p.name + " the refused command " + mc::esc(cmd, 60) + " has an effect"); } if (sim::closed(c)) ctx.fail("closed", "the connection is closed after " + mc::esc(cmd)); }
            else ctx.isolated([&] { ctx.note(mc::esc(cmd)); string r = sim::rpc(c, cmd); if (r.find("unauthorized") != string::npos) ctx.fail("granted", "with " + p.name + " the command " + mc::esc(cmd, 60) + " is refused"); string real; if (!quiet && p.rights != G_ALL) ctx.trans(1); }, 20); }
        for (auto s : {"version\r\n", "sasl mech\r\n"}) { string r = sim::rpc(c, s); if (r.find("unauthorized") != string::npos || r.find("ERROR") != string::npos) ctx.fail("open", string(s) + " is answered " + mc::esc(r)); }
        sim::send(c, "quit\r\n"); sim::run(); if (!sim::closed(c)) ctx.fail("open", "quit is not obeyed"); }, 100); ctx.trace(); }
    // keys that everybody may use must not open the way to others
    if (ctx.mine()) ctx.isolated([&] { int o = as(ctx, "all"); sim::rpc(o, kset("set", "secret", "s")); sim::rpc(o, kset("set", "arcus:x", "h")); int c = opened(); ctx.clear_note(); for (auto cmd : {"get arcus:x secret\r\n", "gets arcus:x secret\r\n", "get arcus:x arcus:y secret\r\n", "get arcus:none secret secret\r\n", "get secret arcus:x\r\n", "mget 14 2\r\narcus:x secret\r\n", "mget 6 1\r\nsecret\r\n", "get arcus secret\r\n", "get arcu:x\r\n"}) { string r = sim::rpc(c, cmd); ctx.note(mc::esc(cmd) + " -> " + mc::esc(r)); if (r.find("VALUE secret") != string::npos) ctx.fail("bypass", string("without authentication ") + mc::esc(cmd) + " is answered " + mc::esc(r)); } if (sim::rpc(o, "get secret\r\n").find("VALUE") == string::npos) ctx.fail("bypass", "gone"); });
    ctx.sample("a failed repetition / map / mop delete K 0 0 drop");
}
namespace {
struct Step { string name, text; };
struct Acc { int rights = 0; bool open = false, begun = false; string user; };
// what the exchange does to the rights; the expected reply is the prefix of the answer
string expect(Acc &a, const string &st) {
    if (st[0] == 'P') { string u = st.substr(2), pw = u.substr(u.find(':') + 1); u = u.substr(0, u.find(':')); a.begun = a.open = false; a.rights = 0; if (pw != "ok" || !grants.count(u)) return "AUTH_ERROR"; a.rights = grants[u]; return "SASL_OK"; }
    if (st[0] == 'S') { a.begun = true; a.open = false; a.rights = 0; a.user = st.substr(2); return "SASL_CONTINUE"; }
    if (st[0] == 'T') { a.rights = 0; a.open = false; if (a.begun && st == "T more") return "SASL_CONTINUE"; bool ok = a.begun && st == "T ok" && grants.count(a.user); a.begun = false; if (!ok) return "AUTH_ERROR"; a.rights = grants[a.user]; return "SASL_OK"; }
    if (st == "unknown") { a.rights = 0; a.open = a.begun = false; return "AUTH_ERROR"; }
    if (st == "mech") { if (a.rights) a.open = true; return "SASL_MECH PLAIN SCRAM"; }
    return "CLIENT_ERROR";
}
vector<Step> steps() { vector<Step> r; for (auto p : {"P all:ok", "P kv:ok", "P all:no", "P ghost:ok"}) r.push_back({p, au("PLAIN", string(p).substr(2))}); r.push_back({"S all", au("SCRAM", "all")}); r.push_back({"S list", au("SCRAM", "list")}); for (auto p : {"T ok", "T no", "T more"}) r.push_back({p, au("", string(p).substr(2))}); r.push_back({"T ", au("", "")}); r.push_back({"unknown", au("NOSUCH", "all:ok")}); r.push_back({"mech", "sasl mech\r\n"}); r.push_back({"?1", "sasl auth PLAIN x\r\n"}); r.push_back({"?2", "sasl auth x\r\n"}); r.push_back({"?3", "sasl what\r\n"}); r.push_back({"?4", "sasl auth " + string(40, 'M') + " 3\r\n"}); return r; }
Strs probes() { return {"get K\r\n", "set K 0 0 1\r\nz\r\n", "delete nk\r\n", "lop get L 0..-1\r\n", "sop get S 0\r\n", "bop get B 0..9\r\n", "mop get M 0 0\r\n", "getattr K\r\n", "flush_prefix nop\r\n", "scan key 0\r\n", "config verbosity\r\n"}; }
}
SUITE("C32", exchanges, "asasl", BOTH) {
    boot(); int o = as(ctx, "all"); for (auto &c : Strs{kset("set", "K", "v"), "lop create L 0 0 5\r\n", "sop create S 0 0 5\r\n", "bop create B 0 0 5\r\n", "mop create M 0 0 5\r\n"}) sim::rpc(o, c); auto st = steps(); Strs pr = probes(); int D = ctx.thorough ? 4 : 3; ctx.note_bound(mc::fmt("ASCII: every sequence of %d out of %zu authentication steps (good, bad, begun, continued, repeated, abandoned, malformed; users with all, some and no access entry), %zu commands of every group tried after each step; every such sequence again in one piece, and with its last message cut in two anywhere", D, st.size(), pr.size()));
    int n = st.size(); vector<int> ix(D, 0); for (;;) {
        if (ctx.mine()) { if (ctx.out_of_time()) return; ctx.isolated([&] { ctx.clear_note(); for (int mode = 0; mode < 3; mode++) { int c = opened(); Acc a; string all, want; auto probe = [&](const string &rest) { if (a.open) return; for (auto &p : pr) { int g = group(p); bool may = (a.rights & g) == g; string r = sim::rpc(c, p); ctx.trans(1); bool no = r.compare(0, strlen(NO), NO) == 0; if (no == may) { ctx.note(mc::esc(p) + " -> " + mc::esc(r)); ctx.fail(may ? "granted" : "refused", mc::fmt("after the exchange the command %s is answered %s", mc::esc(p, 40).c_str(), mc::esc(r, 80).c_str())); } if (p[0] == 's' && no && sim::rpc(o, "get K\r\n") != "VALUE K 0 1\r\nv\r\nEND\r\n") ctx.fail("effect", "a refused set has an effect"); if (p[0] == 's' && may) sim::rpc(o, kset("set", "K", "v")); } };
            if (mode == 0) { for (int i : ix) { string r = sim::rpc(c, st[i].text), e = expect(a, st[i].name); ctx.note(mc::esc(st[i].text) + " -> " + mc::esc(r)); if (r.compare(0, e.size(), e)) ctx.fail("reply", "the step " + st[i].name + " is answered " + mc::esc(r, 80) + ", not " + e); probe(""); } ctx.state(mc::hash(mc::fmt("%d %d", a.rights, a.begun))); }
            else if (mode == 1) { // everything in one piece, with a command behind each step
                string want; Strs e; for (int i : ix) { all += st[i].text + "get K\r\n"; e.push_back(expect(a, st[i].name)); e.push_back(a.open ? "" : a.rights & G_KV ? "VALUE K" : "CLIENT_ERROR unauthorized"); } string r = sim::rpc(c, all); size_t p = 0; for (auto &x : e) { string line = r.substr(p, r.find("\r\n", p) - p); if (x.empty()) x = line.compare(0, 5, "VALUE") ? "CLIENT_ERROR unauthorized" : "VALUE K"; if (line.compare(0, x.size(), x)) { ctx.note(mc::esc(all) + " -> " + mc::esc(r)); ctx.fail("onepiece", "sent in one piece, " + x + " is expected where " + mc::esc(line) + " comes"); } p = r.find("\r\n", p) + 2; if (x == "VALUE K") p = r.find("END\r\n", p) + 5; if (x == "SASL_CONTINUE") p = r.find("\r\n", p) + 2; } if (p != r.size()) ctx.fail("onepiece", "more answers than requests"); probe(""); }
            else { string last = st[ix[D - 1]].text; for (size_t cut = 1; cut < last.size(); cut++) { Acc b; int d = opened(); for (int k = 0; k + 1 < D; k++) { sim::rpc(d, st[ix[k]].text); expect(b, st[ix[k]].name); } sim::rpc(d, last.substr(0, cut)); if (cut % 3 == 0) { sim::shut(d); sim::run(); ctx.trans(1); continue; } string r = sim::rpc(d, last.substr(cut)); string e = expect(b, st[ix[D - 1]].name); ctx.trans(1); if (r.compare(0, e.size(), e)) { ctx.note(mc::fmt("cut after %zu: ", cut) + mc::esc(last)); ctx.fail("cut", "cut in two the step is answered " + mc::esc(r)); } if (!b.open && (sim::rpc(d, "get K\r\n")[0] == 'V') != !!(b.rights & G_KV)) ctx.fail("cut", "cut in two the step gives other rights"); sim::reset(d); sim::run(); } }
            if (mode % 2) sim::shut(c); else sim::reset(c); sim::run(); int c2 = opened(); string r = sim::rpc(c2, "get K\r\n"); if (r != NO) ctx.fail("next", "the next connection is answered " + mc::esc(r)); r = sim::rpc(c2, au("", "ok")); if (r.compare(0, 10, "AUTH_ERROR")) ctx.fail("next", "the next connection can go on with the exchange: " + mc::esc(r)); sim::reset(c2); sim::run(); } }, 60); ctx.trace(); }
        int k = D - 1; while (k >= 0 && ++ix[k] == n) ix[k--] = 0; if (k < 0) break; }
    // sizes of the authentication data
    for (string z : {"0", "1", "2047", "2048", "2049", "70000", "2147483645", "2147483646", "2147483647", "2147483648", "4294967293", "4294967294", "4294967295", "4294967296", "-1"}) for (bool m : {true, false}) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); int c = opened(); string q = "sasl auth " + string(m ? "PLAIN " : "") + z + "\r\n"; long n = atol(z.c_str()); ctx.note(mc::esc(q)); string r = sim::rpc(c, q); ctx.trans(1); if (n >= 0 && n < 100000) r += sim::rpc(c, string(n, 'x') + "\r\n"); else for (auto d : {"x", "\r", "\n", "get K\r\n", "all:ok\r\n"}) if (!sim::closed(c)) r += sim::rpc(c, d); if (r.find("SASL_OK") != string::npos || r.find("VALUE") != string::npos) ctx.fail("size", "authentication data of " + z + " bytes is answered " + mc::esc(r)); sim::reset(c); sim::run(); int d = opened(); if (sim::rpc(d, "get K\r\n") != NO) ctx.fail("size", "rights left over"); if (sim::rpc(o, "get K\r\n")[0] != 'V') ctx.fail("size", "the server does not go on"); }, 20); ctx.trace(); }
    ctx.sample("sasl auth PLAIN 6 all:ok; sasl auth SCRAM 4 list; sasl auth 2 no; get K");
}
SUITE("C32", memory, "asasl", BOTH) {
    boot(); auto st = steps(); ctx.note_bound("ASCII: every pair of authentication steps with each single allocation during the second failing, and every one from there on: rights only where the answer says so");
    int o = as(ctx, "all"); sim::rpc(o, kset("set", "K", "v")); for (auto &s1 : st) for (auto &s2 : st) { if (!ctx.mine()) continue; ctx.isolated([&] { for (int mode = 1; mode <= 2; mode++) for (int k = 1; k < 12; k++) { ctx.clear_note(); int c = opened(); Acc a; sim::rpc(c, s1.text); expect(a, s1.name); sim::malloc_fail_mode = mode; sim::malloc_fail_at = k; sim::malloc_failed = false; string r = sim::rpc(c, s2.text); sim::malloc_fail_at = 0; bool hit = sim::malloc_failed; ctx.note(mc::fmt("allocation %d %s ", k, mode == 1 ? "fails" : "and later fail") + mc::esc(s1.text + s2.text) + " -> " + mc::esc(r)); int was = a.rights; expect(a, s2.name); ctx.trans(1); bool said = r.compare(0, 7, "SASL_OK") == 0; if (!sim::closed(c)) { string g = sim::rpc(c, "get K\r\n"); bool has = g.find("VALUE K") != string::npos; if (has && !said && !(was & G_KV && s2.name[0] == 'm') && !(was & G_KV && r.find("SERVER_ERROR out of memory") != string::npos) && s2.name[0] != '?') ctx.fail("memory", "without the answer SASL_OK the connection has rights"); if (said && a.rights & G_KV && !has) ctx.fail("memory", "in spite of the answer SASL_OK the connection has no rights"); if (has && said && !(a.rights & G_KV)) ctx.fail("memory", "wrong rights"); } sim::reset(c); sim::run(); if (!hit) break; } }, 60); ctx.trace(); }
}
namespace {
void binary_gate(mc::Ctx &ctx, bool acl) {
    using namespace bin; auto ops = corpus(); struct B { string name; P p; }; vector<B> st; for (auto x : {"P all:ok", "P kv:ok", "P all:no", "P ghost:ok"}) { string y = x; st.push_back({y, P{0x21, "", "PLAIN", y.substr(2) == "x" ? "" : y.substr(2)}}); } st.push_back({"S all", P{0x21, "", "SCRAM", "all"}}); st.push_back({"S list", P{0x21, "", "SCRAM", "list"}}); for (auto x : {"ok", "no", "more", ""}) st.push_back({string("T ") + x, P{0x22, "", "SCRAM", x}}); st.push_back({"unknown", P{0x21, "", "NOSUCH", "all:ok"}}); st.push_back({"mech", P{0x20, "", "", ""}}); st.push_back({"?long", P{0x21, "", string(40, 'M'), "all:ok"}});
    int D = ctx.thorough ? 3 : 2; ctx.note_bound(mc::fmt("binary: every sequence of up to %d out of %zu authentication steps before each of %zu commands; refused ones are answered with the authentication error, close the connection and change nothing", D, st.size(), ops.size()));
    int o = opened(); sim::rpc(o, P{0x21, "", "PLAIN", "all:ok"}.str()); sim::rpc(o, kv(SET, "K", "41").str()); auto look = [&] { string r; for (auto k : {"K", "nk"}) { auto p = key(GET, k); r += sim::rpc(o, p.str()); r += sim::rpc(o, getattr(k).str()); } return r; }; string before = look();
    for (int len = 0; len <= D; len++) { vector<int> ix(len, 0); for (;;) {
        if (ctx.mine()) { if (ctx.out_of_time()) return; ctx.isolated([&] { for (size_t q = 0; q < ops.size(); q++) { auto &p = ops[q]; if (p.op == VERSION) continue; ctx.clear_note(); int c = opened(); Acc a; bool in = true; for (int i : ix) { string r = sim::rpc(c, st[i].p.str()); vector<R> rs; int was = a.rights; string e = expect(a, st[i].name); int code = e == "SASL_OK" ? 0 : e == "AUTH_ERROR" ? 0x20 : e == "SASL_CONTINUE" ? 0x21 : e == "CLIENT_ERROR" ? 4 : 0; ctx.note(st[i].name); if (st[i].name == "unknown" || st[i].name[0] == 'T') {} (void)was; if (!parse(r, rs) || rs.size() != 1 || rs[0].status != code) ctx.fail("binreply", "the step " + st[i].name + " is answered " + mc::esc(r, 80) + mc::fmt(", not with status %#x", code)); }
            if (a.open) { sim::reset(c); sim::run(); continue; } bool may = a.rights != 0; auto one = [&] { ctx.note(mc::fmt("opcode %#x", p.op)); string r = sim::rpc(c, p.str()); ctx.trans(1); vector<R> rs; if (!may) { if (!parse(r, rs) || rs.size() != 1 || rs[0].status != 0x20 || !sim::closed(c)) ctx.fail("binrefused", mc::fmt("opcode %#x without rights is answered ", p.op) + mc::esc(r, 80)); if (look() != before) ctx.fail("bineffect", mc::fmt("the refused opcode %#x has an effect", p.op)); } else if (parse(r, rs) && rs.size() && rs[0].status == 0x20) ctx.fail("bingranted", mc::fmt("opcode %#x is refused", p.op)); };
            if (may) { if (a.rights == G_ALL) ctx.isolated(one, 20); sim::reset(c); sim::run(); } else { one(); sim::forget(c); } ctx.state(mc::hash(mc::fmt("%d %d %d", a.rights, a.begun, p.op))); } }, 100); ctx.trace(); }
        int k = len - 1; while (k >= 0 && ++ix[k] == (int)st.size()) ix[k--] = 0; if (k < 0) break; } }
    // packets cut in two anywhere, the rest never sent or sent later; ASCII text on a connection that has not said anything yet
    for (auto &x : st) { if (!ctx.mine()) continue; ctx.isolated([&] { string t = x.p.str(); for (size_t cut = 1; cut < t.size(); cut++) for (int how = 0; how < 2; how++) { ctx.clear_note(); ctx.note(mc::fmt("%s cut after %zu", x.name.c_str(), cut)); int c = opened(); Acc a; string r0 = sim::rpc(c, t.substr(0, cut)); if (how) { sim::shut(c); sim::run(); } else { string e = expect(a, x.name); string r = r0 + sim::rpc(c, t.substr(cut)); vector<R> rs; int code = e == "AUTH_ERROR" ? 0x20 : e == "SASL_CONTINUE" ? 0x21 : e == "CLIENT_ERROR" ? 4 : 0; if (!parse(r, rs) || rs.size() != 1 || rs[0].status != code) ctx.fail("bincut", "cut in two the step is answered " + mc::esc(r)); r = sim::rpc(c, key(GET, "K").str()); parse(r, rs); if (!a.open && (rs.size() == 1 && rs[0].status == 0) != !!(a.rights & G_KV)) ctx.fail("bincut", "cut in two the step gives other rights"); sim::reset(c); sim::run(); } ctx.trans(1); for (auto &np : {key(GET, "K"), simple(NOOP)}) { int d = opened(); string r = sim::rpc(d, np.str()); vector<R> rs; if (!parse(r, rs) || rs.size() != 1 || rs[0].status != 0x20) ctx.fail("binnext", "the next connection is answered " + mc::esc(r)); sim::forget(d); } } }, 60); ctx.trace(); }
    if (ctx.mine()) ctx.isolated([&] { for (auto t : {"get K\r\n", "set K 0 0 1\r\nz\r\n", "flush_all\r\n", "stats\r\n", "sasl mech\r\n"}) { ctx.clear_note(); ctx.note(mc::esc(t)); int c = opened(); string r = sim::rpc(c, t); if (r.find("VALUE") != string::npos || r.find("STORED") != string::npos || r.find("OK") == 0 || look() != before) ctx.fail("ascii", string(mc::esc(t)) + " is answered " + mc::esc(r)); ctx.trans(1); sim::reset(c); sim::run(); } }, 20);
    // pipelined in one piece
    for (auto &x : st) for (auto &y : st) { if (!ctx.mine()) continue; ctx.isolated([&] { ctx.clear_note(); ctx.note(x.name + ", " + y.name + ", GET K in one piece"); int c = opened(); Acc a; expect(a, x.name); bool op = a.open; expect(a, y.name); op |= a.open; string r = sim::rpc(c, x.p.str() + y.p.str() + key(GET, "K").str()); vector<R> rs; if (!parse(r, rs) || rs.size() != 3) { ctx.fail("binpiece", "three packets in one piece are answered " + mc::esc(r)); return; } if (!op && (rs[2].status == 0) != !!(a.rights & G_KV)) ctx.fail("binpiece", mc::fmt("in one piece the command gets status %#x", rs[2].status)); ctx.trans(1); }, 20); ctx.trace(); }
    if (!acl) return;
    // the groups a user has
    for (auto &g : grants) { if (!ctx.mine()) continue; ctx.isolated([&] { std::map<int, int> need = {{GET, G_KV}, {SET, G_KV}, {ADD, G_KV}, {REPLACE, G_KV}, {APPEND, G_KV}, {PREPEND, G_KV}, {INCR, G_KV}, {DECR, G_KV}, {GETK, G_KV}, {SETQ, G_KV}, {GETQ, G_KV}, {GETKQ, G_KV}, {ADDQ, G_KV}, {REPLACEQ, G_KV}, {INCRQ, G_KV}, {DECRQ, G_KV}, {APPENDQ, G_KV}, {PREPENDQ, G_KV}, {DELETE, G_DEL}, {DELETEQ, G_DEL}, {FLUSH, G_FLUSH}, {FLUSHQ, G_FLUSH}, {FLUSHP, G_FLUSH}, {GETATTR, G_ATTR}, {SETATTR, G_ATTR}, {LCREATE, G_LIST}, {LINSERT, G_LIST}, {LDELETE, G_LIST}, {LGET, G_LIST}, {LINSERTQ, G_LIST}, {LDELETEQ, G_LIST}, {SCREATE, G_SET}, {SINSERT, G_SET}, {SDELETE, G_SET}, {SEXIST, G_SET}, {SGET, G_SET}, {SINSERTQ, G_SET}, {SDELETEQ, G_SET}, {BCREATE, G_BT}, {BINSERT, G_BT}, {BUPSERT, G_BT}, {BUPDATE, G_BT}, {BINSERTQ, G_BT}, {BUPSERTQ, G_BT}, {BUPDATEQ, G_BT}}; for (auto &p : ops) { auto i = need.find(p.op); if (i == need.end()) continue; bool may = (g.second & i->second) == i->second; ctx.clear_note(); ctx.isolated([&] { int c = opened(); sim::rpc(c, P{0x21, "", "PLAIN", g.first + ":ok"}.str()); string r = sim::rpc(c, p.str()); vector<R> rs; parse(r, rs); bool no = rs.size() && rs[0].status == 0x20; ctx.trans(1); if (no == may) ctx.fail(may ? "bingroup-granted" : "bingroup", mc::fmt("a user with the rights of %s sends the binary command %#x: ", g.first.c_str(), p.op) + (may ? "refused" : "carried out")); }, 20); } }, 60); ctx.trace(); }
    ctx.sample("SASL_AUTH SCRAM list; SASL_STEP no; SET K");
}
}
SUITE("C32", binary, "asasl", BOTH) { boot(); binary_gate(ctx, true); }
SUITE("C32", binary_default, "asan", BOTH) { mc::boot_std({"-S"}); for (auto &g : grants) g.second = G_ALL; grants["ghost"] = G_ALL; binary_gate(ctx, false); }
