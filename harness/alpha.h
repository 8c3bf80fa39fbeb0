// Shared command alphabets: item states of every type and commands of every type addressed to key K.
#pragma once
#include "explore.h"
namespace al {
using namespace ex; using std::string; using std::vector;
inline string S(long n) { return std::to_string(n); }
inline string bopi(const string &k, const string &bk, const string &v, const string &fl = "", const string &extra = "", const char *op = "insert") { return string("bop ") + op + " " + k + " " + bk + (fl.empty() ? "" : " " + fl) + " " + S(v.size()) + (extra.empty() ? "" : " " + extra) + "\r\n" + v + "\r\n"; }
struct TypeInit { const char *name; Strs init; Strs dump; };
inline vector<TypeInit> types(const string &K) {
    return { {"kv", {kset("set", K, "v", 5)}, {"gets " + K + "\r\n"}}, {"kvexp", {kset("set", K, "v", 5, 1000)}, {"gets " + K + "\r\n"}},
        {"list0", {"lop create " + K + " 3 0 10\r\n"}, {"lop get " + K + " 0..-1\r\n"}}, {"list", {"lop create " + K + " 3 0 10 head_trim\r\n", "lop insert " + K + " -1 1\r\na\r\n", "lop insert " + K + " -1 1\r\nb\r\n", "lop insert " + K + " -1 1\r\nc\r\n"}, {"lop get " + K + " 0..-1\r\n"}},
        {"set", {"sop create " + K + " 4 500 10\r\n", "sop insert " + K + " 1\r\na\r\n", "sop insert " + K + " 2\r\nbb\r\n"}, {"sop get " + K + " 0\r\n"}},
        {"map", {"mop create " + K + " 4 0 0\r\n", "mop insert " + K + " f 1\r\na\r\n", "mop insert " + K + " g 2\r\nbb\r\n"}, {"mop get " + K + " 0 0\r\n"}},
        {"tree0", {"bop create " + K + " 1 0 10 largest_trim\r\n"}, {"bop get " + K + " 0..100\r\n"}},
        {"tree", {"bop create " + K + " 1 0 10\r\n", bopi(K, "5", "five", "0x01"), bopi(K, "9", "nine"), bopi(K, "30", "xxx")}, {"bop get " + K + " 0..100\r\n"}},
        {"tree1", {"bop create " + K + " 1 0 10 error\r\n", bopi(K, "5", "five", "0x01")}, {"bop get " + K + " 0..100\r\n"}},
        {"bintree", {"bop create " + K + " 1 0 10 largest_silent_trim\r\n", bopi(K, "0x0102", "five", "0x01"), bopi(K, "0x0110", "nine")}, {"bop get " + K + " 0x0000..0xffff\r\n"}},
        {"trimmed", {"bop create " + K + " 1 0 2 smallest_trim\r\n", bopi(K, "5", "five", "0x01"), bopi(K, "9", "nine"), bopi(K, "30", "xxx")}, {"bop get " + K + " 10..100\r\n"}},
        {"unreadable", {"sop create " + K + " 4 0 10 unreadable\r\n", "sop insert " + K + " 1\r\na\r\n"}, {"sop get " + K + " 0\r\n"}},
        {"untree", {"bop create " + K + " 4 0 10 unreadable\r\n", bopi(K, "7", "a")}, {"bop get " + K + " 0..10\r\n"}},
        {"sticky", {kset("set", K, "v", 5, -1)}, {"get " + K + "\r\n"}}, {"none", {}, {"get " + K + "\r\n"}} };
}
inline Strs all_cmds() {
    Strs r = {"get K\r\n", "gets K\r\n", "mget 1 1\r\nK\r\n", kset("set", "K", "n", 1), kset("add", "K", "n", 1), kset("replace", "K", "n", 1), kset("append", "K", "n", 1), kset("prepend", "K", "n", 1), kset("cas", "K", "n", 1, 0, "1"), kset("cas", "K", "n", 1, 0, "@L(K)"), "incr K 1\r\n", "decr K 1\r\n", "incr K 1 0 0 5\r\n", "touch K 100\r\n", "getattr K\r\n", "getattr K count\r\n", "setattr K expiretime=100\r\n", "setattr K maxcount=5\r\n", "setattr K readable=on\r\n", "setattr K maxbkeyrange=10\r\n", "setattr K overflowaction=error\r\n",
        "lop create K 0 0 5\r\n", "lop insert K 0 1\r\nz\r\n", "lop insert K 0 1 create 0 0 5\r\nz\r\n", "lop insert K 9 1\r\nz\r\n", "lop delete K 0\r\n", "lop delete K 0..-1 drop\r\n", "lop get K 0..-1\r\n", "lop get K 0 delete\r\n", "lop get K 0..-1 drop\r\n", "lop get K 9\r\n",
        "sop create K 0 0 5\r\n", "sop insert K 1\r\nz\r\n", "sop insert K 1 create 0 0 5\r\nz\r\n", "sop delete K 1\r\na\r\n", "sop delete K 1 drop\r\na\r\n", "sop exist K 1\r\na\r\n", "sop get K 0\r\n", "sop get K 0 delete\r\n", "sop get K 1 drop\r\n", "sop delete K 1\r\nq\r\n",
        "mop create K 0 0 5\r\n", "mop insert K f 1\r\nz\r\n", "mop insert K n 1 create 0 0 5\r\nz\r\n", "mop upsert K f 1\r\nz\r\n", "mop update K f 1\r\nu\r\n", "mop update K nope 1\r\nu\r\n", "mop delete K 1 1\r\nf\r\n", "mop delete K 0 0 drop\r\n", "mop get K 0 0\r\n", "mop get K 1 1\r\nf\r\n", "mop get K 4 1 delete\r\nnope\r\n", "mop get K 0 0 drop\r\n",
        "bop create K 0 0 5\r\n", bopi("K", "5", "z"), bopi("K", "6", "z", "0x02", "create 0 0 5"), bopi("K", "0x06", "z"), "bop upsert K 5 1\r\nw\r\n", "bop update K 5 0x03 1\r\nu\r\n", "bop update K 99 1\r\nu\r\n", "bop update K 5 0 | 0x10 -1\r\n", "bop delete K 5\r\n", "bop delete K 0..100 drop\r\n", "bop delete K 0x00..0xff\r\n", "bop get K 5\r\n", "bop get K 0..100 delete\r\n", "bop get K 0..100 drop\r\n", "bop get K 0x00..0xff\r\n", "bop get K 90..99\r\n", "bop count K 0..100\r\n", "bop count K 0x00..0xff\r\n", "bop incr K 5 1\r\n", "bop decr K 7 1 8\r\n", "bop position K 5 asc\r\n", "bop gbp K asc 0..9\r\n", "bop pwg K 5 asc 2\r\n", "bop mget 1 1 0..100 5\r\nK\r\n", "bop smget 1 1 0..100 5 duplicate\r\nK\r\n", "bop get K 0..100 0 EQ 0x01\r\n", "delete K\r\n", "flush_prefix K\r\n" };
    return r;
}
inline vector<TypeInit> types16() { auto t = types("K"); vector<TypeInit> r; for (auto &x : t) if (string(x.name) != "kvexp" && string(x.name) != "tree1") r.push_back(x);
    r.push_back({"unlist", {"lop create K 4 0 3 unreadable\r\n", "lop insert K 0 1\r\na\r\n"}, {}}); r.push_back({"unmap", {"mop create K 4 0 3 unreadable\r\n", "mop insert K f 1\r\na\r\n"}, {}}); r.push_back({"num", {kset("set", "K", "41", 2)}, {}}); r.push_back({"fullerr", {"bop create K 0 0 2 error\r\n", bopi("K", "5", "1"), bopi("K", "7", "2", "0x01")}, {}}); return r; }
inline Strs bad_cmds() { // refused or broken commands that have to give everything back
    Strs r; for (auto &c : Strs{"set K 0 0 5", "add K 0 0 5", "append K 0 0 5", "cas K 0 0 5 1", "lop insert K 0 5", "lop insert K 0 5 create 0 0 3", "sop insert K 5", "sop insert K 5 create 0 0 3", "sop delete K 5", "sop exist K 5", "mop insert K ff 5", "mop insert K ff 5 create 0 0 3", "mop update K f 5", "mop upsert K f 5", "mop delete K 5 1", "mop get K 5 1", "bop insert K 8 5", "bop insert K 8 0x01 5 create 0 0 3", "bop upsert K 5 5", "bop update K 5 5", "bop update K 5 0x01 5", "mget 5 1", "bop mget 5 2 0..9 5", "bop smget 5 1 0..9 5 duplicate"}) { r.push_back(c + "\r\nabcdeXY\r\n"); r.push_back(c + "\r\nabcde\r\n"); r.push_back(c + "\r\na b c\r\n"); }
    for (auto &c : Strs{"set K 0 0 2000000", "append K 0 0 2000000", "lop insert K 0 20000", "sop insert K 20000", "mop insert K f 20000", "bop insert K 5 20000", "bop upsert K 5 20000", "bop update K 5 20000"}) { auto t = model::split(c); for (auto &x : t) if (x == "20000" || x == "2000000") { r.push_back(c + "\r\n" + string(atol(x.c_str()), 'x') + "\r\n"); break; } }
    return r;
}
}
