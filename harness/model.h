// Reference model of the ASCII command set: a direct sequential specification.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <cstdint>
namespace model {
enum Type { KV, LIST, SET, MAP, BTREE };
enum Ovf { O_ERROR, O_HEAD, O_TAIL, O_SMALL, O_LARGE, O_SSMALL, O_SLARGE };
struct BKey {
    bool bin = false; uint64_t u = 0; std::string b;
    int cmp(const BKey &o) const;
    bool operator<(const BKey &o) const { return cmp(o) < 0; }
    bool operator==(const BKey &o) const { return cmp(o) == 0; }
    std::string str() const;
};
struct BElem { std::string eflag, val; };
typedef std::pair<BKey, BElem> BE;
struct Item {
    Type type = KV; uint32_t flags = 0; int64_t exp = 0; // absolute seconds; 0 never; -1 sticky
    std::string val; uint64_t ver = 0;
    std::deque<std::string> list; std::set<std::string> set; std::map<std::string, std::string> mp; std::map<BKey, BElem> bt;
    int32_t mcnt = 4000; Ovf ovf = O_TAIL; bool readable = true; bool trimmed = false;
    int bktype = 0; // 0 unknown 1 uint 2 binary
    bool has_range = false; BKey range;
    int64_t time = 0;
    size_t count() const;
};
struct Limits { int32_t max_list = 50000, max_set = 50000, max_map = 50000, max_btree = 50000; uint32_t max_elem = 16 * 1024; };
struct KeyCas { std::map<uint64_t, uint64_t> tok2ver, ver2tok; uint64_t last_tok = 0, first_tok = 0, last_ver = 0, first_ver = 0; };
struct Model {
    std::map<std::string, Item> kv;
    int64_t now = 0;              // server's notion of current second (absolute)
    Limits lim;
    std::map<std::string, int64_t> flush; // scope ("*" all, "p:<prefix>") -> time of effect (pending delayed flush)
    std::map<std::string, int64_t> flushed; // scope -> time of a delayed flush that took effect before it was replaced by another
    std::set<std::string> unsure;  // prefixes that may still exist although nothing live is left in them
    uint64_t serial = 0;
    std::map<std::string, KeyCas> cas;
    bool check_order = false;     // require a particular order for unordered replies (never)
    // Executes one complete request; actual: the server's reply (null: generate).  Returns the expected reply;
    // err is set when the actual reply is not allowed.
    std::string exec(const std::string &req, const std::string *actual, std::string &err);
    // substitutes @L(key) / @F(key) by the last / first cas token shown for the key (or 999999999999 when none)
    std::string subst(const std::string &req) const;
    std::string canon() const;    // canonical text of the abstract state (for hashing)
    Item *find(const std::string &k);       // live item or null
    bool dead(const std::string &k, const Item &it) const;
    void expire_all();                      // drop everything that is dead now
    size_t max_count(const Item &it) const;
};
std::vector<std::string> split(const std::string &s, char c = ' ');
bool parse_u64(const std::string &s, uint64_t &v);
bool parse_i64(const std::string &s, int64_t &v);
bool parse_u32(const std::string &s, uint32_t &v);
bool parse_i32(const std::string &s, int32_t &v);
bool parse_bkey(const std::string &s, BKey &k);
bool parse_hexflag(const std::string &s, std::string &v);
std::string prefix_of(const std::string &key);   // "" when none ("<null>")
// data length announced by a command line, -1 when it has no data block
long data_length(const std::string &line);
}
