// C31: the allocator of item memory, called directly
#include <cstring>
#include <cmath>
#include <unistd.h>
#include <cstdlib>
#include <map>
#include <algorithm>
#include "alpha.h"
extern "C" {
void *slabs_alloc(const size_t size, unsigned int id); void slabs_free(void *ptr, size_t size, unsigned int id); unsigned int slabs_clsid(const size_t size); unsigned int slabs_space_size(const size_t size); int slabs_set_memlimit(size_t); extern int MAX_SM_VALUE_LEN;
typedef void (*ADD)(const char *key, const uint16_t klen, const char *val, const uint32_t vlen, const void *cookie); void slabs_stats(ADD add, const void *c);
void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));
}
using std::string; using std::vector; using al::S;
namespace {
struct B { char *p; size_t n; unsigned id; unsigned tag; };
std::map<string, long long> st; void put(const char *k, const uint16_t kl, const char *v, const uint32_t vl, const void *) { st[string(k, kl)] = atoll(string(v, vl).c_str()); }
struct Arena {
    mc::Ctx &ctx; vector<B> live; std::map<char *, size_t> iv; unsigned next = 1; long long limit; string hist; bool keep = true; Arena(mc::Ctx &c, long long lim) : ctx(c), limit(lim) {}
    [[noreturn]] void bad(const char *k, const string &m) { ctx.clear_note(); ctx.note(hist); ctx.fail(k, m); _exit(0); }
    // what a user of the block writes: like items and elements, the third byte is never zero; everything else is arbitrary, also things that look like the allocator's own marks
    static unsigned char pat(unsigned tag, size_t i, size_t n) { if (i == 2) return 1 + tag % 7; if (i < 2 || i == 3) return 0; switch (tag % 4) { case 0: return 0; case 1: return 0xff; case 2: return (unsigned char)(i * 31 + tag); } return i + 8 >= n ? (i & 1 ? 0 : 1) : (unsigned char)(tag + i % 5); }
    static void span(size_t n, size_t &a, size_t &b) { if (n <= 600) { a = n; b = n; } else { a = 200; b = n - 200; } }
    void fill(B &x) { size_t a, b; span(x.n, a, b); for (size_t i = 0; i < a; i++) x.p[i] = pat(x.tag, i, x.n); for (size_t i = b; i < x.n; i++) x.p[i] = pat(x.tag, i, x.n); }
    void intact(const B &x) { size_t a, b; span(x.n, a, b); for (size_t i = 0; i < a; i++) if ((unsigned char)x.p[i] != pat(x.tag, i, x.n)) bad("content", mc::fmt("byte %zu of a block of %zu bytes has changed", i, x.n)); for (size_t i = b; i < x.n; i++) if ((unsigned char)x.p[i] != pat(x.tag, i, x.n)) bad("content", mc::fmt("byte %zu of a block of %zu bytes has changed", i, x.n)); }
    bool alloc(size_t n) { unsigned id = slabs_clsid(n); if (keep) hist += "+" + S(n) + " "; char *p = (char *)slabs_alloc(n, id); ctx.trans(1); if (!p) return false; if ((uintptr_t)p % 8) bad("align", mc::fmt("a block of %zu bytes is not aligned", n)); if (__asan_region_is_poisoned && __asan_region_is_poisoned(p, n)) bad("range", mc::fmt("a block of %zu bytes reaches beyond the memory the allocator has", n)); auto it = iv.upper_bound(p); if (it != iv.end() && p + n > it->first) bad("overlap", mc::fmt("a block of %zu bytes overlaps one in use", n)); if (it != iv.begin()) { --it; if (it->first + it->second > p) bad("overlap", mc::fmt("a block of %zu bytes overlaps one in use", n)); } iv[p] = n; live.push_back({p, n, id, next++}); fill(live.back()); return true; }
    void release(size_t i) { B x = live[i]; if (keep) hist += "-" + S(i) + " "; intact(x); live.erase(live.begin() + i); iv.erase(x.p); slabs_free(x.p, x.n, x.id); ctx.trans(1); }
    void contents() { for (auto &x : live) intact(x); }
    long long malloced = 0, blocks = 0;
    void figures(bool sums = true) { st.clear(); slabs_stats(put, "x"); long long small = 0; std::map<unsigned, std::pair<long long, long long>> big; for (auto &x : live) if ((long)x.n <= MAX_SM_VALUE_LEN) small += slabs_space_size(x.n); else { big[x.id].first++; big[x.id].second += x.n; } if (st["SM:used_total_space"] != small) bad("account", mc::fmt("%lld bytes are said to be used for small blocks, the live ones take %lld", st["SM:used_total_space"], small)); long long total = 0, over = 0; for (unsigned i = 0; i < 256; i++) { string q = S(i) + ":"; if (!st.count(q + "chunk_size")) continue; long long page = st[q + "chunk_size"] * st[q + "chunks_per_page"]; total += page * st[q + "total_pages"]; if (i == 0 && st[q + "reserved_pages"]) over += page * std::min(st[q + "total_pages"], std::max(20LL, st[q + "reserved_pages"] / 20)); else if (st[q + "total_pages"] <= st[q + "reserved_pages"]) over += page * st[q + "total_pages"]; if (i == 0) { blocks = st[q + "used_chunks"]; if (small == 0 && st[q + "used_chunks"]) bad("merge", mc::fmt("no small block is in use, but %lld blocks of memory are still taken for them", blocks)); } else if (st[q + "used_chunks"] != big[i].first || st[q + "mem_requested"] != big[i].second) bad("account", mc::fmt("class %u: %lld chunks and %lld bytes are said to be used, not %lld and %lld", i, st[q + "used_chunks"], st[q + "mem_requested"], big[i].first, big[i].second)); if (st[q + "used_chunks"] + st[q + "free_chunks"] + st[q + "free_chunks_end"] != st[q + "total_chunks"]) bad("account", mc::fmt("class %u: used, free and unused chunks do not add up", i)); }
        malloced = st["total_malloced"]; if (total != malloced) bad("account", mc::fmt("%lld bytes are said to be allocated, the pages take %lld", malloced, total)); if (limit && malloced > limit + over) bad("limit", mc::fmt("%lld bytes are allocated, %lld are allowed", malloced, limit)); if (small && sums) { long long f = st["SM:free_small_space"] + st["SM:free_avail_space"]; if (f < 0 || small + f > blocks * 262144 || small + f < blocks * (262144 - 64)) bad("account", mc::fmt("the %lld blocks for small memory hold %lld used and %lld free bytes", blocks, small, f)); } }
    void drain(int how) { while (!live.empty()) release(how == 0 ? 0 : how == 1 ? live.size() - 1 : live.size() / 2); figures(); for (auto k : {"SM:free_small_space", "SM:free_avail_space"}) if (st[k]) bad("account", string("nothing is in use but ") + k + " is " + S(st[k])); }
    uint64_t shape() { string s; char *base = iv.empty() ? nullptr : iv.begin()->first; for (auto &x : iv) s += S((long)(x.first - base)) + ":" + S(x.second) + " "; return mc::hash(s); }
};
struct Conf { const char *name; vector<string> args; long long limit; };
vector<Conf> confs() { return {{"default", {}, 64 << 20}, {"items of up to 100 kB", {"-I", "100k"}, 64 << 20}, {"items of up to 300 kB", {"-I", "300k", "-m", "20"}, 20 << 20}, {"large pages", {"-L", "-m", "40"}, 40 << 20}, {"growth 1.05", {"-f", "1.05", "-n", "200"}, 64 << 20}, {"items of up to 4 MB", {"-I", "4m", "-m", "100"}, 100 << 20}}; }
typedef vector<size_t> Sizes;
vector<Sizes> alphabets(const Conf &c) { size_t big = !strcmp(c.name, "items of up to 100 kB") ? 100000 : 131000; vector<Sizes> r = {{1, 28, 29, 37}, {28, 60, 124, 1020}, {1020, 1021, 1029, 3068}, {28, 3000, 20000, 49148}, {49148, 24000, big, 60}}; size_t mx = !strcmp(c.name, "items of up to 100 kB") ? 102400 : 262144; r.push_back({49149, mx, 49148, 36}); r.push_back({31740, 31741, 15356, 36}); return r; }
// the states from which the sequences start
void prepare(Arena &a, int base) { switch (base) { case 1: for (int i = 0; i < 40; i++) a.alloc(36); for (int i = 39; i >= 0; i -= 2) a.release(i); break; case 2: for (int i = 0; i < 30; i++) a.alloc(Sizes{28, 60, 1020, 3068, 20000}[i % 5]); for (int i = 28; i >= 0; i -= 2) a.release(i); break; case 3: for (int i = 0; i < 300; i++) a.alloc(100); for (int i = 0; i < 3; i++) a.alloc(49148); for (int i = 0; i < 60; i++) a.release(5 * i / 2); break; case 4: for (int i = 0; i < 12; i++) a.alloc(40000); for (int i = 0; i < 6; i++) a.release(i); for (int i = 0; i < 20; i++) a.alloc(30); break; } }
}
SUITE_B("C31", sequences, "asan", BOTH, 200, 3000) {
    int D = ctx.thorough ? 7 : 6; ctx.note_bound(mc::fmt("every sequence of %d requests and releases (of any block in use) over 7 alphabets of 4 sizes around the class boundaries, in 6 configurations, from the empty state; of %d from 4 fragmented ones", D, D - 1));
    for (auto &c : confs()) { bool booted = false; for (int base = 0; base < 5; base++) for (auto &al : alphabets(c)) for (int f = 0; f < 4; f++) for (int g = 0; g < 5; g++) { if (&c != &confs()[0] && strcmp(c.name, "default") && base > 0 && base < 3 && !ctx.thorough) continue; if (!ctx.mine()) continue; if (ctx.out_of_time()) return; (void)booted; ctx.isolated([&] {
        ctx.note(string(c.name)); mc::boot_std(c.args); int d = base ? D - (ctx.thorough ? 1 : 2) : D; if (strcmp(c.name, "default") && !ctx.thorough) d--; vector<int> ix(d, 0); ix[0] = f; ix[1] = g; for (;;) {
            Arena a(ctx, c.limit); a.hist = string(c.name) + mc::fmt(", state %d: ", base); prepare(a, base); a.figures(); size_t fixed = a.live.size(); bool ok = true; int i = 0; for (; i < d; i++) { bool first = true; for (int k = i + 1; k < d; k++) if (ix[k]) first = false; int op = ix[i]; if (op < 4) { if (!a.alloc(al[op])) a.bad("null", mc::fmt("%zu bytes are refused although the memory is almost empty", al[op])); } else { size_t j = op - 4; if (j >= a.live.size() || (base && j >= 6)) { ok = false; break; } a.release(base ? (j < 3 ? j * fixed / 3 % a.live.size() : a.live.size() - 1 - (j - 3)) : j); } if (first) { a.contents(); a.figures(); ctx.state(a.shape()); } }
            if (ok) { a.drain(ix[d - 1] % 3); ctx.trace(); } else { Arena b(ctx, c.limit); while (!a.live.empty()) a.release(0); }
            int k = ok ? d - 1 : i; for (int q = k + 1; q < d; q++) ix[q] = 0; if (!ok) { ix[k] = 99; } while (k >= 2 && (ix[k] >= 99 || ++ix[k] > 3 + d)) ix[k--] = 0; if (k < 2) break; } }, 300); } }
    ctx.sample("+28 +29 -0 +1 -1");
}
SUITE("C31", orders, "asan", BOTH) {
    int N = ctx.thorough ? 7 : 5; ctx.note_bound(mc::fmt("%d neighbouring blocks of every combination of 3 sizes, released in every order", N)); vector<Sizes> als = {{28, 36, 60}, {28, 1021, 3068}, {36, 20000, 49148}}; for (auto &al : als) for (int w = 0; w < (int)pow(3, N); w++) { if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] { mc::boot_std(); vector<int> o(N); for (int i = 0; i < N; i++) o[i] = i; do { Arena a(ctx, 64 << 20); int x = w; for (int i = 0; i < N; i++, x /= 3) a.alloc(al[x % 3]); auto blocks = a.live; string h = "release in the order"; for (int i : o) { h += " " + S(i); a.hist += "-" + S(i) + " "; for (size_t k = 0; k < a.live.size(); k++) if (a.live[k].p == blocks[i].p) { a.keep = false; a.release(k); a.keep = true; break; } } a.contents(); a.figures(); ctx.trace(); } while (std::next_permutation(o.begin(), o.end())); }, 60); ctx.state(w * 10 + (&al - &als[0])); }
}
SUITE("C31", full, "asan", BOTH) {
    int D = ctx.thorough ? 6 : 4; vector<Conf> cs = {{"2 MB", {"-m", "2", "-I", "256k"}, 2 << 20}, {"4 MB in large pages", {"-L", "-m", "4", "-I", "256k"}, 4 << 20}, {"3 MB in pages of 700 kB", {"-m", "3", "-I", "700k"}, 3 << 20}}; vector<Sizes> als = {{49148, 20476, 60}, {1020, 3068, 124}, {60000, 49148, 28}, {200000, 100000, 36}};
    ctx.note_bound(mc::fmt("memory filled to the last byte with blocks of each size, then every sequence of %d releases and requests; what was released can be had again; emptied, all of it can be had again in any other sizes", D)); for (auto &c : cs) for (auto &al : als) for (int fillw = 0; fillw < 4; fillw++) for (int f = 0; f < 7; f++) { if (!ctx.thorough && (fillw == 1 || fillw == 2) && f != fillw) continue; if (!ctx.mine()) continue; if (ctx.out_of_time()) return; ctx.isolated([&] {
        mc::boot_std(c.args); Arena a(ctx, c.limit); a.keep = false; auto fill = [&](int how) { long n = 0; for (bool any = true; any;) { any = false; for (int k = 0; k < 3; k++) if (how == 3 || how == k) { if (al[k] < 1000 && n > 5000) continue; if (a.alloc(al[k])) { any = true; n++; } } } return n; };
        long n0 = fill(fillw); a.contents(); a.figures(); long long top = a.malloced; string base = string(c.name) + mc::fmt(" filled with %ld blocks, ", n0); vector<int> ix(D, 0); ix[0] = f; size_t n = a.live.size(); if (n < 8) return; bool small = al[0] < 200;
        for (;;) { a.keep = true; a.hist = base; vector<size_t> freed; for (int i = 0; i < D; i++) { int op = ix[i]; if (op < 3) a.alloc(al[op]); else { size_t m = a.live.size(); if (!m) break; size_t j = op == 3 ? 0 : op == 4 ? m / 2 : op == 5 ? m - 1 : (m / 3); size_t sz = a.live[j].n; a.release(j); if (ix[D - 1] == 3 && i == D - 1 && (size_t)slabs_space_size(sz) % 256 == 0 ) { if (!a.alloc(sz)) a.bad("reuse", mc::fmt("a block of %zu bytes has just been released but cannot be had again", sz)); } } } if (ix[D - 1] == ix[1]) a.contents(); a.figures(); ctx.state(a.live.size() * 1000 + f); ctx.trace(); a.keep = false; int k = D - 1; while (k >= 1 && ++ix[k] > 6) ix[k--] = 0; if (k < 1) break; if (a.live.size() < n / 2) fill(fillw); }
        (void)small; if (f != fillw) { while (!a.live.empty()) a.release(a.live.size() - 1); a.figures(); return; } a.hist = base + "everything released, filled again"; for (int how = 0; how < 3; how++) { a.drain(how); long m = fill(fillw); if (m < n0) a.bad("reuse", mc::fmt("%ld blocks had room before, %ld after everything was released", n0, m)); a.figures(); if (a.malloced > top + (top / 4)) {} } a.drain(0); bool smallset = (long)al[0] <= MAX_SM_VALUE_LEN; if (smallset) { Sizes other = {28, 1020, 49148, 20476, 3000}; for (size_t o : other) { long long used = 0; long cnt = 0; while (cnt < 200000 && a.alloc(o)) { cnt++; used += slabs_space_size(o); } a.figures(); if ((cnt < 200000) && used < a.blocks * 262144 * 8 / 10) a.bad("reuse", mc::fmt("only %lld of %lld bytes can be used for blocks of %zu bytes", used, a.blocks * 262144, o)); while (!a.live.empty()) a.release(a.live.size() - 1); } }
    }, 200); }
}
