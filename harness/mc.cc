#include "mc.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <cmath>
#include <fstream>
#include <set>
#include <sstream>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <poll.h>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6"; }

namespace mc {
std::vector<Suite> &suites() { static std::vector<Suite> s; return s; }
Ctx *cur_ctx = nullptr;
std::string fmt(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string esc(const std::string &s, size_t lim) {
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > lim) { r += "..."; break; }
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c;
    }
    return r;
}
uint64_t hash(const std::string &s, uint64_t seed) {
    uint64_t h = 0xcbf29ce484222325ull ^ seed;
    for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; h ^= h >> 29; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; return h;
}

static const int MAXW = 16; static const size_t TBUF = 1 << 18;
struct WorkerRec { std::atomic<int64_t> idx; std::atomic<uint64_t> beat; std::atomic<uint64_t> cases; size_t tlen; char t[TBUF]; };
struct Shared {
    std::atomic<int> stop; std::atomic<int> failed; int fworker; int64_t fidx; char fkey[512]; char fmsg[16384]; size_t ftlen; char ft[TBUF];
    std::atomic<uint64_t> states, trans, traces, evals, cases; std::atomic<int> truncated; std::atomic<int> nsamples; char samples[8][4096];
    std::atomic<int> known_n; char known[32][256]; std::atomic<int> known_hits[32];
    char bound[4096]; std::atomic<int> in_isolated;
    size_t tabmask; std::atomic<uint64_t> tab[1];
};
static Shared *S; static size_t TAB;
static WorkerRec *W; // [MAXW]
static int64_t only_case = -1, upto_case = -1;
static int64_t index_ = -1, hits_ = 0; static double t_deadline = 0; static bool replay_mode = false;
static std::vector<std::pair<std::string, std::string>> known_list; // prop,key
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string errfile; static int g_nworkers = 8;

int64_t Ctx::case_index() const { return index_; }
bool Ctx::out_of_time() {
    if (S->stop.load(std::memory_order_relaxed) == 2) return true;
    if (now() > t_deadline && !replay_mode) { S->truncated = 1; S->stop = 2; return true; }
    return false;
}
bool Ctx::out_of_time_fast() { return S->stop.load(std::memory_order_relaxed) == 2; }
bool Ctx::mine() {
    index_++;
    if (only_case >= 0) { if (index_ != only_case) return false; }
    else {
        if (nworkers > 1 && index_ % nworkers != worker) return false;
        if (upto_case >= 0 && index_ > upto_case) return false;
    }
    int st = S->stop.load(std::memory_order_relaxed);
    if (st == 1) _exit(0);
    if (st == 2) return false;
    if ((++hits_ & 63) == 0 && out_of_time()) return false;
    WorkerRec &w = W[worker];
    w.idx.store(index_, std::memory_order_relaxed); w.beat++; w.cases++; w.tlen = 0;
    S->cases++;
    return true;
}
void Ctx::clear_note() { W[worker].tlen = 0; }
void Ctx::note(const std::string &s) {
    WorkerRec &w = W[worker]; std::string e = esc(s); e += '\n';
    size_t n = e.size(); if (w.tlen + n > TBUF) return; memcpy(w.t + w.tlen, e.data(), n); w.tlen += n;
}
static bool known_hit(const std::string &prop, const std::string &key) {
    for (auto &k : known_list) if (k.first == prop && k.second == key) {
        int n = S->known_n.load();
        for (int i = 0; i < n; i++) if (key == S->known[i]) { S->known_hits[i]++; return true; }
        int i = S->known_n++; if (i < 32) { strncpy(S->known[i], key.c_str(), 255); S->known_hits[i] = 1; }
        return true;
    }
    return false;
}
static void record_fail(int worker, int64_t idx, const std::string &key, const std::string &msg, const char *t, size_t tl) {
    int z = 0;
    if (!S->failed.compare_exchange_strong(z, 1)) return;
    S->fworker = worker; S->fidx = idx; snprintf(S->fkey, sizeof S->fkey, "%s", key.c_str()); snprintf(S->fmsg, sizeof S->fmsg, "%s", msg.c_str());
    S->ftlen = tl; memcpy(S->ft, t, tl); S->failed = 2; S->stop = 1;
}
void Ctx::fail(const std::string &key, const std::string &msg) {
    if (known_hit(prop, key)) return;
    if (const char *all = getenv("MC_ALL")) { // development aid: append up to n failures of every kind to the file MC_ALLF and continue; never used by check.py
        static std::map<std::string, int> seen; if (seen[key]++ < atoi(all)) { std::string t(W[worker].t, std::min<size_t>(W[worker].tlen, 1500)); FILE *f = fopen(getenv("MC_ALLF"), "a"); fprintf(f, "@@ %s | %s |\n%s\n", key.c_str(), msg.substr(0, 300).c_str(), t.c_str()); fclose(f); } clear_note(); return; }
    record_fail(worker, index_, key, msg, W[worker].t, W[worker].tlen);
    while (S->failed != 2) usleep(1000);
    _exit(3);
}
bool Ctx::state(uint64_t h) {
    if (!h) h = 1;
    size_t i = h & S->tabmask;
    for (size_t k = 0; k < 64; k++, i = (i + 1) & S->tabmask) {
        uint64_t v = S->tab[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) { uint64_t z = 0; if (S->tab[i].compare_exchange_strong(z, h)) { S->states++; return true; } if (z == h) return false; }
    }
    return true; // table region full: not counted
}
void Ctx::trans(uint64_t n) { S->trans += n; }
void Ctx::trace(uint64_t n) { S->traces += n; }
void Ctx::evals(uint64_t n) { S->evals += n; }
void Ctx::sample(const std::string &s) { if (S->nsamples.load() >= 8) return; int i = S->nsamples++; if (i < 8) snprintf(S->samples[i], 4096, "%s", esc(s, 3500).c_str()); }
void Ctx::note_bound(const std::string &s) { if (worker == 0) { size_t n = strlen(S->bound); snprintf(S->bound + n, sizeof S->bound - n, "%s%s: %s", n ? "; " : "", suite.c_str(), s.c_str()); } }

static std::string slurp(const std::string &f, size_t lim) {
    std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); std::string s = ss.str();
    if (s.size() > lim) s = s.substr(0, lim * 3 / 4) + "\n...\n" + s.substr(s.size() - lim / 4);
    return s;
}
static std::string death_key(int status, const std::string &err) {
    // a stable key: assertion text or sanitizer summary
    size_t p = err.find("SUMMARY: AddressSanitizer: ");
    if (p != std::string::npos) { std::string l = err.substr(p + 27, err.find('\n', p) - p - 27); size_t q = l.find(' '); std::string kind = l.substr(0, q); size_t r = l.rfind(" in "); return "asan:" + kind + (r != std::string::npos ? ":" + l.substr(r + 4) : ""); }
    p = err.find("Assertion `"); if (p != std::string::npos) return "assert:" + err.substr(p + 11, err.find("' failed", p) - p - 11);
    p = err.find("sim fatal: "); if (p != std::string::npos) return "fatal:" + err.substr(p + 11, err.find('\n', p) - p - 11);
    if (WIFSIGNALED(status)) return fmt("signal:%d", WTERMSIG(status));
    return fmt("exit:%d", WEXITSTATUS(status));
}
bool Ctx::isolated(const std::function<void()> &f, int timeout_s) {
    std::string ef = errfile + ".i" + std::to_string(worker);
    truncate(ef.c_str(), 0);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = ::open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
        f();
        _exit(0);
    }
    double t0 = now(); int st; bool hang = false;
    useconds_t d = 50;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > timeout_s) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(d); if (d < 2000) d += d / 4 + 1;
        W[worker].beat++;
    }
    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
    std::string err = slurp(ef, 6000);
    std::string key = hang ? "hang" : death_key(st, err);
    fail(key, hang ? "no answer within the time limit (hang)" : "process died: " + key + "\n" + err);
    return false;
}

std::vector<std::string> std_args(const std::vector<std::string> &extra) {
    std::vector<std::string> a{"-t", "2", "-p", "11211", "-m", "64", "-E", ".libs/default_engine.so"};
    // later options override earlier ones
    a.insert(a.end(), extra.begin(), extra.end()); return a;
}
void boot_std(const std::vector<std::string> &extra) {
    sim::boot(std_args(extra));
    if (sim::server_exited()) { fprintf(stderr, "sim fatal: server did not start\n"); _exit(97); }
}

// ------------------------------------------------------------------ driver
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static void child_main(const Suite &s, const std::string &tier, int w, int n) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    std::string ef = errfile + "." + std::to_string(w);
    int fd = ::open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
    fd = ::open("/dev/null", O_RDWR); dup2(fd, 0); close(fd);
    static Ctx ctx; ctx.prop = s.prop; ctx.suite = s.name; ctx.tier = tier; ctx.thorough = tier == "thorough"; ctx.worker = w; ctx.nworkers = n;
    cur_ctx = &ctx; index_ = -1; hits_ = 0;
    s.fn(ctx);
    _exit(0);
}
struct Result { bool failed = false; int worker; int64_t idx; std::string key, msg, trans; };
// run the suite with n workers; returns failure if any
static Result run_workers(const Suite &s, const std::string &tier, int n, int case_limit_s) {
    std::vector<pid_t> pid(n); std::vector<bool> done(n, false); std::vector<uint64_t> lastb(n, 0); std::vector<double> lastt(n, now());
    for (int i = 0; i < n; i++) { W[i].idx = -1; W[i].beat = 0; W[i].tlen = 0; }
    S->stop = 0; S->failed = 0;
    fflush(stdout);
    for (int i = 0; i < n; i++) { pid[i] = fork(); if (pid[i] == 0) { if (replay_mode) setenv("MC_REPLAY", "1", 1); child_main(s, tier, replay_mode ? S->fworker : i, replay_mode ? S->fidx >= 0 ? g_nworkers : 1 : n); } }
    int left = n; Result r;
    while (left > 0) {
        bool any = false;
        for (int i = 0; i < n; i++) if (!done[i]) {
            int st; pid_t q = waitpid(pid[i], &st, WNOHANG);
            int w = replay_mode ? S->fworker : i;
            if (q == pid[i]) {
                any = true; done[i] = true; left--;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) continue;
                std::string err = slurp(errfile + "." + std::to_string(w), 8000);
                std::string key = death_key(st, err);
                if (known_hit(s.prop, key)) { fprintf(stderr, "worker died on a known finding; suite must isolate it\n"); }
                record_fail(w, W[w].idx, key, "process died: " + key + "\n" + err, W[w].t, W[w].tlen);
            } else {
                uint64_t b = W[w].beat; if (b != lastb[i]) { lastb[i] = b; lastt[i] = now(); }
                else if (now() - lastt[i] > case_limit_s) {
                    kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); done[i] = true; left--;
                    record_fail(w, W[w].idx, "hang", "no progress within the time limit (hang or livelock)", W[w].t, W[w].tlen);
                }
            }
        }
        if (!any) usleep(3000);
    }
    if (S->failed == 2) { r.failed = true; r.worker = S->fworker; r.idx = S->fidx; r.key = S->fkey; r.msg = S->fmsg; r.trans.assign(S->ft, S->ftlen); }
    return r;
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static void alloc_shared(bool thorough) {
    TAB = thorough ? (1ull << 27) : (1ull << 24);
    S = (Shared *)shm(sizeof(Shared) + TAB * 8); S->tabmask = TAB - 1;
    W = (WorkerRec *)shm(sizeof(WorkerRec) * MAXW);
}
}
using namespace mc;
static std::string arg(int argc, char **argv, const char *n, const char *d = "") { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; }
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "list")) { for (auto &s : suites()) printf("%s %s %s %d\n", s.prop, s.name, s.variant, s.tiers); return 0; }
    if (!getenv("MC_NOASLR_DONE")) {
        setenv("MC_NOASLR_DONE", "1", 1);
        int p = personality(0xffffffff);
        if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::string prop = arg(argc, argv, "--prop"), tier = arg(argc, argv, "--tier", "quick"), variant = arg(argc, argv, "--variant"),
                out = arg(argc, argv, "--out"), only = arg(argc, argv, "--suite"), rc = arg(argc, argv, "--case"), rs = arg(argc, argv, "--shard"),
                knownf = arg(argc, argv, "--known"), replay = arg(argc, argv, "--replay-out"), scratch = arg(argc, argv, "--scratch", "/tmp"), nw = arg(argc, argv, "--workers", "8");
    double budget = atof(arg(argc, argv, "--budget", "0").c_str());
    int n = atoi(nw.c_str()); if (n < 1) n = 1; if (n > MAXW) n = MAXW; g_nworkers = n;
    errfile = scratch + "/mcerr." + std::to_string(getpid());
    { std::ifstream k(knownf); std::string l; while (std::getline(k, l)) { std::istringstream is(l); std::string a, p, key; is >> a >> p; if (a != "known:") continue;
        size_t q = l.find("key=<"), e = l.find(">", q == std::string::npos ? 0 : q); if (q == std::string::npos || e == std::string::npos) continue;
        if (p.compare(0, 9, "property=") == 0) known_list.push_back({p.substr(9), l.substr(q + 5, e - q - 5)}); } }
    bool thorough = tier == "thorough";
    alloc_shared(thorough);
    std::string js = "["; bool first = true; bool anyfail = false;
    auto cleanup = [&] { for (int i = 0; i < MAXW; i++) { unlink((errfile + "." + std::to_string(i)).c_str()); unlink((errfile + ".i" + std::to_string(i)).c_str()); } };
    for (auto &s : suites()) {
        if (prop != s.prop || !(s.tiers & (thorough ? THOROUGH : QUICK))) continue;
        if (!only.empty() && only != s.name) continue;
        if (variant != s.variant) continue;
        // reset counters
        S->states = S->trans = S->traces = S->evals = S->cases = 0; S->truncated = 0; S->nsamples = 0; S->bound[0] = 0; S->known_n = 0;
        madvise(S, 0, 0);
        if (!first) { // clear the table by remapping
            munmap(S, sizeof(Shared) + TAB * 8); munmap(W, sizeof(WorkerRec) * MAXW); alloc_shared(thorough);
        }
        double t0 = now(); t_deadline = t0 + (budget > 0 ? budget : thorough ? s.budget_t : s.budget_q);
        Result r; std::string how = "";
        if (!rc.empty() || !rs.empty()) { // replay of one case / one shard
            replay_mode = true;
            if (!rc.empty()) { only_case = atoll(rc.c_str()); S->fworker = 0; S->fidx = -1; }
            else { upto_case = atoll(rs.substr(rs.find(':') + 1).c_str()); S->fworker = atoi(rs.c_str()); S->fidx = 1; }
            r = run_workers(s, tier, 1, 300);
        } else {
            r = run_workers(s, tier, n, thorough ? 300 : 120);
            if (r.failed) { // re-execute alone, in a fresh process
                Result keep = r; uint64_t c0 = S->states, c1 = S->trans, c2 = S->traces, c3 = S->evals, c4 = S->cases;
                replay_mode = true; only_case = keep.idx; S->fworker = 0; S->fidx = -1;
                if (keep.idx < 0) only_case = 0;
                Result a = run_workers(s, tier, 1, 150); 
                if (a.failed) { how = "case"; r = a; r.idx = keep.idx; r.worker = keep.worker; }
                else {
                    only_case = -1; upto_case = keep.idx; S->fworker = keep.worker; S->fidx = 1;
                    t_deadline = now() + 200;
                    Result b = run_workers(s, tier, 1, 150);
                    if (b.failed) { how = "shard"; int w = keep.worker; int64_t ix = b.idx; r = b; r.worker = w; r.idx = ix; }
                    else { how = "unreproduced"; r = keep; }
                }
                replay_mode = false; only_case = upto_case = -1;
                S->states = c0; S->trans = c1; S->traces = c2; S->evals = c3; S->cases = c4;
            }
        }
        int kn = S->known_n;
        for (int i = 0; i < kn && i < 32; i++) printf("KNOWN-FINDING: property=%s %s (%d occurrences in %s)\n", s.prop, S->known[i], (int)S->known_hits[i], s.name);
        js += fmt("%s{\"suite\":\"%s\",\"variant\":\"%s\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"evaluations\":%llu,\"truncated\":%s,\"wall\":%.2f,\"failed\":%s,",
                  first ? "" : ",", s.name, s.variant, (unsigned long long)S->cases, (unsigned long long)S->states, (unsigned long long)S->trans,
                  (unsigned long long)S->traces, (unsigned long long)S->evals, S->truncated ? "true" : "false", now() - t0, r.failed ? "true" : "false");
        js += "\"bounds\":" + jstr(S->bound) + ",\"samples\":[";
        for (int i = 0; i < std::min(8, (int)S->nsamples); i++) js += std::string(i ? "," : "") + jstr(S->samples[i]);
        js += "]";
        first = false;
        fprintf(stderr, "  %-28s %-7s cases=%llu states=%llu trans=%llu traces=%llu %s%.1fs\n", s.name, s.variant, (unsigned long long)S->cases, (unsigned long long)S->states, (unsigned long long)S->trans, (unsigned long long)S->traces, S->truncated ? "TRUNCATED " : "", now() - t0);
        if (r.failed) {
            anyfail = true;
            js += ",\"key\":" + jstr(r.key) + ",\"msg\":" + jstr(r.msg) + "}";
            std::string body = "{\"property\":" + jstr(s.prop) + ",\"suite\":" + jstr(s.name) + ",\"variant\":" + jstr(s.variant) + ",\"tier\":" + jstr(tier) +
                ",\"reproduced_by\":" + jstr(how) + fmt(",\"case\":%lld,\"worker\":%d,\"key\":", (long long)r.idx, r.worker) + jstr(r.key) + ",\"message\":" + jstr(r.msg) + ",\"history\":[";
            std::istringstream is(r.trans); std::string l; bool f2 = true; while (std::getline(is, l)) { body += std::string(f2 ? "" : ",") + "\n  " + jstr(l); f2 = false; }
            body += "]}\n";
            if (!replay.empty()) { std::ofstream o(replay); o << body; }
            fprintf(stderr, "FAILED suite=%s key=%s case=%lld (%s)\n%s\n--- history\n%s\n", s.name, r.key.c_str(), (long long)r.idx, how.c_str(), r.msg.c_str(), r.trans.c_str());
            break;
        }
        js += "}";
    }
    js += "]\n";
    cleanup();
    if (!out.empty()) { std::ofstream o(out); o << js; }
    return anyfail ? 1 : 0;
}
