#include "vfs.h"
#include "sim.h"
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <algorithm>
namespace sim { void fs_point(); }
namespace vfs {
struct Inode { int no; std::string data; };
struct File { std::shared_ptr<Inode> ino; off_t off; bool append, rd, wr; bool open; std::string path; };
static std::map<std::string, std::shared_ptr<Inode>> dir_;
static std::vector<File> files; static const int FD0 = 300000; static int next_ino = 1;
std::vector<Op> oplog; int cur_tag = 0; int64_t fail_at = 0; int fail_mode = 1; bool failed = false; uint64_t fault_points = 0;
static bool hit(bool wr = false) { fault_points++; if (fail_mode == 3 && !wr) return false; if (fail_at > 0 && --fail_at == 0) { failed = true; if (fail_mode == 2) fail_at = 1; return true; } return false; }
struct Dir { int magic; std::vector<std::string> names; size_t pos; struct dirent ent; };
static const int DMAGIC = 0x5eed1234;

bool is_path(const char *p) { return p && strncmp(p, "/vfs/", 5) == 0; }
bool is_fd(int fd) { return fd >= FD0 && fd < FD0 + (int)files.size() + 1000 && fd < 500000; }
static File *F(int fd) { int i = fd - FD0; if (i < 0 || i >= (int)files.size() || !files[i].open) { errno = EBADF; return nullptr; } return &files[i]; }
static void log(Op o) { o.tag = cur_tag; oplog.push_back(std::move(o)); }

int open(const char *p, int flags) {
    sim::fs_point(); if (hit()) { errno = EIO; return -1; }
    std::string path = p;
    auto it = dir_.find(path);
    std::shared_ptr<Inode> ino;
    if (it == dir_.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        ino = std::make_shared<Inode>(); ino->no = next_ino++; dir_[path] = ino;
        log({Op::CREATE, ino->no, path, "", "", 0, 0});
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        ino = it->second;
        if ((flags & O_TRUNC) && !ino->data.empty()) { ino->data.clear(); log({Op::TRUNC, ino->no, path, "", "", 0, 0}); }
    }
    File f; f.ino = ino; f.off = 0; f.append = flags & O_APPEND; f.open = true; f.path = path;
    int acc = flags & O_ACCMODE; f.rd = acc != O_WRONLY; f.wr = acc != O_RDONLY;
    for (size_t i = 0; i < files.size(); i++) if (!files[i].open) { files[i] = f; return FD0 + (int)i; }
    files.push_back(f); return FD0 + (int)files.size() - 1;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    File *f = F(fd); if (!f) return -1;
    if ((size_t)o >= f->ino->data.size()) return 0;
    size_t k = std::min(n, f->ino->data.size() - (size_t)o); memcpy(b, f->ino->data.data() + o, k); return k;
}
ssize_t read(int fd, void *b, size_t n) { File *f = F(fd); if (!f) return -1; ssize_t k = pread(fd, b, n, f->off); if (k > 0) f->off += k; return k; }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    sim::fs_point();
    File *f = F(fd); if (!f) return -1; if (hit(true)) { if (fail_mode != 3 || n < 2) { errno = ENOSPC; return -1; } n /= 2; }
    auto &d = f->ino->data; if (d.size() < o + n) d.resize(o + n);
    memcpy(&d[o], b, n);
    log({Op::WRITE, f->ino->no, f->path, "", std::string((const char *)b, n), o, 0});
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    File *f = F(fd); if (!f) return -1;
    if (f->append) f->off = f->ino->data.size();
    ssize_t k = pwrite(fd, b, n, f->off); f = F(fd); if (k > 0) f->off += k; return k;
}
int close(int fd) { File *f = F(fd); if (!f) return -1; f->open = false; f->ino.reset(); return 0; }
int fsync(int fd) { sim::fs_point(); File *f = F(fd); if (!f) return -1; if (hit()) { errno = EIO; return -1; } log({Op::FSYNC, f->ino->no, f->path, "", "", 0, 0}); return 0; }
off_t lseek(int fd, off_t o, int w) {
    File *f = F(fd); if (!f) return -1;
    off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->off : (off_t)f->ino->data.size();
    if (base + o < 0) { errno = EINVAL; return -1; }
    return f->off = base + o;
}
int ftruncate(int fd, off_t o) { File *f = F(fd); if (!f) return -1; if (hit()) { errno = EIO; return -1; } f->ino->data.resize(o); log({Op::TRUNC, f->ino->no, f->path, "", "", o, 0}); return 0; }
int unlink(const char *p) {
    sim::fs_point(); if (hit()) { errno = EIO; return -1; }
    auto it = dir_.find(p); if (it == dir_.end()) { errno = ENOENT; return -1; }
    log({Op::UNLINK, it->second->no, p, "", "", 0, 0}); dir_.erase(it); return 0;
}
int rename(const char *a, const char *b) {
    sim::fs_point(); if (hit()) { errno = EIO; return -1; }
    auto it = dir_.find(a); if (it == dir_.end()) { errno = ENOENT; return -1; }
    auto ino = it->second; log({Op::RENAME, ino->no, a, b, "", 0, 0}); dir_.erase(it); dir_[b] = ino; return 0;
}
static bool isdir(const std::string &p) { std::string q = p; if (q.back() != '/') q += '/'; auto it = dir_.lower_bound(q); return q == "/vfs/" || q == "/vfs/data/" || q == "/vfs/logs/" || (it != dir_.end() && it->first.compare(0, q.size(), q) == 0); }
int access(const char *p) { if (dir_.count(p) || isdir(p)) return 0; errno = ENOENT; return -1; }
int stat(const char *p, struct stat *st) {
    memset(st, 0, sizeof *st);
    auto it = dir_.find(p);
    if (it != dir_.end()) { st->st_mode = S_IFREG | 0644; st->st_size = it->second->data.size(); return 0; }
    if (isdir(p)) { st->st_mode = S_IFDIR | 0755; return 0; }
    errno = ENOENT; return -1;
}
int fstat(int fd, struct stat *st) { File *f = F(fd); if (!f) return -1; memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = f->ino->data.size(); return 0; }
static std::vector<std::string> list(const std::string &p) {
    std::string q = p; if (q.back() != '/') q += '/';
    std::vector<std::string> r{".", ".."};
    for (auto it = dir_.lower_bound(q); it != dir_.end() && it->first.compare(0, q.size(), q) == 0; ++it) {
        std::string n = it->first.substr(q.size()); if (n.find('/') == std::string::npos) r.push_back(n);
    }
    return r;
}
void *opendir(const char *p) { if (!isdir(p)) { errno = ENOENT; return nullptr; } Dir *d = new Dir; d->magic = DMAGIC; d->names = list(p); d->pos = 0; return d; }
bool is_dir(void *d) { return d && ((Dir *)d)->magic == DMAGIC; }
struct dirent *readdir(void *dd) { Dir *d = (Dir *)dd; if (d->pos >= d->names.size()) return nullptr; memset(&d->ent, 0, sizeof d->ent); d->ent.d_type = DT_REG; strncpy(d->ent.d_name, d->names[d->pos++].c_str(), 255); return &d->ent; }
int closedir(void *d) { delete (Dir *)d; return 0; }
int scandir(const char *p, struct dirent ***nl, int (*filter)(const struct dirent *), int (*compar)(const struct dirent **, const struct dirent **)) {
    if (!isdir(p)) { errno = ENOENT; return -1; }
    std::vector<struct dirent *> v;
    for (auto &n : list(p)) {
        struct dirent *e = (struct dirent *)calloc(1, sizeof *e); strncpy(e->d_name, n.c_str(), 255); e->d_type = DT_REG;
        if (!filter || filter(e)) v.push_back(e); else free(e);
    }
    if (compar) std::sort(v.begin(), v.end(), [&](struct dirent *a, struct dirent *b) { return compar((const struct dirent **)&a, (const struct dirent **)&b) < 0; });
    extern void *mc_alloc_tracked(size_t); // see below
    *nl = (struct dirent **)mc_alloc_tracked((v.size() + 1) * sizeof(void *));
    for (size_t i = 0; i < v.size(); i++) { (*nl)[i] = (struct dirent *)mc_alloc_tracked(sizeof(struct dirent)); memcpy((*nl)[i], v[i], sizeof(struct dirent)); free(v[i]); }
    return (int)v.size();
}
Image image() { Image m; for (auto &e : dir_) m[e.first] = e.second->data; return m; }
void load(const Image &img) { dir_.clear(); files.clear(); oplog.clear(); next_ino = 1; for (auto &e : img) { auto i = std::make_shared<Inode>(); i->no = next_ino++; i->data = e.second; dir_[e.first] = i; } }
}
extern "C" void *mc_malloc(size_t);
namespace vfs { void *mc_alloc_tracked(size_t n) { return mc_malloc(n); } }
