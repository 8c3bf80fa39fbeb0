// In-memory file system for paths under /vfs, logging every operation for crash exploration.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
namespace vfs {
bool is_fd(int fd); bool is_path(const char *p); bool is_dir(void *d);
int open(const char *p, int flags); ssize_t read(int fd, void *b, size_t n); ssize_t write(int fd, const void *b, size_t n);
int close(int fd); int fsync(int fd); off_t lseek(int fd, off_t o, int w); int ftruncate(int fd, off_t o);
ssize_t pread(int fd, void *b, size_t n, off_t o); ssize_t pwrite(int fd, const void *b, size_t n, off_t o);
int unlink(const char *p); int rename(const char *a, const char *b); int access(const char *p);
int stat(const char *p, struct stat *st); int fstat(int fd, struct stat *st);
void *opendir(const char *p); struct dirent *readdir(void *d); int closedir(void *d);
int scandir(const char *p, struct dirent ***nl, int (*filter)(const struct dirent *), int (*compar)(const struct dirent **, const struct dirent **));

struct Op { enum K { CREATE, WRITE, TRUNC, FSYNC, UNLINK, RENAME } k; int ino; std::string path, path2, data; off_t off; int tag; };
extern std::vector<Op> oplog;           // every mutating operation in order
extern int cur_tag;                     // copied into each op (e.g. number of acknowledged commands)
extern int64_t fail_at;                 // >0: the n-th open/write/fsync/rename/... fails; mode 1 once, 2 all from then on, 3 one write is cut in half
extern int fail_mode; extern bool failed; extern uint64_t fault_points;
typedef std::map<std::string, std::string> Image;   // path -> contents
Image image();                          // current contents
void load(const Image &img);            // replace all contents
}
