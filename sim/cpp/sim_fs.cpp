// In-memory file system behind the POSIX calls the code under test makes, with injected faults.
#include "sim_internal.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio_ext.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <termios.h>
#include <unistd.h>
#include <algorithm>
#include <memory>

namespace sim {

struct Inode {
  bool dir = false;
  std::string data, durable;
  bool writable = true;
  uint64_t ino = 0;
  std::map<std::string, std::shared_ptr<Inode>> ents;
};
typedef std::shared_ptr<Inode> Ino;
struct OFile { Ino ino; int64_t off = 0; int flags = 0; int pid = 0; std::string path; int64_t dirty_from = -1; bool isdir = false; };

static Ino* g_root;
static std::map<int, OFile>* g_fds;
static std::map<FILE*, int>* g_files;
static std::set<std::string>* g_over;
static uint64_t g_ino = 1;
static FsFaults g_ff;
static std::set<int>* g_enabled;
static std::set<int>* g_fired;
std::function<ssize_t(char*, size_t)> fs_stdin;
std::function<void(const char*, const std::string&)> fs_hook;
static const int FD0 = 100000;

FsFaults& fs_faults() { return g_ff; }
void fs_enable_faults(int pid, bool on) { CoreGuard g; if (on) g_enabled->insert(pid); else g_enabled->erase(pid); }
bool fs_fault_fired(int pid) { return g_fired->count(pid) != 0; }
void fs_clear_fired(int pid) { CoreGuard g; g_fired->erase(pid); }

static std::vector<std::string> split(const std::string& path, bool dots = false) {
  std::vector<std::string> r;
  std::string p = path.empty() || path[0] != '/' ? "/sim/cwd/" + path : path;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string c = p.substr(i, j - i);
    if (c == ".." && !dots) { if (!r.empty()) r.pop_back(); }
    else if (!c.empty() && (c != "." || dots)) r.push_back(c);
    i = j + 1;
  }
  return r;
}
static bool sim_path(const char* p) {
  if (!p || !*p) return false;
  if (p[0] != '/') return true;
  if (!strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/')) return true;
  return !g_over->empty() && g_over->count(p);
}
// resolve; err set when missing. parent/last filled when the parent exists
static Ino walk(const std::string& path, int* err, Ino* parent = nullptr, std::string* last = nullptr) {
  std::vector<std::string> c = split(path, true);
  std::vector<Ino> st{*g_root};
  *err = 0;
  if (parent) *parent = nullptr;
  for (size_t i = 0; i < c.size(); i++) {
    Ino cur = st.back();
    if (!cur->dir) { *err = ENOTDIR; return nullptr; }
    if (c[i].size() > 255) { *err = ENAMETOOLONG; return nullptr; }
    if (c[i] == ".") continue;
    if (c[i] == "..") { if (st.size() > 1) st.pop_back(); continue; }
    auto it = cur->ents.find(c[i]);
    if (i + 1 == c.size() && parent) { *parent = cur; *last = c[i]; }
    if (it == cur->ents.end()) { *err = ENOENT; return nullptr; }
    st.push_back(it->second);
  }
  return st.back();
}
static Ino make(bool dir) { Ino i = std::make_shared<Inode>(); i->dir = dir; i->ino = ++g_ino; return i; }

void fs_init() {
  g_root = new Ino(make(true));
  g_fds = new std::map<int, OFile>();
  g_files = new std::map<FILE*, int>();
  g_over = new std::set<std::string>();
  g_enabled = new std::set<int>();
  g_fired = new std::set<int>();
  Ino s = make(true), c = make(true);
  (*g_root)->ents["sim"] = s;
  s->ents["cwd"] = c;
}
void fs_process_gone(int pid) {
  CoreGuard g;
  for (auto it = g_fds->begin(); it != g_fds->end();)
    if (it->second.pid == pid) it = g_fds->erase(it); else ++it;
}
bool fs_exists(const std::string& p) { CoreGuard g; int e; return walk(p, &e) != nullptr; }
bool fs_isdir(const std::string& p) { CoreGuard g; int e; Ino i = walk(p, &e); return i && i->dir; }
bool fs_read(const std::string& p, std::string* out) {
  CoreGuard g; int e; Ino i = walk(p, &e);
  if (!i || i->dir) return false;
  *out = i->data;
  return true;
}
bool fs_mkdir(const std::string& p) {
  CoreGuard g;
  std::vector<std::string> c = split(p);
  Ino cur = *g_root;
  for (auto& x : c) {
    auto it = cur->ents.find(x);
    if (it == cur->ents.end()) { Ino n = make(true); cur->ents[x] = n; cur = n; }
    else cur = it->second;
    if (!cur->dir) return false;
  }
  return true;
}
void fs_write(const std::string& p, const std::string& data) {
  CoreGuard g;
  if (!p.empty() && p[0] == '/' && !sim_path(p.c_str())) g_over->insert(p);
  size_t s = p.rfind('/');
  if (s != std::string::npos && s > 0) fs_mkdir(p.substr(0, s));
  int e; Ino par; std::string last;
  Ino i = walk(p, &e, &par, &last);
  if (!i) { i = make(false); par->ents[last] = i; }
  i->data = data;
  i->durable = data;
}
bool fs_unlink(const std::string& p) {
  CoreGuard g; int e; Ino par; std::string last;
  Ino i = walk(p, &e, &par, &last);
  if (!i || !par) return false;
  par->ents.erase(last);
  return true;
}
void fs_set_mode(const std::string& p, bool w) { CoreGuard g; int e; Ino i = walk(p, &e); if (i) i->writable = w; }
static void list_rec(const Ino& i, const std::string& pre, std::vector<std::string>& r) {
  for (auto& e : i->ents) {
    std::string p = pre + "/" + e.first;
    r.push_back(e.second->dir ? p + "/" : p);
    if (e.second->dir) list_rec(e.second, p, r);
  }
}
std::vector<std::string> fs_list() { CoreGuard g; std::vector<std::string> r; list_rec(*g_root, "", r); return r; }
std::vector<std::string> fs_ls(const std::string& d) {
  CoreGuard g; int e; std::vector<std::string> r;
  Ino i = walk(d, &e);
  if (i) for (auto& x : i->ents) r.push_back(x.first);
  return r;
}
static int64_t used(const Ino& i) {
  int64_t n = i->data.size();
  for (auto& e : i->ents) n += used(e.second);
  return n;
}
static uint64_t hash_rec(const Ino& i, uint64_t h) {
  auto m = [&](const std::string& s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; h = (h ^ 0x100) * 1099511628211ULL; };
  m(i->data);
  for (auto& e : i->ents) { m(e.first); h = hash_rec(e.second, h); }
  return h;
}
uint64_t fs_hash() { CoreGuard g; return hash_rec(*g_root, 14695981039346656037ULL); }
static void power_rec(const Ino& i) {
  if (!i->dir && i->data != i->durable) {
    switch (choose(4, "power loss outcome")) {
      case 0: break;
      case 1: i->data.resize(choose((uint32_t)i->data.size() + 1)); break;
      case 2: {
        for (size_t b = 0; b < i->data.size(); b += 64)
          if (choose(4) == 1) for (size_t k = b; k < b + 64 && k < i->data.size(); k++) i->data[k] = 0;
        break;
      }
      default: i->data = i->durable; break;
    }
  }
  i->durable = i->data;
  for (auto& e : i->ents) power_rec(e.second);
}
void fs_power_loss() { CoreGuard g; fault("power_loss"); power_rec(*g_root); }
int fs_open_fds(int pid) { CoreGuard g; int n = 0; for (auto& f : *g_fds) if (f.second.pid == pid) n++; return n; }

// ------------------------------------------------------------------ fault decisions
static bool enabled() { return self && g_enabled->count(self->pid); }
static bool roll(uint32_t den, const char* what) {
  if (!den || !enabled()) return false;
  return chance(1, den, what);
}
static void fired(const char* kind) { fault(kind); if (self) g_fired->insert(self->pid); }
static int io_errno() { static const int e[] = {ENOSPC, EIO, EDQUOT}; return e[choose(3)]; }

static void begin(const char* op, const std::string& path, bool mutating) {
  if (!self->nopre) sched(op);
  event("%s %s", op, path.c_str());
  if (fs_hook) fs_hook(op, path);
  if (mutating && roll(g_ff.crash, "crash before operation")) kill_self();
}
static void end_mut() { if (roll(g_ff.crash, "crash after operation")) kill_self(); }

static int new_fd(const OFile& f) {
  int fd = FD0;
  while (g_fds->count(fd)) fd++;
  (*g_fds)[fd] = f;
  return fd;
}
static OFile* get(int fd) { if (!g_fds) return nullptr; auto it = g_fds->find(fd); return it == g_fds->end() ? nullptr : &it->second; }

static int do_open(const char* path, int flags) {
  CoreGuard g;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  begin(wr ? "open-write" : "open-read", path, (flags & (O_TRUNC | O_CREAT)) != 0);
  if (roll(g_ff.open_err, "open error")) {
    static const int e[] = {EACCES, EMFILE, ENOSPC, EIO};
    int er = e[choose(wr ? 4 : 2)];
    fired("open_error");
    errno = er;
    return -1;
  }
  if (!(flags & O_CREAT) && roll(g_ff.eintr, "open EINTR")) { fired("open_EINTR"); errno = EINTR; return -1; }
  int e; Ino par; std::string last;
  Ino i = walk(path, &e, &par, &last);
  if (!i) {
    if (e != ENOENT || !par || !(flags & O_CREAT)) { errno = e; return -1; }
    if (!par->writable) { errno = EACCES; return -1; }
    size_t n = strlen(path);
    if (n && path[n - 1] == '/') { errno = EISDIR; return -1; }
    i = make(false);
    par->ents[last] = i;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (i->dir && wr) { errno = EISDIR; return -1; }
  if (wr && !i->writable) { errno = EACCES; return -1; }
  if ((flags & O_DIRECTORY) && !i->dir) { errno = ENOTDIR; return -1; }
  if ((flags & O_TRUNC) && wr) i->data.clear();
  OFile f;
  f.ino = i; f.flags = flags; f.pid = self->pid; f.path = path; f.isdir = i->dir;
  int fd = new_fd(f);
  if (flags & (O_TRUNC | O_CREAT)) end_mut();
  return fd;
}
static ssize_t do_write(int fd, const char* buf, size_t n, int64_t at = -1) {
  CoreGuard g;
  OFile* f = get(fd);
  begin("write", f->path, true);
  f = get(fd);
  if (!f || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (roll(g_ff.eintr, "write EINTR")) { fault("write_EINTR"); errno = EINTR; return -1; }
  if (roll(g_ff.write_err, "write error")) { int e = io_errno(); fired("write_error"); errno = e; return -1; }
  size_t k = n;
  bool torn = false;
  if (n > 0 && roll(g_ff.crash, "crash inside write")) { k = choose((uint32_t)n); torn = true; }
  else if (n > 1 && roll(g_ff.short_write, "short write")) { k = 1 + choose((uint32_t)n - 1); fault("short_write"); }
  if (g_ff.capacity >= 0 && enabled()) {
    int64_t freeb = g_ff.capacity - used(*g_root);
    if ((int64_t)k > freeb) {
      fired("disk_full");
      if (freeb <= 0) { errno = ENOSPC; return -1; }
      k = (size_t)freeb;
    }
  }
  std::string& d = f->ino->data;
  int64_t off = at >= 0 ? at : (f->flags & O_APPEND) ? (int64_t)d.size() : f->off;
  if ((int64_t)d.size() < off) d.resize(off, 0);
  if (f->dirty_from < 0) f->dirty_from = off;
  size_t over = std::min<size_t>(k, d.size() - off);
  d.replace(off, over, buf, k);
  if (at < 0) f->off = off + k;
  if (torn) { fault("torn_write"); kill_self(); }
  end_mut();
  return k;
}
static ssize_t do_read(int fd, char* buf, size_t n, int64_t at = -1) {
  CoreGuard g;
  begin("read", get(fd)->path, false);
  OFile* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (f->isdir) { errno = EISDIR; return -1; }
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (roll(g_ff.eintr, "read EINTR")) { fault("read_EINTR"); errno = EINTR; return -1; }
  if (roll(g_ff.read_err, "read error")) { fired("read_error"); errno = EIO; return -1; }
  const std::string& d = f->ino->data;
  int64_t off = at >= 0 ? at : f->off;
  size_t k = off >= (int64_t)d.size() ? 0 : std::min<size_t>(n, d.size() - off);
  if (k > 1 && roll(g_ff.short_read, "short read")) { k = 1 + choose((uint32_t)std::min<size_t>(k - 1, 100000)); fault("short_read"); }
  memcpy(buf, d.data() + off, k);
  if (at < 0) f->off = off + k;
  return k;
}
static int do_close(int fd) {
  CoreGuard g;
  begin("close", get(fd)->path, true);
  OFile* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  int rc = 0;
  bool wr = (f->flags & O_ACCMODE) != O_RDONLY;
  if (wr && f->dirty_from >= 0 && roll(g_ff.lost_close, "data lost at close")) {
    std::string& d = f->ino->data;
    if ((int64_t)d.size() > f->dirty_from) d.resize(f->dirty_from + choose((uint32_t)(d.size() - f->dirty_from)));
    fired("lost_at_close");
    errno = EIO;
    rc = -1;
  } else if (roll(g_ff.close_err, "close error")) { fired("close_error"); errno = EIO; rc = -1; }
  int e = errno;
  g_fds->erase(fd);
  errno = e;
  return rc;
}
static int64_t do_lseek(int fd, int64_t off, int wh) {
  CoreGuard g;
  OFile* f = get(fd);
  if (roll(g_ff.seek_err, "seek error")) { fired("seek_error"); errno = EIO; return -1; }
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->off : (int64_t)f->ino->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  return f->off = b + off;
}
static void fill(const Ino& i, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 77;
  st->st_ino = i->ino;
  st->st_mode = (i->dir ? S_IFDIR | 0755 : S_IFREG | 0644);
  st->st_nlink = i->dir ? 2 : 1;
  st->st_size = i->dir ? 4096 : i->data.size();
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
}
static int do_stat(const char* path, struct stat* st) {
  CoreGuard g;
  begin("stat", path, false);
  if (roll(g_ff.stat_err, "stat error")) {
    static const int e[] = {EACCES, EIO};
    int er = e[choose(2)];
    fired("stat_error");
    errno = er;
    return -1;
  }
  int e;
  Ino i = walk(path, &e);
  if (!i) { errno = e; return -1; }
  size_t n = strlen(path);
  if (!i->dir && n && path[n - 1] == '/') { errno = ENOTDIR; return -1; }
  fill(i, st);
  return 0;
}
static int do_mkdir(const char* path) {
  CoreGuard g;
  begin("mkdir", path, true);
  if (roll(g_ff.mkdir_err, "mkdir error")) {
    static const int er[] = {EACCES, ENOSPC, EROFS, EIO};
    int e = er[choose(4)];
    fired("mkdir_error");
    errno = e;
    return -1;
  }
  int e; Ino par; std::string last;
  Ino i = walk(path, &e, &par, &last);
  if (i) { errno = EEXIST; return -1; }
  if (e != ENOENT || !par) { errno = e; return -1; }
  if (!par->writable) { errno = EACCES; return -1; }
  par->ents[last] = make(true);
  end_mut();
  return 0;
}
static int do_remove(const char* path, int kind) {  // 0 unlink, 1 rmdir, 2 either
  CoreGuard g;
  begin(kind == 1 ? "rmdir" : "unlink", path, true);
  if (roll(g_ff.unlink_err, "unlink error")) { fired("unlink_error"); errno = EACCES; return -1; }
  int e; Ino par; std::string last;
  Ino i = walk(path, &e, &par, &last);
  if (!i) { errno = e; return -1; }
  if (i->dir && kind == 0) { errno = EISDIR; return -1; }
  if (!i->dir && kind == 1) { errno = ENOTDIR; return -1; }
  if (i->dir && !i->ents.empty()) { errno = ENOTEMPTY; return -1; }
  par->ents.erase(last);
  end_mut();
  return 0;
}
static int do_rename(const char* a, const char* b) {
  CoreGuard g;
  begin("rename", std::string(a) + " -> " + b, true);
  if (roll(g_ff.rename_err, "rename error")) { fired("rename_error"); errno = EIO; return -1; }
  int e; Ino pa, pb; std::string la, lb;
  Ino i = walk(a, &e, &pa, &la);
  if (!i) { errno = e; return -1; }
  Ino j = walk(b, &e, &pb, &lb);
  if (!pb) { errno = e ? e : ENOENT; return -1; }
  if (j && j->dir != i->dir) { errno = j->dir ? EISDIR : ENOTDIR; return -1; }
  if (j && j->dir && !j->ents.empty()) { errno = ENOTEMPTY; return -1; }
  if (i == j) return 0;
  pa->ents.erase(la);
  pb->ents[lb] = i;
  end_mut();
  return 0;
}

// ------------------------------------------------------------------ FILE*
struct Cookie { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) {
  int d = core_depth; core_depth = 0; NoPreempt np;
  ssize_t r = do_read(((Cookie*)c)->fd, b, n);
  core_depth = d;
  return r;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  int d = core_depth; core_depth = 0; NoPreempt np;
  size_t k = 0;
  while (k < n) {
    ssize_t r = do_write(((Cookie*)c)->fd, b + k, n - k);
    if (r < 0) break;
    k += r;
  }
  core_depth = d;
  return k < n ? 0 : n;
}
static int ck_seek(void* c, off64_t* o, int wh) { int64_t r = do_lseek(((Cookie*)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) {
  int d = core_depth; core_depth = 0; NoPreempt np;
  int r = do_close(((Cookie*)c)->fd);
  core_depth = d;
  delete (Cookie*)c;
  return r;
}
// resolved without a guarded static: a guard is a scheduling point, and whether it is met would depend on what the process did before the run
using F_fopen64 = FILE* (*)(const char*, const char*);
using F_fopen = FILE* (*)(const char*, const char*);
using F_fclose = int (*)(FILE*);
using F_fileno = int (*)(FILE*);
using F_opendir = DIR* (*)(const char*);
using F_fdopendir = DIR* (*)(int);
using F_readdir = struct dirent* (*)(DIR*);
using F_dirfd = int (*)(DIR*);
using F_closedir = int (*)(DIR*);
template <typename F> static F next(const char* n) { CoreGuard g; return (F)dlsym(RTLD_NEXT, n); }

static FILE* do_fopen(const char* path, const char* mode) {
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { errno = EINVAL; return nullptr; }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(path, fl);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(new Cookie{fd}, mode, io);
  if (!f) { CoreGuard g; g_fds->erase(fd); errno = ENOMEM; return nullptr; }
  __fsetlocking(f, FSETLOCKING_BYCALLER);
  CoreGuard g;
  (*g_files)[f] = fd;
  return f;
}
}  // namespace sim
using namespace sim;

#define MINE(p) (intercept() && sim_path(p))
#define MYFD(fd) (g_active && self && (fd) >= FD0 && get(fd))
#define BADFD(fd) if ((fd) >= FD0) { errno = EBADF; return -1; }

extern "C" {
FILE* fopen64(const char* p, const char* m) {
  if (!MINE(p)) { static F_fopen64 f; if (!f) f = next<F_fopen64>("fopen64"); return f(p, m); }
  return do_fopen(p, m);
}
FILE* fopen(const char* p, const char* m) {
  if (!MINE(p)) { static F_fopen f; if (!f) f = next<F_fopen>("fopen"); return f(p, m); }
  return do_fopen(p, m);
}
int fclose(FILE* fp) {
  static F_fclose f; if (!f) f = next<F_fclose>("fclose");
  if (g_active && self) { CoreGuard g; g_files->erase(fp); }
  return f(fp);
}
int fileno(FILE* fp) {
  static F_fileno f; if (!f) f = next<F_fileno>("fileno");
  if (g_active && self) { auto it = g_files->find(fp); if (it != g_files->end()) return it->second; }
  return f(fp);
}
static int open_v(const char* p, int fl, mode_t m) {
  if (!MINE(p)) return syscall(SYS_openat, AT_FDCWD, p, fl, m);
  return do_open(p, fl);
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return open_v(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return open_v(p, fl, m); }
int openat(int d, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
  if (intercept() && (d == AT_FDCWD || p[0] == '/') && sim_path(p)) return do_open(p, fl);
  if (MYFD(d)) { std::string q = get(d)->path + "/" + p; return do_open(q.c_str(), fl); }
  return syscall(SYS_openat, d, p, fl, m);
}
int creat(const char* p, mode_t m) { return open_v(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (MYFD(fd)) return do_close(fd);
  BADFD(fd);
  return syscall(SYS_close, fd);
}
ssize_t read(int fd, void* b, size_t n) { if (fd == 0 && g_active && self && fs_stdin) return fs_stdin((char*)b, n); if (MYFD(fd)) return do_read(fd, (char*)b, n); BADFD(fd); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (MYFD(fd)) return do_write(fd, (const char*)b, n); BADFD(fd); return syscall(SYS_write, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
int __open_2(const char* p, int fl) { return open(p, fl); }
int __open64_2(const char* p, int fl) { return open(p, fl); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (MYFD(fd)) return do_read(fd, (char*)b, n, o); BADFD(fd); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (MYFD(fd)) return do_write(fd, (const char*)b, n, o); BADFD(fd); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!MYFD(fd)) { BADFD(fd); return syscall(SYS_writev, fd, v, c); }
  std::string s;
  { CoreGuard g; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = do_write(fd, s.data(), s.size());
  { CoreGuard g; std::string().swap(s); }
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!MYFD(fd)) { BADFD(fd); return syscall(SYS_readv, fd, v, c); }
  return c > 0 ? do_read(fd, (char*)v[0].iov_base, v[0].iov_len) : 0;
}
off_t lseek(int fd, off_t o, int w) { if (MYFD(fd)) return do_lseek(fd, o, w); BADFD(fd); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) {
  if (!MYFD(fd)) { BADFD(fd); return syscall(SYS_ftruncate, fd, n); }
  CoreGuard g; begin("ftruncate", get(fd)->path, true); get(fd)->ino->data.resize(n); return 0;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
  if (!MINE(p)) return syscall(SYS_truncate, p, n);
  CoreGuard g; begin("truncate", p, true); int e; Ino i = walk(p, &e); if (!i) { errno = e; return -1; } i->data.resize(n); return 0;
}
static int do_fsync(int fd) {
  CoreGuard g; begin("fsync", get(fd)->path, true);
  if (roll(g_ff.fsync_err, "fsync error")) { fired("fsync_error"); errno = EIO; return -1; }
  get(fd)->ino->durable = get(fd)->ino->data; return 0;
}
int fsync(int fd) { if (MYFD(fd)) return do_fsync(fd); BADFD(fd); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (MYFD(fd)) return do_fsync(fd); BADFD(fd); return syscall(SYS_fdatasync, fd); }
int stat(const char* p, struct stat* st) { if (MINE(p)) return do_stat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char* p, struct stat* st) { if (MINE(p)) return do_stat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat* st) { if (MYFD(fd)) { fill(get(fd)->ino, st); return 0; } BADFD(fd); return syscall(SYS_fstat, fd, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
static std::string at_path(int d, const char* p) { if (p[0] == '/' || d == AT_FDCWD) return p; OFile* f = get(d); return f ? f->path + "/" + p : p; }
int fstatat(int d, const char* p, struct stat* st, int fl) {
  if (intercept() && (d == AT_FDCWD || p[0] == '/') && sim_path(p)) return do_stat(p, st);
  if (MYFD(d)) { if (!*p) return fstat(d, st); return do_stat(at_path(d, p).c_str(), st); }
  return syscall(SYS_newfstatat, d, p, st, fl);
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, (struct stat*)st, fl); }
int statx(int d, const char* p, int fl, unsigned mask, struct statx* sx) {
  struct stat st;
  int r;
  if (intercept() && (d == AT_FDCWD || p[0] == '/') && sim_path(p)) r = do_stat(p, &st);
  else if (MYFD(d)) r = *p ? do_stat(at_path(d, p).c_str(), &st) : fstat(d, &st);
  else return syscall(SYS_statx, d, p, fl, mask, sx);
  if (r) return r;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_mode = st.st_mode;
  sx->stx_size = st.st_size;
  sx->stx_ino = st.st_ino;
  sx->stx_nlink = st.st_nlink;
  sx->stx_blksize = 4096;
  sx->stx_dev_minor = 77;
  return 0;
}
int access(const char* p, int m) {
  if (!MINE(p)) return syscall(SYS_access, p, m);
  struct stat st;
  if (do_stat(p, &st)) return -1;
  if (m & W_OK) { CoreGuard g; int e; Ino i = walk(p, &e); if (i && !i->writable) { errno = EACCES; return -1; } }
  return 0;
}
int faccessat(int d, const char* p, int m, int fl) { if (intercept() && sim_path(p)) return access(p, m); return syscall(SYS_faccessat, d, p, m, fl); }
int euidaccess(const char* p, int m) { return access(p, m); }
int mkdir(const char* p, mode_t m) { if (MINE(p)) return do_mkdir(p); return syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char* p, mode_t m) {
  if (intercept() && (d == AT_FDCWD || p[0] == '/') && sim_path(p)) return do_mkdir(p);
  return syscall(SYS_mkdirat, d, p, m);
}
int rmdir(const char* p) { if (MINE(p)) return do_remove(p, 1); return syscall(SYS_rmdir, p); }
int unlink(const char* p) { if (MINE(p)) return do_remove(p, 0); return syscall(SYS_unlink, p); }
int unlinkat(int d, const char* p, int fl) {
  if (intercept() && (MYFD(d) || sim_path(p))) return do_remove(at_path(d, p).c_str(), (fl & AT_REMOVEDIR) ? 1 : 0);
  return syscall(SYS_unlinkat, d, p, fl);
}
int remove(const char* p) {
  if (MINE(p)) return do_remove(p, 2);
  int r = syscall(SYS_unlink, p);
  return r && errno == EISDIR ? syscall(SYS_rmdir, p) : r;
}
int rename(const char* a, const char* b) { if (MINE(a)) return do_rename(a, b); return syscall(SYS_rename, a, b); }
int renameat(int d, const char* a, int e, const char* b) { if (intercept() && sim_path(a)) return do_rename(a, b); return syscall(SYS_renameat, d, a, e, b); }
char* getcwd(char* b, size_t n) {
  if (!intercept()) return syscall(SYS_getcwd, b, n) < 0 ? nullptr : b;
  if (!b) return strdup("/sim/cwd");
  if (n < 9) { errno = ERANGE; return nullptr; }
  return strcpy(b, "/sim/cwd");
}
int chmod(const char* p, mode_t m) { if (MINE(p)) return 0; return syscall(SYS_chmod, p, m); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list a; va_start(a, rq); void* arg = va_arg(a, void*); va_end(a);
  if (MYFD(fd)) {
    if (rq == FIONREAD) { OFile* f = get(fd); *(int*)arg = (int)std::max<int64_t>(0, (int64_t)f->ino->data.size() - f->off); return 0; }
    errno = ENOTTY;
    return -1;
  }
  BADFD(fd);
  return syscall(SYS_ioctl, fd, rq, arg);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (g_active && self && n == 1 && p[0].fd >= FD0) { p[0].revents = p[0].events & (POLLIN | POLLOUT); return 1; }
  return syscall(SYS_poll, p, n, t);
}
int isatty(int fd) { if (fd >= FD0) { errno = ENOTTY; return 0; } struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; }

// directory streams
struct SimDir { uint32_t magic; std::vector<std::string>* names; size_t pos; struct dirent de; std::string* path; int fd; };
static bool is_simdir(DIR* d) { return d && ((SimDir*)d)->magic == 0x51D151D1; }
static DIR* simdir(const std::string& p, int fd) {
  CoreGuard g;
  begin("opendir", p, false);
  if (roll(g_ff.open_err, "opendir error")) { fired("opendir_error"); errno = EACCES; return nullptr; }
  int e; Ino i = walk(p, &e);
  if (!i) { errno = e; return nullptr; }
  if (!i->dir) { errno = ENOTDIR; return nullptr; }
  SimDir* s = new SimDir();
  s->magic = 0x51D151D1; s->names = new std::vector<std::string>{".", ".."}; s->pos = 0; s->path = new std::string(p); s->fd = fd;
  for (auto& x : i->ents) s->names->push_back(x.first);
  return (DIR*)s;
}
DIR* opendir(const char* p) {
  if (!MINE(p)) { static F_opendir f; if (!f) f = next<F_opendir>("opendir"); return f(p); }
  return simdir(p, -1);
}
DIR* fdopendir(int fd) {
  if (!MYFD(fd)) { static F_fdopendir f; if (!f) f = next<F_fdopendir>("fdopendir"); return f(fd); }
  return simdir(get(fd)->path, fd);
}
struct dirent* readdir(DIR* d) {
  if (!(g_active && self && is_simdir(d))) { static F_readdir f; if (!f) f = next<F_readdir>("readdir"); return f(d); }
  SimDir* s = (SimDir*)d;
  if (s->pos >= s->names->size()) return nullptr;
  memset(&s->de, 0, sizeof s->de);
  snprintf(s->de.d_name, sizeof s->de.d_name, "%s", (*s->names)[s->pos++].c_str());
  s->de.d_type = DT_UNKNOWN;
  s->de.d_ino = 1;
  return &s->de;
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int dirfd(DIR* d) {
  if (!(g_active && self && is_simdir(d))) { static F_dirfd f; if (!f) f = next<F_dirfd>("dirfd"); return f(d); }
  SimDir* s = (SimDir*)d;
  if (s->fd < 0) s->fd = do_open(s->path->c_str(), O_RDONLY | O_DIRECTORY);
  return s->fd;
}
int closedir(DIR* d) {
  if (!(g_active && self && is_simdir(d))) { static F_closedir f; if (!f) f = next<F_closedir>("closedir"); return f(d); }
  SimDir* s = (SimDir*)d;
  if (s->fd >= 0) close(s->fd);
  CoreGuard g;
  delete s->names; delete s->path; delete s;
  return 0;
}
}  // extern "C"
