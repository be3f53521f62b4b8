// In-memory file system for everything below /sim.
#include "io.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>

static Inode* g_root;
static u64 g_ino = 100;
static std::vector<u64>* g_freed;
static u64 g_used = 0;
static const u64 DEV = 77;

static Inode* root() {
  if (!g_root) { g_root = new Inode(); g_root->dir = true; g_root->ino = 2; g_root->nlink = 2; g_freed = new std::vector<u64>(); }
  return g_root;
}
std::string vfs_path(const char* p) {
  if (!p || strncmp(p, "/sim", 4) || (p[4] && p[4] != '/')) return "";
  std::string r;
  std::string in(p);
  size_t i = 0;
  std::vector<std::string> parts;
  while (i < in.size()) {
    size_t j = in.find('/', i);
    if (j == std::string::npos) j = in.size();
    std::string c = in.substr(i, j - i);
    i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == "..") { if (parts.size() > 1) parts.pop_back(); continue; }
    parts.push_back(c);
  }
  for (auto& c : parts) { r += "/"; r += c; }
  return r;
}
static Inode* lookup(const std::string& p, Inode** parent = nullptr, std::string* leaf = nullptr) {
  Inode* d = root();
  if (parent) *parent = nullptr;
  size_t i = 4;   // skip "/sim"
  if (i >= p.size()) return d;
  for (;;) {
    size_t j = p.find('/', i + 1);
    std::string c = p.substr(i + 1, (j == std::string::npos ? p.size() : j) - i - 1);
    bool last = j == std::string::npos;
    if (!d->dir) return nullptr;
    if (last) { if (parent) *parent = d; if (leaf) *leaf = c; }
    auto it = d->kids.find(c);
    if (it == d->kids.end()) return nullptr;
    if (last) return it->second;
    d = it->second;
    i = j;
  }
}
static Inode* new_inode(bool dir) {
  Inode* n = new Inode();
  n->dir = dir;
  n->nlink = 1;
  n->mtime = g_now;
  if (!g_freed->empty() && fault(K_INO_REUSE)) { n->ino = g_freed->back(); g_freed->pop_back(); }
  else n->ino = g_ino++;
  return n;
}
static void maybe_free(Inode* n) {
  if (n->nlink == 0 && n->opens == 0 && n->ino) { g_used -= n->data.size(); g_freed->push_back(n->ino); n->ino = 0; n->data.clear(); }
}
static Inode* mkpath(const std::string& dir) {
  Inode* d = root();
  size_t i = 4;
  while (i < dir.size()) {
    size_t j = dir.find('/', i + 1);
    std::string c = dir.substr(i + 1, (j == std::string::npos ? dir.size() : j) - i - 1);
    auto it = d->kids.find(c);
    if (it == d->kids.end()) { Inode* n = new_inode(true); d->kids[c] = n; d = n; }
    else d = it->second;
    if (j == std::string::npos) break;
    i = j;
  }
  return d;
}
static void split(const std::string& p, std::string& dir, std::string& leaf) { size_t k = p.rfind('/'); dir = p.substr(0, k); leaf = p.substr(k + 1); }

// ---- used by actors
void vfs_mkdir(const std::string& p) { InSim s; root(); mkpath(p); }
void vfs_create(const std::string& p, const std::string& d) {
  InSim s;
  root();
  std::string dir, leaf;
  split(p, dir, leaf);
  Inode* D = mkpath(dir);
  auto it = D->kids.find(leaf);
  Inode* n;
  if (it == D->kids.end()) { n = new_inode(false); D->kids[leaf] = n; }
  else { n = it->second; g_used -= n->data.size(); n->data.clear(); }
  n->data.append(d);
  g_used += d.size();
  n->mtime = g_now;
}
void vfs_append(const std::string& p, const std::string& d) {
  InSim s;
  Inode* n = lookup(p);
  if (!n) { vfs_create(p, d); return; }
  n->data.append(d);
  g_used += d.size();
  n->mtime = g_now;
}
static int do_unlink(const std::string& p, bool wantdir) {
  Inode* D; std::string leaf;
  Inode* n = lookup(p, &D, &leaf);
  if (!n) return ENOENT;
  if (!D) return EBUSY;
  if (wantdir) { if (!n->dir) return ENOTDIR; if (!n->kids.empty()) return ENOTEMPTY; }
  else if (n->dir) return EISDIR;
  D->kids.erase(leaf);
  n->nlink--;
  maybe_free(n);
  return 0;
}
static int do_rename(const std::string& a, const std::string& b) {
  Inode *DA, *DB; std::string la, lb;
  Inode* n = lookup(a, &DA, &la);
  if (!n || !DA) return ENOENT;
  Inode* o = lookup(b, &DB, &lb);
  if (!DB) return ENOENT;
  if (o == n) return 0;
  if (o) { if (o->dir && !o->kids.empty()) return ENOTEMPTY; DB->kids.erase(lb); o->nlink--; maybe_free(o); }
  DA->kids.erase(la);
  DB->kids[lb] = n;
  return 0;
}
void vfs_rename(const std::string& a, const std::string& b) { InSim s; root(); do_rename(a, b); }
void vfs_unlink(const std::string& p) { InSim s; root(); do_unlink(p, false); }
void vfs_truncate(const std::string& p, size_t n) {
  InSim s;
  Inode* i = lookup(p);
  if (!i) return;
  g_used -= i->data.size();
  i->data.resize(n);
  g_used += n;
  i->mtime = g_now;
}
static void usage(Inode* n, u64& b, u64& c) {
  if (!n->dir) { b += n->data.size(); c++; return; }
  for (auto& k : n->kids) usage(k.second, b, c);
}
u64 vfs_usage(const std::string& prefix, u64* nfiles) {
  InSim s;
  root();
  u64 b = 0, c = 0;
  Inode* n = lookup(prefix);
  if (n) usage(n, b, c);
  if (nfiles) *nfiles = c;
  return b;
}
u64 vfs_max_dir(const std::string& prefix) {   // most bytes in one child directory
  InSim s;
  root();
  Inode* n = lookup(prefix);
  u64 m = 0;
  if (n && n->dir) for (auto& k : n->kids) { u64 b = 0, c = 0; usage(k.second, b, c); if (b > m) m = b; }
  return m;
}
void vfs_usage_log(const std::string& prefix) {
  InSim s;
  root();
  Inode* n = lookup(prefix);
  if (!n || !n->dir) return;
  for (auto& k : n->kids) { u64 b = 0, c = 0; usage(k.second, b, c); logf("DU %s %llu %llu", k.first.c_str(), (unsigned long long)b, (unsigned long long)c); }
}

static void dump(Inode* n, const std::string& p) {
  if (!n->dir) { log_hex(("DUMP " + p).c_str(), n->data.data(), n->data.size()); return; }
  for (auto& k : n->kids) dump(k.second, p + "/" + k.first);
}
void vfs_dump_log(const std::string& prefix) {   // every file below, with its content
  InSim s;
  root();
  Inode* n = lookup(prefix);
  if (n) dump(n, prefix);
}

// ---- used by the application
static int do_open(const char* path, int flags, int mode) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_open, (long)path, flags, mode));
  sched_point('O');
  InSim s;
  root();
  if (fault(K_FS_EINTR)) { errno = EINTR; return -1; }
  if (fault(K_FS_EMFILE)) { errno = EMFILE; return -1; }
  Inode* D; std::string leaf;
  Inode* n = lookup(p, &D, &leaf);
  if (!n) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!D) { errno = ENOENT; return -1; }
    if (fault(K_FS_ENOSPC)) { errno = ENOSPC; return -1; }
    n = new_inode(false);
    D->kids[leaf] = n;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (n->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if ((flags & O_TRUNC) && !n->dir) { g_used -= n->data.size(); n->data.clear(); n->mtime = g_now; }
  }
  File* f = new File();
  f->t = T_REG;
  f->ino = n;
  f->oflags = flags;
  f->path = p;
  int fd = fd_alloc(f);
  if (fd < 0) { delete f; return -1; }
  n->opens++;
  return fd;
}
EXPORT int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
EXPORT int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl | O_LARGEFILE, m); }
EXPORT int openat(int, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
EXPORT int openat64(int, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(p, fl, m); }
EXPORT int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
void vfs_close(File* f) { if (f->ino) { f->ino->opens--; maybe_free(f->ino); } }
static ssize_t rd_at(File* f, void* p, size_t n, u64 off, bool adv) {
  if (f->ino->dir) { errno = EISDIR; return -1; }
  if ((f->oflags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (fault(K_FS_EINTR)) { errno = EINTR; return -1; }
  if (fault(K_FS_EIO)) { errno = EIO; logf("EIO %s", f->path.c_str()); return -1; }
  std::string& d = f->ino->data;
  if (off >= d.size()) return 0;
  size_t k = std::min<u64>(n, d.size() - off);
  if (k > 1 && fault(K_FS_SHORT_READ)) k = 1 + drawk(K_FS_SHORT_READ, k - 1);
  memcpy(p, d.data() + off, k);
  if (adv) f->off = off + k;
  if (scn.verbose) logf("FR %s off=%llu n=%zu", f->path.c_str(), (unsigned long long)off, k);
  return k;
}
static ssize_t wr_at(File* f, const void* p, size_t n, u64 off, bool adv) {
  if ((f->oflags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (fault(K_FS_EINTR)) { errno = EINTR; return -1; }
  if (fault(K_FS_ENOSPC)) { errno = ENOSPC; logf("ENOSPC %s", f->path.c_str()); return -1; }
  std::string& d = f->ino->data;
  u64 grow = off + n > d.size() ? off + n - d.size() : 0;
  if (g_used + grow > scn.fs_cap) {
    u64 room = scn.fs_cap > g_used ? scn.fs_cap - g_used : 0;
    u64 within = d.size() > off ? d.size() - off : 0;
    u64 can = within + room;
    logf("DISKFULL %s", f->path.c_str());
    if (can == 0) { errno = ENOSPC; return -1; }
    if (can < n) n = can;
  }
  if (n > 1 && fault(K_FS_SHORT_WRITE)) n = 1 + drawk(K_FS_SHORT_WRITE, n - 1);
  if (off + n > d.size()) { g_used += off + n - d.size(); d.resize(off + n); }
  memcpy(&d[off], p, n);
  if (adv) f->off = off + n;
  f->ino->mtime = g_now;
  if (scn.verbose) logf("FW %s off=%llu n=%zu", f->path.c_str(), (unsigned long long)off, n);
  return n;
}
ssize_t vfs_read(File* f, void* p, size_t n) { return rd_at(f, p, n, f->off, true); }
ssize_t vfs_write(File* f, const void* p, size_t n) { return wr_at(f, p, n, (f->oflags & O_APPEND) ? f->ino->data.size() : f->off, true); }
EXPORT ssize_t pread64(int fd, void* p, size_t n, off64_t o) {
  File* f = fd_file(fd);
  if (!f) return rawret(raws(SYS_pread64, fd, (long)p, n, o));
  sched_point('r'); InSim s;
  return rd_at(f, p, n, o, false);
}
EXPORT ssize_t pread(int fd, void* p, size_t n, off_t o) { return pread64(fd, p, n, o); }
EXPORT ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) {
  File* f = fd_file(fd);
  if (!f) return rawret(raws(SYS_pwrite64, fd, (long)p, n, o));
  sched_point('q'); InSim s;
  return wr_at(f, p, n, o, false);
}
EXPORT ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return pwrite64(fd, p, n, o); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
  File* f = fd_file(fd);
  if (!f) return rawret(raws(SYS_lseek, fd, o, w));
  if (f->t != T_REG) { errno = ESPIPE; return -1; }
  sched_point('s');
  i64 b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (i64)f->off : (i64)f->ino->data.size();
  if (b + o < 0) { errno = EINVAL; return -1; }
  f->off = b + o;
  return f->off;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
template <class S> static void fill(S* st, Inode* n) {
  memset(st, 0, sizeof *st);
  st->st_dev = DEV;
  st->st_ino = n->ino;
  st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | (n->perm ? n->perm : 0644));
  st->st_nlink = n->nlink;
  st->st_size = n->data.size();
  st->st_blksize = 4096;
  i64 t = (i64)n->mtime + g_rt_off;
  st->st_mtim.tv_sec = t / 1000000000ll;
  st->st_mtim.tv_nsec = t % 1000000000ll;
  st->st_atim = st->st_ctim = st->st_mtim;
}
template <class S> static int do_stat(const char* path, S* st, bool l) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(l ? SYS_lstat : SYS_stat, (long)path, (long)st));
  sched_point('i');
  InSim s;
  root();
  Inode* n = lookup(p);
  if (!n) { errno = ENOENT; return -1; }
  fill(st, n);
  return 0;
}
template <class S> static int do_fstat(int fd, S* st) {
  File* f = fd_file(fd);
  if (!f) return (int)rawret(raws(SYS_fstat, fd, (long)st));
  sched_point('i');
  InSim s;
  if (f->t == T_REG || f->t == T_DIR) { fill(st, f->ino); return 0; }
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFSOCK | 0777;
  return 0;
}
EXPORT int stat(const char* p, struct stat* s) { return do_stat(p, s, false); }
EXPORT int stat64(const char* p, struct stat64* s) { return do_stat(p, s, false); }
EXPORT int lstat(const char* p, struct stat* s) { return do_stat(p, s, true); }
EXPORT int lstat64(const char* p, struct stat64* s) { return do_stat(p, s, true); }
EXPORT int fstat(int fd, struct stat* s) { return do_fstat(fd, s); }
EXPORT int fstat64(int fd, struct stat64* s) { return do_fstat(fd, s); }
EXPORT int __fxstat(int, int fd, struct stat* s) { return do_fstat(fd, s); }
EXPORT int __fxstat64(int, int fd, struct stat64* s) { return do_fstat(fd, s); }
EXPORT int __xstat(int, const char* p, struct stat* s) { return do_stat(p, s, false); }
EXPORT int __xstat64(int, const char* p, struct stat64* s) { return do_stat(p, s, false); }
EXPORT int __lxstat(int, const char* p, struct stat* s) { return do_stat(p, s, true); }
EXPORT int __lxstat64(int, const char* p, struct stat64* s) { return do_stat(p, s, true); }
EXPORT int access(const char* path, int m) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_access, (long)path, m));
  InSim s;
  if (!lookup(p)) { errno = ENOENT; return -1; }
  return 0;
}
EXPORT int unlink(const char* path) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_unlink, (long)path));
  sched_point('u');
  InSim s;
  int e = do_unlink(p, false);
  if (e) { errno = e; return -1; }
  if (scn.verbose) logf("UNLINK %s", p.c_str());
  return 0;
}
EXPORT int rmdir(const char* path) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_rmdir, (long)path));
  sched_point('u');
  InSim s;
  int e = do_unlink(p, true);
  if (e) { errno = e; return -1; }
  return 0;
}
EXPORT int remove(const char* path) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_unlink, (long)path));
  InSim* s = new InSim();
  Inode* n = lookup(p);
  bool d = n && n->dir;
  delete s;
  return d ? rmdir(path) : unlink(path);
}
EXPORT int rename(const char* a, const char* b) {
  std::string p = vfs_path(a), q = vfs_path(b);
  if (p.empty() || q.empty() || !g_active) return (int)rawret(raws(SYS_rename, (long)a, (long)b));
  sched_point('u');
  InSim s;
  int e = do_rename(p, q);
  if (e) { errno = e; return -1; }
  return 0;
}
EXPORT int mkdir(const char* path, mode_t m) {
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return (int)rawret(raws(SYS_mkdir, (long)path, m));
  sched_point('u');
  InSim s;
  root();
  Inode* D; std::string leaf;
  if (lookup(p, &D, &leaf)) { errno = EEXIST; return -1; }
  if (!D) { errno = ENOENT; return -1; }
  D->kids[leaf] = new_inode(true);
  return 0;
}
EXPORT int ftruncate64(int fd, off64_t n) {
  File* f = fd_file(fd);
  if (!f) return (int)rawret(raws(SYS_ftruncate, fd, n));
  sched_point('u');
  InSim s;
  if (f->t != T_REG) { errno = EINVAL; return -1; }
  g_used += (u64)n - f->ino->data.size();
  f->ino->data.resize(n);
  return 0;
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int fsync(int fd) {
  if (!fd_file(fd)) return (int)rawret(raws(SYS_fsync, fd));
  sched_point('f');
  return 0;
}
EXPORT int fdatasync(int fd) {
  if (!fd_file(fd)) return (int)rawret(raws(SYS_fdatasync, fd));
  sched_point('f');
  return 0;
}
EXPORT int chmod(const char* path, mode_t m) {
  if (vfs_path(path).empty() || !g_active) return (int)rawret(raws(SYS_chmod, (long)path, m));
  sched_point('i');
  InSim s;
  Inode* n = lookup(vfs_path(path));
  if (!n) { errno = ENOENT; return -1; }
  n->perm = m & 07777;
  return 0;
}
EXPORT int fchmod(int fd, mode_t m) {
  if (!fd_file(fd)) return (int)rawret(raws(SYS_fchmod, fd, m));
  sched_point('i');
  InSim s;
  if (fd_file(fd)->ino) fd_file(fd)->ino->perm = m & 07777;
  return 0;
}
EXPORT char* realpath(const char* path, char* out) {
  static auto r = (char* (*)(const char*, char*))dlsym(RTLD_NEXT, "realpath");
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return r(path, out);
  InSim s;
  if (!lookup(p)) { errno = ENOENT; return nullptr; }
  if (!out) out = (char*)malloc(PATH_MAX);
  strcpy(out, p.c_str());
  return out;
}
struct FakeDir { u64 magic; int fd; std::vector<std::pair<std::string, Inode*>> ents; size_t i; struct dirent64 de; };
static const u64 MAGIC = 0xd1d1d1d1feedull;
EXPORT DIR* opendir(const char* path) {
  static auto r = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
  std::string p = vfs_path(path);
  if (p.empty() || !g_active) return r(path);
  sched_point('d');
  InSim s;
  root();
  Inode* n = lookup(p);
  if (!n) { errno = ENOENT; return nullptr; }
  if (!n->dir) { errno = ENOTDIR; return nullptr; }
  FakeDir* d = new FakeDir();
  d->magic = MAGIC;
  d->i = 0;
  d->ents.push_back({".", n});
  d->ents.push_back({"..", n});
  for (auto& k : n->kids) d->ents.push_back(k);
  // directory order is arbitrary
  for (size_t i = d->ents.size(); i > 3; i--) {
    if (!fault(K_READDIR)) continue;
    std::swap(d->ents[i - 1], d->ents[2 + drawk(K_READDIR, i - 2)]);
  }
  File* f = new File();
  f->t = T_DIR; f->ino = n;
  n->opens++;
  d->fd = fd_alloc(f);
  return (DIR*)d;
}
static bool fake(DIR* d) { return ((FakeDir*)d)->magic == MAGIC; }
EXPORT struct dirent64* readdir64(DIR* dp) {
  static auto r = (struct dirent64 * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir64");
  if (!fake(dp)) return r(dp);
  FakeDir* d = (FakeDir*)dp;
  if (d->i >= d->ents.size()) return nullptr;
  auto& e = d->ents[d->i++];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = e.second->ino;
  d->de.d_reclen = sizeof d->de;
  d->de.d_type = e.second->dir ? DT_DIR : DT_REG;
  snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str());
  return &d->de;
}
EXPORT int readdir64_r(DIR* dp, struct dirent64* ent, struct dirent64** res) {
  static auto r = (int (*)(DIR*, struct dirent64*, struct dirent64**))dlsym(RTLD_NEXT, "readdir64_r");
  if (!fake(dp)) return r(dp, ent, res);
  InSim s;
  struct dirent64* e = readdir64(dp);
  if (!e) { *res = nullptr; return 0; }
  memcpy(ent, e, sizeof *e);
  *res = ent;
  return 0;
}
EXPORT struct dirent* readdir(DIR* dp) {
  static auto r = (struct dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir");
  if (!fake(dp)) return r(dp);
  return (struct dirent*)readdir64(dp);
}
EXPORT int dirfd(DIR* dp) {
  static auto r = (int (*)(DIR*))dlsym(RTLD_NEXT, "dirfd");
  return fake(dp) ? ((FakeDir*)dp)->fd : r(dp);
}
EXPORT int closedir(DIR* dp) {
  static auto r = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir");
  if (!fake(dp)) return r(dp);
  InSim s;
  FakeDir* d = (FakeDir*)dp;
  if (d->fd >= 0) { g_insim--; close(d->fd); g_insim++; }
  d->magic = 0;
  delete d;
  return 0;
}
