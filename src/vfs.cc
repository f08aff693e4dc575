// The simulated disk and the libc interposers for file I/O.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>

#include "shared.h"

namespace sim {

Shared* g_sh = nullptr;
const char* kOpClassName[OP_NCLASS] = {"open", "read", "write", "close", "sync", "meta", "rename"};
const char* kFaultKindName[FK_NKIND] = {"none",   "short",    "eintr",     "eio",
                                        "enospc", "openfail", "closefail", "renamefail", "crash"};
const char* kStatName[ST_NSTAT] = {
    "short_read", "short_write", "eintr", "eio_read", "eio_write", "enospc", "open_failure",
    "close_failure", "crash", "torn_write", "alloc_failure", "thread_create_eagain", "preemption",
    "conflict_preemption", "clock_jump", "concurrent_writer_step", "power_loss", "bit_flip",
    "truncation", "rename_failure", "random_draw"};

// ---------------------------------------------------------------- disk primitives
int DiskFind(const Disk& d, const char* path) {
  for (int i = 0; i < kMaxFiles; ++i)
    if (d.f[i].used && strcmp(d.f[i].path, path) == 0) return i;
  return -1;
}

static int DiskCreate(const char* path) {
  for (int i = 0; i < kMaxFiles; ++i) {
    VFile& f = g_sh->disk.f[i];
    if (!f.used) {
      f.used = 1;
      f.size = 0;
      snprintf(f.path, sizeof f.path, "%s", path);
      return i;
    }
  }
  return -1;
}

static void DiskResize(int i, uint32_t size) {
  VFile& f = g_sh->disk.f[i];
  if (size < f.size) memset(g_sh->data[i] + size, 0, f.size - size);
  f.size = size;
}

static bool DiskWriteAt(int i, uint32_t off, const void* p, uint32_t n) {
  VFile& f = g_sh->disk.f[i];
  if ((uint64_t)off + n > kFileCap) return false;
  memcpy(g_sh->data[i] + off, p, n);
  if (off + n > f.size) f.size = off + n;
  f.hiwater = std::max(f.hiwater, f.size);
  return true;
}

void DiskReset() {
  for (int i = 0; i < kMaxFiles; ++i) {
    VFile& f = g_sh->disk.f[i];
    if (f.hiwater) memset(g_sh->data[i], 0, f.hiwater);
    memset(&f, 0, sizeof f);
  }
}

void DiskPut(const std::string& path, const std::string& bytes) {
  int i = DiskFind(g_sh->disk, path.c_str());
  if (i < 0) i = DiskCreate(path.c_str());
  if (i < 0) abort();
  DiskResize(i, 0);
  if (!DiskWriteAt(i, 0, bytes.data(), bytes.size())) abort();
}

bool DiskGet(const std::string& path, std::string* bytes) {
  int i = DiskFind(g_sh->disk, path.c_str());
  if (i < 0) return false;
  bytes->assign((const char*)g_sh->data[i], g_sh->disk.f[i].size);
  return true;
}

void DiskRemove(const std::string& path) {
  int i = DiskFind(g_sh->disk, path.c_str());
  if (i >= 0) {
    DiskResize(i, 0);
    g_sh->disk.f[i].used = 0;
  }
}

// Re-applies a logged operation. Slots are stable between the recording and the
// replay because both start from the same directory.
void ApplyVOp(const VOp& op, const uint8_t* opdata) {
  VFile& f = g_sh->disk.f[op.file];
  switch (op.type) {
    case VO_CREATE:
      f.used = 1;
      f.size = 0;
      snprintf(f.path, sizeof f.path, "%s", (const char*)(opdata + op.data));
      break;
    case VO_TRUNC:
      DiskResize(op.file, op.len);
      break;
    case VO_WRITE:
      DiskWriteAt(op.file, op.off, opdata + op.data, op.len);
      break;
    case VO_RENAME:
      if (op.file2 >= 0 && op.file2 != op.file) {
        DiskResize(op.file2, 0);
        g_sh->disk.f[op.file2].used = 0;
      }
      snprintf(f.path, sizeof f.path, "%s", (const char*)(opdata + op.data));
      break;
    case VO_UNLINK:
      DiskResize(op.file, 0);
      f.used = 0;
      break;
    default:
      break;
  }
}

// ---------------------------------------------------------------- child state
static bool g_active = false;
static SplitMix g_rchunk(0), g_wchunk(0), g_writer(0);
static uint32_t g_wpos = 0;
void ClockReset();
void SchedReset();

bool SimActive() { return g_active; }

void ChildActivate() {
  const ExecCfg& c = g_sh->cfg;
  g_rchunk = SplitMix(c.chunk_read_seed);
  g_wchunk = SplitMix(c.chunk_write_seed);
  g_writer = SplitMix(c.writer_seed);
  g_wpos = 0;
  ClockReset();
  SchedReset();
  g_active = true;
  if (c.writer_active)
    while (g_wpos < g_sh->nwops && g_wpos < c.writer_start) ApplyVOp(g_sh->wops[g_wpos++], g_sh->wopdata);
}
void ChildDeactivate() { g_active = false; }
void SchedFinish();

void SimExit(int code) {
  SchedFinish();
  g_active = false;
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

static void LogOp(int type, int file, int file2, uint32_t off, uint32_t len, const void* data, uint32_t dlen) {
  if (!g_sh->cfg.record_ops) return;
  ExecRes& r = g_sh->res;
  if (r.nvops >= kOpLogCap || r.vop_data_len + dlen > kOpDataCap) {
    r.vfs_error = 1;
    return;
  }
  VOp& op = g_sh->vops[r.nvops++];
  op = VOp{type, file, file2, off, len, r.vop_data_len};
  if (dlen) memcpy(g_sh->opdata + r.vop_data_len, data, dlen);
  r.vop_data_len += dlen;
}

// ---------------------------------------------------------------- descriptors
constexpr int kFdBase = 20000;
constexpr int kMaxFd = 64;
struct VFd {
  bool used;
  int file;
  int64_t off;
  bool rd, wr, append;
  FILE* fp;
};
static VFd g_fd[kMaxFd];

static VFd* Fd(int fd) {
  if (!g_active || fd < kFdBase || fd >= kFdBase + kMaxFd || !g_fd[fd - kFdBase].used) return nullptr;
  return &g_fd[fd - kFdBase];
}
static bool IsVirt(const char* p) { return g_active && p && strncmp(p, "/sim/", 5) == 0; }

// Accounts one operation and returns the fault (if any) that hits it.
static bool PathEnds(const char* p, const char* suf) {
  size_t a = strlen(p), b = strlen(suf);
  return a >= b && strcmp(p + a - b, suf) == 0;
}

static bool PathHas(const char* p, const char* s) { return strstr(p, s) != nullptr; }

static Fault* PreOp(int cls, int file, const char* path = nullptr, const char* path2 = nullptr) {
  ExecRes& r = g_sh->res;
  ExecCfg& c = g_sh->cfg;
  ++r.op_count[cls];
  const uint64_t g = r.ops_total++;
  if (!path && file >= 0) path = g_sh->disk.f[file].path;
  if (file < 0 && path) file = DiskFind(g_sh->disk, path);
  if (file >= 0) ++r.file_ops[cls][file];
  if (r.ops_total > c.op_budget) SimExit(EXIT_SIM_HANG);
  if (c.writer_active && g_wpos < g_sh->nwops) {
    if (g_writer.Below(2)) {
      uint64_t n = 1 + g_writer.Below(c.writer_step_max);
      while (n-- && g_wpos < g_sh->nwops) {
        ApplyVOp(g_sh->wops[g_wpos++], g_sh->wopdata);
        ++r.stat[ST_CONCURRENT_WRITE_STEP];
      }
    }
  }
  for (int i = 0; i < c.nfaults; ++i) {
    Fault& f = c.faults[i];
    bool hit = false;
    if (f.op == cls && (!f.file[0] || (path && PathHas(path, f.file)) || (path2 && PathHas(path2, f.file)))) hit = f.seen++ == f.nth;
    if (f.op == -1) hit = f.nth == g;
    if (hit) {
      f.near = f.file[0] && !(path && PathEnds(path, f.file)) && !(path2 && PathEnds(path2, f.file));
      if (f.kind == FK_CRASH && cls != OP_WRITE) {
        ++f.fired;
        ++r.stat[ST_CRASH];
        SimExit(EXIT_SIM_CRASH);
      }
      return &f;
    }
  }
  return nullptr;
}

static int VOpen(const char* path, int flags) {
  Fault* f = PreOp(OP_OPEN, -1, path);
  if (f && f->kind == FK_OPENFAIL) {
    ++f->fired;
    ++g_sh->res.stat[ST_OPENFAIL];
    errno = f->param > 0 ? (int)f->param : EACCES;
    return -1;
  }
  int i = DiskFind(g_sh->disk, path);
  if (i < 0) {
    if (!(flags & O_CREAT)) {
      errno = ENOENT;
      return -1;
    }
    i = DiskCreate(path);
    if (i < 0) {
      g_sh->res.vfs_error = 1;
      errno = ENOSPC;
      return -1;
    }
    LogOp(VO_CREATE, i, -1, 0, 0, path, strlen(path) + 1);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  } else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
    DiskResize(i, 0);
    LogOp(VO_TRUNC, i, -1, 0, 0, nullptr, 0);
  }
  for (int k = 0; k < kMaxFd; ++k)
    if (!g_fd[k].used) {
      g_fd[k] = VFd{true, i, 0, (flags & O_ACCMODE) != O_WRONLY, (flags & O_ACCMODE) != O_RDONLY,
                    (flags & O_APPEND) != 0, nullptr};
      return kFdBase + k;
    }
  errno = EMFILE;
  return -1;
}

static ssize_t VReadAt(VFd* d, void* buf, size_t n, int64_t off) {
  ExecRes& r = g_sh->res;
  ExecCfg& c = g_sh->cfg;
  Fault* f = PreOp(OP_READ, d->file);
  if (!d->rd) {
    errno = EBADF;
    return -1;
  }
  const uint32_t size = g_sh->disk.f[d->file].size;
  size_t avail = off < size ? size - off : 0;
  size_t m = std::min(n, avail);
  if (f) {
    switch (f->kind) {
      case FK_EINTR:
        ++f->fired, ++r.stat[ST_EINTR];
        errno = EINTR;
        return -1;
      case FK_EIO:
        ++f->fired, ++r.stat[ST_EIO_READ];
        errno = EIO;
        return -1;
      case FK_SHORT:
        if (m > 1) {
          ++f->fired, ++r.stat[ST_SHORT_READ];
          m = std::min<size_t>(m, std::max<int64_t>(1, f->param));
        }
        break;
    }
  }
  if (c.chunk_read_seed && m > 1) {
    size_t k = 1 + g_rchunk.Below(std::min<uint64_t>(m, c.chunk_max ? c.chunk_max : m));
    if ((c.chunk_intr & 1) && g_rchunk.Below(16) == 0) {
      ++r.stat[ST_EINTR];
      errno = EINTR;
      return -1;
    }
    if (k < m) ++r.stat[ST_SHORT_READ], m = k;
  }
  memcpy(buf, g_sh->data[d->file] + off, m);
  return m;
}

static ssize_t VWriteAt(VFd* d, const void* buf, size_t n, int64_t off) {
  ExecRes& r = g_sh->res;
  ExecCfg& c = g_sh->cfg;
  Fault* f = PreOp(OP_WRITE, d->file);
  if (!d->wr) {
    errno = EBADF;
    return -1;
  }
  size_t m = n;
  int err = 0;
  bool crash = false;
  if (f) {
    switch (f->kind) {
      case FK_EINTR:
        ++f->fired, ++r.stat[ST_EINTR];
        errno = EINTR;
        return -1;
      case FK_EIO:
        ++f->fired, ++r.stat[ST_EIO_WRITE];
        errno = EIO;
        return -1;
      case FK_SHORT:
        if (m > 1) {
          ++f->fired, ++r.stat[ST_SHORT_WRITE];
          m = std::min<size_t>(m, std::max<int64_t>(1, f->param));
        }
        break;
      case FK_ENOSPC:
        ++f->fired;
        c.disk_capacity = c.disk_capacity < 0 ? std::max<int64_t>(0, f->param) : std::min<int64_t>(c.disk_capacity, std::max<int64_t>(0, f->param));
        break;
      case FK_CRASH:
        ++f->fired, ++r.stat[ST_CRASH];
        if (f->param > 0 && (size_t)f->param < n) ++r.stat[ST_TORN_WRITE];
        m = std::min<size_t>(m, std::max<int64_t>(0, f->param));
        crash = true;
        break;
    }
  }
  if (!crash && c.chunk_write_seed && m > 1) {
    if ((c.chunk_intr & 2) && g_wchunk.Below(16) == 0) {
      ++r.stat[ST_EINTR];
      errno = EINTR;
      return -1;
    }
    size_t k = 1 + g_wchunk.Below(std::min<uint64_t>(m, c.chunk_max ? c.chunk_max : m));
    if (k < m) ++r.stat[ST_SHORT_WRITE], m = k;
  }
  if (c.disk_capacity >= 0 && (int64_t)m > c.disk_capacity) {
    m = c.disk_capacity;
    ++r.stat[ST_ENOSPC];
    if (m == 0 && n > 0) err = ENOSPC;
  }
  if (m > 0) {
    if (!DiskWriteAt(d->file, off, buf, m)) {
      r.vfs_error = 1;
      errno = EFBIG;
      return -1;
    }
    LogOp(VO_WRITE, d->file, -1, off, m, buf, m);
    if (c.disk_capacity >= 0) c.disk_capacity -= m;
  }
  if (crash) SimExit(EXIT_SIM_CRASH);
  if (err) {
    errno = err;
    return -1;
  }
  return m;
}

static ssize_t VRead(VFd* d, void* buf, size_t n) {
  ssize_t m = VReadAt(d, buf, n, d->off);
  if (m > 0) d->off += m;
  return m;
}
static ssize_t VWrite(VFd* d, const void* buf, size_t n) {
  int64_t off = d->append ? g_sh->disk.f[d->file].size : d->off;
  ssize_t m = VWriteAt(d, buf, n, off);
  if (m > 0) d->off = off + m;
  return m;
}
static int64_t VSeek(VFd* d, int64_t off, int whence) {
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->off : g_sh->disk.f[d->file].size;
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  return d->off = base + off;
}
static int VClose(VFd* d) {
  Fault* f = PreOp(OP_CLOSE, d->file);
  d->used = false;
  if (f && f->kind == FK_CLOSEFAIL) {
    ++f->fired, ++g_sh->res.stat[ST_CLOSEFAIL];
    errno = EIO;
    return -1;
  }
  return 0;
}
static int VSync(VFd* d) {
  Fault* f = PreOp(OP_SYNC, d->file);
  if (f && f->kind == FK_EIO) {
    ++f->fired, ++g_sh->res.stat[ST_EIO_WRITE];
    errno = EIO;
    return -1;
  }
  LogOp(VO_SYNC, d->file, -1, 0, 0, nullptr, 0);
  return 0;
}
static int VTruncate(int file, int64_t len) {
  PreOp(OP_META, file);
  if (len < 0 || len > kFileCap) {
    errno = EINVAL;
    return -1;
  }
  DiskResize(file, len);
  g_sh->disk.f[file].hiwater = std::max<uint32_t>(g_sh->disk.f[file].hiwater, len);
  LogOp(VO_TRUNC, file, -1, 0, len, nullptr, 0);
  return 0;
}
static void FillStat(int file, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = g_sh->disk.f[file].size;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_ino = 1000 + file;
  st->st_dev = 77;
}
static int VStat(const char* path, struct stat* st) {
  PreOp(OP_META, -1, path);
  int i = DiskFind(g_sh->disk, path);
  if (i < 0) {
    if (strcmp(path, "/sim/") == 0) {
      memset(st, 0, sizeof *st);
      st->st_mode = S_IFDIR | 0755;
      return 0;
    }
    errno = ENOENT;
    return -1;
  }
  FillStat(i, st);
  return 0;
}
static int VRename(const char* a, const char* b) {
  Fault* f = PreOp(OP_RENAME, -1, a, b);
  if (f && f->kind == FK_RENAMEFAIL) {
    ++f->fired;
    ++g_sh->res.stat[ST_RENAMEFAIL];
    errno = f->param > 0 ? (int)f->param : EIO;
    return -1;
  }
  int i = DiskFind(g_sh->disk, a);
  if (i < 0) {
    errno = ENOENT;
    return -1;
  }
  int j = DiskFind(g_sh->disk, b);
  LogOp(VO_RENAME, i, j, 0, 0, b, strlen(b) + 1);
  if (j >= 0 && j != i) {
    DiskResize(j, 0);
    g_sh->disk.f[j].used = 0;
  }
  snprintf(g_sh->disk.f[i].path, sizeof g_sh->disk.f[i].path, "%s", b);
  return 0;
}
static int VUnlink(const char* a) {
  PreOp(OP_META, -1, a);
  int i = DiskFind(g_sh->disk, a);
  if (i < 0) {
    errno = ENOENT;
    return -1;
  }
  LogOp(VO_UNLINK, i, -1, 0, 0, nullptr, 0);
  DiskResize(i, 0);
  g_sh->disk.f[i].used = 0;
  return 0;
}

// ---------------------------------------------------------------- FILE* on top
static ssize_t CkRead(void* c, char* b, size_t n) { return VRead((VFd*)c, b, n); }
static ssize_t CkWrite(void* c, const char* b, size_t n) {
  // As glibc does for its own streams: a short write is continued, a failing one is an error.
  size_t done = 0;
  while (done < n) {
    ssize_t m = VWrite((VFd*)c, b + done, n - done);
    if (m < 0) break;
    done += m;
  }
  return done;  // less than n signals an error
}
static int CkSeek(void* c, off64_t* off, int wh) {
  int64_t r = VSeek((VFd*)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int CkClose(void* c) {
  VFd* d = (VFd*)c;
  d->fp = nullptr;
  return VClose(d);
}
static FILE* VFdopen(int fd, const char* mode) {
  VFd* d = &g_fd[fd - kFdBase];
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  FILE* fp = fopencookie(d, mode, io);
  if (!fp) {
    d->used = false;
    return nullptr;
  }
  d->fp = fp;
  return fp;
}
static int ModeFlags(const char* mode) {
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC)
                                                      : (O_WRONLY | O_CREAT | O_APPEND);
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  return fl;
}
static FILE* VFopen(const char* path, const char* mode) {
  int fd = VOpen(path, ModeFlags(mode));
  if (fd < 0) return nullptr;
  return VFdopen(fd, mode);
}
static int FilenoOf(FILE* fp) {
  if (g_active)
    for (int k = 0; k < kMaxFd; ++k)
      if (g_fd[k].used && g_fd[k].fp == fp) return kFdBase + k;
  return -1;
}

}  // namespace sim

using namespace sim;

#define REAL(ret, name, args)                                   \
  typedef ret(*name##_t) args;                                  \
  static name##_t real_##name() {                               \
    static name##_t p = nullptr;                                \
    if (!p) p = (name##_t)dlsym(RTLD_NEXT, #name);              \
    return p;                                                   \
  }

REAL(int, open, (const char*, int, ...))
REAL(int, openat, (int, const char*, int, ...))
REAL(FILE*, fopen, (const char*, const char*))
REAL(FILE*, fdopen, (int, const char*))
REAL(int, fileno, (FILE*))
REAL(ssize_t, read, (int, void*, size_t))
REAL(ssize_t, pread, (int, void*, size_t, off_t))
REAL(ssize_t, write, (int, const void*, size_t))
REAL(ssize_t, pwrite, (int, const void*, size_t, off_t))
REAL(ssize_t, readv, (int, const struct iovec*, int))
REAL(ssize_t, writev, (int, const struct iovec*, int))
REAL(off_t, lseek, (int, off_t, int))
REAL(int, close, (int))
REAL(int, fstat, (int, struct stat*))
REAL(int, stat, (const char*, struct stat*))
REAL(int, lstat, (const char*, struct stat*))
REAL(int, fstatat, (int, const char*, struct stat*, int))
REAL(int, access, (const char*, int))
REAL(int, rename, (const char*, const char*))
REAL(int, unlink, (const char*))
REAL(int, remove, (const char*))
REAL(int, fsync, (int))
REAL(int, fdatasync, (int))
REAL(int, ftruncate, (int, off_t))
REAL(int, truncate, (const char*, off_t))
REAL(int, ioctl, (int, unsigned long, ...))
REAL(int, poll, (struct pollfd*, nfds_t, int))
REAL(int, fcntl, (int, int, ...))
REAL(int, isatty, (int))

extern "C" {

int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (IsVirt(path)) return VOpen(path, flags);
  return real_open()(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (IsVirt(path)) return VOpen(path, flags);
  return real_open()(path, flags, mode);
}
int openat(int dfd, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (IsVirt(path)) return VOpen(path, flags);
  return real_openat()(dfd, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
FILE* fopen(const char* path, const char* mode) {
  if (IsVirt(path)) return VFopen(path, mode);
  return real_fopen()(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* fdopen(int fd, const char* mode) {
  if (Fd(fd)) return VFdopen(fd, mode);
  return real_fdopen()(fd, mode);
}
int fileno(FILE* fp) {
  int fd = FilenoOf(fp);
  if (fd >= 0) return fd;
  return real_fileno()(fp);
}
int fileno_unlocked(FILE* fp) { return fileno(fp); }
ssize_t read(int fd, void* b, size_t n) {
  if (VFd* d = Fd(fd)) return VRead(d, b, n);
  return real_read()(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
  if (VFd* d = Fd(fd)) return VReadAt(d, b, n, off);
  return real_pread()(fd, b, n, off);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t write(int fd, const void* b, size_t n) {
  if (VFd* d = Fd(fd)) return VWrite(d, b, n);
  return real_write()(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
  if (VFd* d = Fd(fd)) return VWriteAt(d, b, n, off);
  return real_pwrite()(fd, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (VFd* d = Fd(fd)) {
    for (int i = 0; i < c; ++i)
      if (v[i].iov_len) return VRead(d, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return real_readv()(fd, v, c);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (VFd* d = Fd(fd)) {
    std::string all;
    for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return VWrite(d, all.data(), all.size());
  }
  return real_writev()(fd, v, c);
}
off_t lseek(int fd, off_t off, int wh) {
  if (VFd* d = Fd(fd)) return VSeek(d, off, wh);
  return real_lseek()(fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
int close(int fd) {
  if (VFd* d = Fd(fd)) return VClose(d);
  return real_close()(fd);
}
int fstat(int fd, struct stat* st) {
  if (VFd* d = Fd(fd)) {
    FillStat(d->file, st);
    return 0;
  }
  return real_fstat()(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) {
  if (IsVirt(p)) return VStat(p, st);
  return real_stat()(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) {
  if (IsVirt(p)) return VStat(p, st);
  return real_lstat()(p, st);
}
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstatat(int dfd, const char* p, struct stat* st, int fl) {
  if (IsVirt(p)) return VStat(p, st);
  return real_fstatat()(dfd, p, st, fl);
}
int access(const char* p, int m) {
  if (IsVirt(p)) {
    struct stat st;
    return VStat(p, &st);
  }
  return real_access()(p, m);
}
int rename(const char* a, const char* b) {
  if (IsVirt(a) && IsVirt(b)) return VRename(a, b);
  if (IsVirt(a) || IsVirt(b)) {
    errno = EXDEV;
    return -1;
  }
  return real_rename()(a, b);
}
int unlink(const char* a) {
  if (IsVirt(a)) return VUnlink(a);
  return real_unlink()(a);
}
int remove(const char* a) {
  if (IsVirt(a)) return VUnlink(a);
  return real_remove()(a);
}
int fsync(int fd) {
  if (VFd* d = Fd(fd)) return VSync(d);
  return real_fsync()(fd);
}
int fdatasync(int fd) {
  if (VFd* d = Fd(fd)) return VSync(d);
  return real_fdatasync()(fd);
}
int ftruncate(int fd, off_t n) {
  if (VFd* d = Fd(fd)) return VTruncate(d->file, n);
  return real_ftruncate()(fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
  if (IsVirt(p)) {
    int i = DiskFind(g_sh->disk, p);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    return VTruncate(i, n);
  }
  return real_truncate()(p, n);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (VFd* d = Fd(fd)) {
    if (req == FIONREAD) {
      int64_t left = (int64_t)g_sh->disk.f[d->file].size - d->off;
      *(int*)arg = left > 0 ? (int)left : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return real_ioctl()(fd, req, arg);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (g_active && n >= 1 && Fd(p[0].fd)) {
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = p[i].events & (POLLIN | POLLOUT);
      if (p[i].revents) ++k;
    }
    return k;
  }
  return real_poll()(p, n, t);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (VFd* d = Fd(fd)) {
    if (cmd == F_GETFL) return d->rd && d->wr ? O_RDWR : d->wr ? O_WRONLY : O_RDONLY;
    return 0;
  }
  return real_fcntl()(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int isatty(int fd) {
  if (Fd(fd)) {
    errno = ENOTTY;
    return 0;
  }
  return real_isatty()(fd);
}

void sim_trace(const char* data, size_t n) {
  if (!g_sh) return;
  ExecRes& r = g_sh->res;
  if (r.trace_len + n > kTraceCap) {
    r.trace_overflow = 1;
    return;
  }
  memcpy(g_sh->trace + r.trace_len, data, n);
  r.trace_len += n;
}
const char* sim_scenario(size_t* n) {
  *n = g_sh->scenario_len;
  return g_sh->scenario;
}

}  // extern "C"
