/* simio: the simulator's storage and clock seam.
 *
 * Interposes the libc calls through which Python, numpy (stdio), libhdf5 and
 * libnetcdf reach the disk and the clock.  Only files below the simulated root
 * are touched; everything else passes straight through.  All decisions come
 * from the plan the simulator installs (sim_*), never from a real clock or a
 * real random source, so one plan is one repeatable execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---- operation classes ---- */
enum {
  OP_OPEN_R = 0, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE_R, OP_CLOSE_W,
  OP_TRUNC, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_SEEK, OP_MKDIR, OP_MMAP, OP_OTHER,
  OP_N
};
/* ---- fault actions ---- */
enum { ACT_ERR = 1, ACT_SHORT = 2, ACT_CRASH = 3, ACT_CRASH_AFTER = 4, ACT_TORN = 5, ACT_EOF = 6 };

typedef struct { int op; int act; long nth; long arg; int sticky; int fired; int pathid; } fault_t;
typedef struct { int op; int pathid; long len; long ret; int inj; int err; } event_t;

#define MAXFD 4096
#define MAXFAULT 64
#define MAXEV 400000
#define MAXPATH 512
#define MAXOFD 65536

static char root_[PATH_MAX]; static size_t rootlen_;
static int armed_;
static fault_t faults_[MAXFAULT]; static int nfaults_;
static event_t *ev_; static long nev_, dropped_;
static char *paths_[MAXPATH]; static int npaths_;
static long opcount_[OP_N];
static long totalops_;
static long fdo_[MAXFD];            /* 0: untracked, else ofd id */
static int ofd_path_[MAXOFD]; static int ofd_refs_[MAXOFD]; static int ofd_w_[MAXOFD]; static int ofd_opened_armed_[MAXOFD];
static long nofd_ = 1;
static long crash_left_ = -1;       /* bytes that still reach the disk before the process dies, -1: it does not */
static long cap_left_ = -1;         /* disk capacity, -1: unlimited */
static uint64_t short_rng_; static long short_r_, short_w_; static int eintr_pct_;
static long zero_reads_, zero_limit_ = 0;
static long op_limit_ = 0;
static long shorts_r_fired_, shorts_w_fired_, eintr_fired_, enospc_fired_;
static int clock_on_; static int64_t clock_ns_, clock_step_; static long clock_calls_;
static long crash_code_ = 137;
static long mmap_writes_;

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_ftruncate)(int, off_t);
static int (*r_truncate)(const char *, off_t);
static int (*r_fsync)(int); static int (*r_fdatasync)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_mkdir)(const char *, mode_t);
static FILE *(*r_fdopen)(int, const char *);
static FILE *(*r_fopen)(const char *, const char *);
static int (*r_dup)(int); static int (*r_dup2)(int, int); static int (*r_dup3)(int, int, int);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static ssize_t (*r_sendfile)(int, int, off_t *, size_t);
static int (*r_fileno)(FILE *);
static void *(*r_mmap)(void *, size_t, int, int, int, off_t);

#define R(n) do { if (!r_##n) r_##n = dlsym(RTLD_NEXT, #n); } while (0)

static void init_(void) {
  static int done; if (done) return; done = 1;
  R(read); R(write); R(pread); R(pwrite); R(close); R(ftruncate); R(truncate);
  R(fsync); R(fdatasync); R(rename); R(unlink); R(mkdir); R(fdopen); R(fopen);
  R(dup); R(dup2); R(dup3); R(clock_gettime); R(sendfile); R(fileno); R(mmap);
}
__attribute__((constructor)) static void ctor_(void) { init_(); }

static uint64_t rnd_(void) {
  uint64_t z = (short_rng_ += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static int pathid_(const char *p) {
  for (int i = 0; i < npaths_; i++) if (!strcmp(paths_[i], p)) return i;
  if (npaths_ >= MAXPATH) return MAXPATH - 1;
  paths_[npaths_] = strdup(p); return npaths_++;
}
/* returns path id (relative to the root) or -1 when outside the root */
static int track_path_at_(int dirfd, const char *p) {
  if (!rootlen_ || !p) return -1;
  char buf[PATH_MAX * 2]; 
  if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
  else if (dirfd == AT_FDCWD) { char c[PATH_MAX]; if (!getcwd(c, sizeof c)) return -1; snprintf(buf, sizeof buf, "%s/%s", c, p); }
  else return -1;
  /* normalise "//", "/./" and "/../" */
  char out[PATH_MAX * 2]; size_t o = 0; char *s = buf;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') {}
    else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; }
    else { out[o++] = '/'; memcpy(out + o, s, n); o += n; }
    s = e;
  }
  out[o] = 0;
  if (strncmp(out, root_, rootlen_) || (out[rootlen_] != '/' && out[rootlen_] != 0)) return -1;
  return pathid_(out[rootlen_] ? out + rootlen_ + 1 : ".");
}
static int track_path_(const char *p) { return track_path_at_(AT_FDCWD, p); }

static void log_(int op, int pid, long len, long ret, int inj, int err) {
  if (!ev_) { ev_ = malloc(sizeof(event_t) * MAXEV); }
  if (nev_ >= MAXEV) { dropped_++; return; }
  event_t *e = &ev_[nev_++]; e->op = op; e->pathid = pid; e->len = len; e->ret = ret; e->inj = inj; e->err = err;
}
static void die_(long code) { _exit((int)code); }

/* next fault for this op, or NULL; advances the op counters */
static fault_t *step_(int op, int pid) {
  if (!armed_) return NULL;
  opcount_[op]++; totalops_++;
  if (op_limit_ && totalops_ > op_limit_) die_(98);
  for (int i = 0; i < nfaults_; i++) {
    fault_t *f = &faults_[i];
    if (f->pathid >= 0 && f->pathid != pid) continue;
    long n;
    if (f->op == -1) n = totalops_; else if (f->op == op) n = opcount_[op]; else continue;
    if (n == f->nth || (f->sticky && n > f->nth)) { f->fired++; return f; }
  }
  return NULL;
}
static int bad_crash_(fault_t *f, int op, int pid, long len) {
  if (f && f->act == ACT_CRASH) { log_(op, pid, len, -1, ACT_CRASH, 0); die_(crash_code_); }
  return 0;
}
static void after_(fault_t *f, int op, int pid, long len, long ret) {
  if (f && f->act == ACT_CRASH_AFTER) { log_(op, pid, len, ret, ACT_CRASH_AFTER, 0); die_(crash_code_); }
}

static long tracked_(int fd) { return (fd >= 0 && fd < MAXFD) ? fdo_[fd] : 0; }
static void track_fd_(int fd, int pid, int w) {
  if (fd < 0 || fd >= MAXFD || nofd_ >= MAXOFD) return;
  long o = nofd_++; fdo_[fd] = o; ofd_path_[o] = pid; ofd_refs_[o] = 1; ofd_w_[o] = w; ofd_opened_armed_[o] = armed_;
}

/* ---- open ---- */
static int do_open_(int dirfd, const char *path, int flags, mode_t mode) {
  init_();
  int pid = track_path_at_(dirfd, path);
  if (pid < 0) return syscall(SYS_openat, dirfd, path, flags, mode);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int op = w ? OP_OPEN_W : OP_OPEN_R;
  if (flags & (O_DIRECTORY | O_PATH)) return syscall(SYS_openat, dirfd, path, flags, mode);
  fault_t *f = step_(op, pid);
  bad_crash_(f, op, pid, flags);
  if (f && f->act == ACT_ERR) { log_(op, pid, flags & (O_CREAT|O_TRUNC|O_APPEND|O_EXCL|O_ACCMODE), -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  int e = errno;
  if (armed_) log_(op, pid, flags & (O_CREAT|O_TRUNC|O_APPEND|O_EXCL|O_ACCMODE), fd < 0 ? -1 : 0, 0, fd < 0 ? e : 0);
  if (fd >= 0) track_fd_(fd, pid, w);
  after_(f, op, pid, flags, fd);
  errno = e; return fd;
}
#define MODE_ mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ return do_open_(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ return do_open_(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ return do_open_(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ return do_open_(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open_(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open_(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* ---- read ---- */
static ssize_t do_read_(int fd, void *b, size_t n, off_t off, int positional) {
  init_();
  long o = tracked_(fd);
#define REALR(nn) (positional ? r_pread(fd, b, nn, off) : r_read(fd, b, nn))
  if (!o || !armed_) return REALR(n);
  int pid = ofd_path_[o];
  fault_t *f = step_(OP_READ, pid);
  bad_crash_(f, OP_READ, pid, n);
  if (f && f->act == ACT_ERR) { log_(OP_READ, pid, n, -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  if (f && f->act == ACT_EOF) { log_(OP_READ, pid, n, 0, ACT_EOF, 0); return 0; }
  size_t m = n; int inj = 0;
  if (f && f->act == ACT_SHORT && n > 1) { m = f->arg < 1 ? 1 : (size_t)f->arg; if (m > n) m = n; inj = ACT_SHORT; }
  else if (short_r_ > 0 && n > 1) {
    if (eintr_pct_ && (long)(rnd_() % 100) < eintr_pct_) { eintr_fired_++; log_(OP_READ, pid, n, -1, ACT_ERR, EINTR); errno = EINTR; return -1; }
    size_t lim = 1 + rnd_() % short_r_; if (lim < m) { m = lim; inj = ACT_SHORT; }
  }
  ssize_t r = REALR(m); int e = errno;
  if (inj && r == (ssize_t)m && m < n) shorts_r_fired_++;
  log_(OP_READ, pid, n, r, inj, r < 0 ? e : 0);
  if (r == 0 && n > 0) { zero_reads_++; if (zero_limit_ && zero_reads_ > zero_limit_) die_(99); }
  after_(f, OP_READ, pid, n, r);
  errno = e; return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read_(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t off) { return do_read_(fd, b, n, off, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return do_read_(fd, b, n, off, 1); }
ssize_t readv(int fd, const struct iovec *iov, int c) {
  init_(); if (!tracked_(fd)) return syscall(SYS_readv, fd, iov, c);
  for (int i = 0; i < c; i++) if (iov[i].iov_len) return do_read_(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
  return 0;
}

/* ---- write ---- */
static ssize_t do_write_(int fd, const void *b, size_t n, off_t off, int positional) {
  init_();
  long o = tracked_(fd);
#define REALW(nn) (positional ? r_pwrite(fd, b, nn, off) : r_write(fd, b, nn))
  if (!o || !armed_) return REALW(n);
  int pid = ofd_path_[o];
  fault_t *f = step_(OP_WRITE, pid);
  bad_crash_(f, OP_WRITE, pid, n);
  if (f && f->act == ACT_ERR) { log_(OP_WRITE, pid, n, -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  if (f && f->act == ACT_TORN) { /* part of the buffer reaches the disk, then the machine dies */
    size_t k = n ? (size_t)f->arg % (n + 1) : 0; if (k) REALW(k);
    log_(OP_WRITE, pid, n, k, ACT_TORN, 0); die_(crash_code_);
  }
  size_t m = n; int inj = 0;
  if (f && f->act == ACT_SHORT && n > 1) { m = f->arg < 1 ? 1 : (size_t)f->arg; if (m > n) m = n; inj = ACT_SHORT; }
  else if (short_w_ > 0 && n > 1) {
    if (eintr_pct_ && (long)(rnd_() % 100) < eintr_pct_) { eintr_fired_++; log_(OP_WRITE, pid, n, -1, ACT_ERR, EINTR); errno = EINTR; return -1; }
    size_t lim = 1 + rnd_() % short_w_; if (lim < m) { m = lim; inj = ACT_SHORT; }
  }
  if (crash_left_ >= 0) {
    if ((long)m > crash_left_) { if (crash_left_) REALW((size_t)crash_left_); log_(OP_WRITE, pid, n, crash_left_, ACT_TORN, 0); die_(crash_code_); }
    crash_left_ -= (long)m;
  }
  if (cap_left_ >= 0) {
    struct stat st; off_t pos = positional ? off : lseek(fd, 0, SEEK_CUR);
    if (!fstat(fd, &st)) {
      if (fcntl(fd, F_GETFL) & O_APPEND) pos = st.st_size;
      off_t end = pos + (off_t)m; off_t grow = end > st.st_size ? end - st.st_size : 0;
      if (grow > cap_left_) {
        off_t over = grow - cap_left_; off_t can = (off_t)m - over;
        enospc_fired_++;
        if (can <= 0) { log_(OP_WRITE, pid, n, -1, ACT_ERR, ENOSPC); errno = ENOSPC; return -1; }
        m = can; inj = ACT_SHORT; cap_left_ = 0;
      } else cap_left_ -= grow;
    }
  }
  ssize_t r = REALW(m); int e = errno;
  if (inj && m < n) shorts_w_fired_++;
  log_(OP_WRITE, pid, n, r, inj, r < 0 ? e : 0);
  after_(f, OP_WRITE, pid, n, r);
  errno = e; return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write_(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return do_write_(fd, b, n, off, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return do_write_(fd, b, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
  init_(); if (!tracked_(fd)) return syscall(SYS_writev, fd, iov, c);
  for (int i = 0; i < c; i++) if (iov[i].iov_len) return do_write_(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
  return 0;
}
static ssize_t do_sendfile_(int out, int in, off_t *off, size_t n) {
  init_();
  long o = tracked_(out), i = tracked_(in);
  if (!armed_ || (!o && !i)) return r_sendfile(out, in, off, n);
  /* emulate through the two seams so that every fault applies */
  char buf[4096]; size_t m = n < sizeof buf ? n : sizeof buf; off_t start = off ? *off : 0;
  ssize_t r = off ? pread(in, buf, m, start) : read(in, buf, m);
  if (r <= 0) return r;
  ssize_t done = 0;
  while (done < r) { ssize_t w = write(out, buf + done, r - done); if (w < 0) { if (errno == EINTR) continue; return done ? done : -1; } done += w; }
  if (off) *off = start + done;
  return done;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return do_sendfile_(out, in, off, n); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return do_sendfile_(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
  if (armed_ && (tracked_(in) || tracked_(out))) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
}

/* ---- close & friends ---- */
int close(int fd) {
  init_();
  long o = tracked_(fd);
  if (!o) return r_close(fd);
  fdo_[fd] = 0; int last = --ofd_refs_[o] == 0; int pid = ofd_path_[o];
  if (!armed_) return r_close(fd);
  if (!last) { return r_close(fd); }
  int op = ofd_w_[o] ? OP_CLOSE_W : OP_CLOSE_R;
  fault_t *f = step_(op, pid);
  bad_crash_(f, op, pid, 0);
  int r = r_close(fd); int e = errno;
  if (f && f->act == ACT_ERR) { log_(op, pid, 0, -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  log_(op, pid, 0, r, 0, r < 0 ? e : 0);
  after_(f, op, pid, 0, r);
  errno = e; return r;
}
static void dup_track_(int fd, int nfd) {
  if (nfd < 0 || nfd >= MAXFD) return;
  long old = fdo_[nfd]; if (old) { ofd_refs_[old]--; fdo_[nfd] = 0; }
  long o = tracked_(fd); if (o) { fdo_[nfd] = o; ofd_refs_[o]++; }
}
int dup(int fd) { init_(); int n = r_dup(fd); dup_track_(fd, n); return n; }
int dup2(int fd, int nfd) { init_(); int n = r_dup2(fd, nfd); if (n >= 0 && fd != nfd) dup_track_(fd, n); return n; }
int dup3(int fd, int nfd, int fl) { init_(); int n = r_dup3(fd, nfd, fl); if (n >= 0) dup_track_(fd, n); return n; }
static int do_fcntl_(int fd, int cmd, long arg) {
  int n = syscall(SYS_fcntl, fd, cmd, arg);
  if (n >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dup_track_(fd, n);
  return n;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl_(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl_(fd, cmd, a); }

static int do_trunc_(int fd, off_t len) {
  init_(); long o = tracked_(fd); if (!o || !armed_) return r_ftruncate(fd, len);
  int pid = ofd_path_[o]; fault_t *f = step_(OP_TRUNC, pid); bad_crash_(f, OP_TRUNC, pid, len);
  if (f && f->act == ACT_ERR) { log_(OP_TRUNC, pid, len, -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  int r = r_ftruncate(fd, len); log_(OP_TRUNC, pid, len, r, 0, 0); after_(f, OP_TRUNC, pid, len, r); return r;
}
int ftruncate(int fd, off_t len) { return do_trunc_(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc_(fd, len); }
int truncate(const char *p, off_t len) {
  init_(); int pid = track_path_(p); if (pid >= 0 && armed_) { step_(OP_TRUNC, pid); log_(OP_TRUNC, pid, len, 0, 0, 0); }
  return r_truncate(p, len);
}
static int do_sync_(int fd, int data) {
  init_(); long o = tracked_(fd); if (!o || !armed_) return data ? r_fdatasync(fd) : r_fsync(fd);
  int pid = ofd_path_[o]; fault_t *f = step_(OP_FSYNC, pid); bad_crash_(f, OP_FSYNC, pid, 0);
  if (f && f->act == ACT_ERR) { log_(OP_FSYNC, pid, 0, -1, ACT_ERR, (int)f->arg); errno = (int)f->arg; return -1; }
  log_(OP_FSYNC, pid, 0, 0, 0, 0); after_(f, OP_FSYNC, pid, 0, 0); return 0;
}
int fsync(int fd) { return do_sync_(fd, 0); }
int fdatasync(int fd) { return do_sync_(fd, 1); }

static int meta_(int op, const char *p, int *pid, fault_t **f) {
  *pid = track_path_(p); *f = NULL; if (*pid < 0 || !armed_) return 0;
  *f = step_(op, *pid); bad_crash_(*f, op, *pid, 0);
  if (*f && (*f)->act == ACT_ERR) { log_(op, *pid, 0, -1, ACT_ERR, (int)(*f)->arg); errno = (int)(*f)->arg; return -1; }
  return 1;
}
int rename(const char *a, const char *b) {
  init_(); int pid; fault_t *f; int m = meta_(OP_RENAME, b, &pid, &f); if (m < 0) return -1;
  int r = r_rename(a, b); int e = errno;
  if (m) { log_(OP_RENAME, pid, track_path_(a), r, 0, r < 0 ? e : 0); after_(f, OP_RENAME, pid, 0, r); }
  errno = e; return r;
}
int renameat(int d1, const char *a, int d2, const char *b) {
  if (d1 == AT_FDCWD && d2 == AT_FDCWD) return rename(a, b);
  return syscall(SYS_renameat, d1, a, d2, b);
}
int unlink(const char *p) {
  init_(); int pid; fault_t *f; int m = meta_(OP_UNLINK, p, &pid, &f); if (m < 0) return -1;
  int r = r_unlink(p); int e = errno;
  if (m) { log_(OP_UNLINK, pid, 0, r, 0, r < 0 ? e : 0); after_(f, OP_UNLINK, pid, 0, r); }
  errno = e; return r;
}
int unlinkat(int d, const char *p, int fl) {
  if (d == AT_FDCWD && !fl) return unlink(p);
  return syscall(SYS_unlinkat, d, p, fl);
}
int mkdir(const char *p, mode_t mode) {
  init_(); int pid; fault_t *f; int m = meta_(OP_MKDIR, p, &pid, &f); if (m < 0) return -1;
  int r = r_mkdir(p, mode); if (m) log_(OP_MKDIR, pid, 0, r, 0, 0); return r;
}
static void *do_mmap_(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  init_(); long o = tracked_(fd);
  if (o && armed_) { int pid = ofd_path_[o]; step_(OP_MMAP, pid); log_(OP_MMAP, pid, (prot & PROT_WRITE) && (flags & MAP_SHARED), 0, 0, 0);
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED)) mmap_writes_++; }
  return r_mmap ? r_mmap(a, n, prot, flags, fd, off) : (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap_(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return do_mmap_(a, n, prot, flags, fd, off); }

/* ---- stdio: tracked descriptors become cookie streams over the seam ---- */
static long blk_;
typedef struct { int fd; } cookie_t;
/* glibc streams do not retry EINTR and regular files never raise it: not modelled for stdio */
static ssize_t ck_read_(void *c, char *b, size_t n) { ssize_t r; do r = read(((cookie_t *)c)->fd, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write_(void *c, const char *b, size_t n) {
  size_t done = 0;                   /* as glibc's own file write: loop over short counts */
  while (done < n) { ssize_t w = write(((cookie_t *)c)->fd, b + done, n - done); if (w < 0) { if (errno == EINTR) continue; return done ? (ssize_t)done : 0; } done += w; }
  return done;
}
static int ck_seek_(void *c, off64_t *off, int wh) { off_t r = lseek(((cookie_t *)c)->fd, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close_(void *c) { int fd = ((cookie_t *)c)->fd; free(c); return close(fd); }
static FILE *wrap_(int fd, const char *mode) {
  cookie_t *c = malloc(sizeof *c); c->fd = fd;
  cookie_io_functions_t io = { ck_read_, ck_write_, ck_seek_, ck_close_ };
  FILE *f = fopencookie(c, mode, io);
  if (!f) { free(c); return NULL; }
  if (armed_ && blk_) setvbuf(f, NULL, _IOFBF, blk_);
  /* a cookie stream believes it starts at 0: tell it where the descriptor is */
  off_t pos = lseek(fd, 0, SEEK_CUR); if (pos > 0) fseeko(f, pos, SEEK_SET);
  return f;
}
#define MAXFILES 256
static struct { FILE *f; int fd; } files_[MAXFILES];
static void remember_(FILE *f, int fd) { for (int i = 0; i < MAXFILES; i++) if (!files_[i].f) { files_[i].f = f; files_[i].fd = fd; return; } }
FILE *fdopen(int fd, const char *mode) {
  init_(); if (!tracked_(fd)) return r_fdopen(fd, mode);
  FILE *f = wrap_(fd, mode); if (f) remember_(f, fd); return f;
}
static FILE *do_fopen_(const char *p, const char *mode) {
  init_(); if (track_path_(p) < 0) return r_fopen(p, mode);
  int plus = strchr(mode, '+') != NULL; int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (mode[0] == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND) | (plus ? O_RDWR : O_WRONLY);
  int fd = do_open_(AT_FDCWD, p, fl, 0666); if (fd < 0) return NULL;
  FILE *f = wrap_(fd, mode); if (f) remember_(f, fd); return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen_(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen_(p, m); }
int fileno(FILE *f) { init_(); for (int i = 0; i < MAXFILES; i++) if (files_[i].f == f) return files_[i].fd; return r_fileno(f); }
int fclose(FILE *f) {
  static int (*r_fclose)(FILE *); if (!r_fclose) r_fclose = dlsym(RTLD_NEXT, "fclose");
  for (int i = 0; i < MAXFILES; i++) if (files_[i].f == f) { files_[i].f = NULL; break; }
  return r_fclose(f);
}

/* ---- preferred I/O size: decides how much user-space libraries buffer ---- */
int fstat(int fd, struct stat *st) {
  static int (*r)(int, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "fstat");
  int x = r(fd, st); if (!x && blk_ && armed_ && tracked_(fd)) st->st_blksize = blk_; return x;
}
int fstat64(int fd, struct stat64 *st) {
  static int (*r)(int, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "fstat64");
  int x = r(fd, st); if (!x && blk_ && armed_ && tracked_(fd)) st->st_blksize = blk_; return x;
}
void sim_blksize(long n) { blk_ = n; }

/* ---- clock ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
  init_();
  if (clock_on_ && id == CLOCK_REALTIME) {
    clock_calls_++; ts->tv_sec = clock_ns_ / 1000000000; ts->tv_nsec = clock_ns_ % 1000000000; clock_ns_ += clock_step_; return 0;
  }
  return r_clock_gettime ? r_clock_gettime(id, ts) : (int)syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

/* ---- control ---- */
void sim_root(const char *p) { snprintf(root_, sizeof root_, "%s", p); rootlen_ = strlen(root_); while (rootlen_ && root_[rootlen_ - 1] == '/') root_[--rootlen_] = 0; }
void sim_reset(void) {
  armed_ = 0; nfaults_ = 0; nev_ = dropped_ = 0; memset(opcount_, 0, sizeof opcount_); totalops_ = 0; cap_left_ = -1; crash_left_ = -1;
  short_r_ = short_w_ = 0; blk_ = 0; eintr_pct_ = 0; zero_reads_ = 0; zero_limit_ = 0; op_limit_ = 0; mmap_writes_ = 0;
  shorts_r_fired_ = shorts_w_fired_ = eintr_fired_ = enospc_fired_ = 0; clock_on_ = 0; clock_calls_ = 0;
}
void sim_arm(int on) { armed_ = on; }
int sim_armed(void) { return armed_; }
void sim_fault(int op, long nth, int act, long arg, int sticky, const char *path) {
  if (nfaults_ >= MAXFAULT) return;
  fault_t *f = &faults_[nfaults_++]; f->op = op; f->nth = nth; f->act = act; f->arg = arg; f->sticky = sticky; f->fired = 0;
  f->pathid = path && *path ? pathid_(path) : -1;
}
void sim_capacity(long b) { cap_left_ = b; }
void sim_crash_at(long b) { crash_left_ = b; }
void sim_short(uint64_t seed, long r, long w, int eintr) { short_rng_ = seed; short_r_ = r; short_w_ = w; eintr_pct_ = eintr; }
void sim_limits(long zero, long ops) { zero_limit_ = zero; op_limit_ = ops; }
void sim_clock(int on, int64_t ns, int64_t step) { clock_on_ = on; clock_ns_ = ns; clock_step_ = step; }
long sim_clock_calls(void) { return clock_calls_; }
long sim_fired(int i) { return i < nfaults_ ? faults_[i].fired : 0; }
long sim_stat(int k) {
  switch (k) { case 0: return shorts_r_fired_; case 1: return shorts_w_fired_; case 2: return eintr_fired_; case 3: return enospc_fired_;
    case 4: return zero_reads_; case 5: return totalops_; case 6: return mmap_writes_; case 7: return dropped_; case 8: return cap_left_; }
  return 0;
}
long sim_opcount(int op) { return opcount_[op]; }
long sim_nev(void) { return nev_; }
void sim_event(long i, long *out) { event_t *e = &ev_[i]; out[0] = e->op; out[1] = e->pathid; out[2] = e->len; out[3] = e->ret; out[4] = e->inj; out[5] = e->err; }
const char *sim_path(int i) { return i >= 0 && i < npaths_ ? paths_[i] : ""; }
int sim_open_handles(char *buf, size_t n) {
  int c = 0; size_t o = 0; if (n) buf[0] = 0;
  for (int i = 0; i < MAXFD; i++) if (fdo_[i] && ofd_opened_armed_[fdo_[i]]) { c++; int k = snprintf(buf + o, n > o ? n - o : 0, "%s%s", o ? "," : "", sim_path(ofd_path_[fdo_[i]])); if (k > 0) o += k; if (o > n) o = n; }
  return c;
}
void sim_forget_handles(void) { for (int i = 0; i < MAXFD; i++) if (fdo_[i]) ofd_opened_armed_[fdo_[i]] = 0; }
int sim_present(void) { return 1; }
