// LD_PRELOAD library watching the file operations below one directory.
//  - counts them, records them (optionally with the written bytes),
//  - ends the process in front of (or half way through) the k-th one,
//  - makes the k-th one fail with a chosen error.
// Controlled from inside the process through vf_* functions (ctypes) or the VF_* environment variables.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>


static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
#define RAW_PICK(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define rawsys(...) RAW_PICK(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

static char root[PATH_MAX];
static size_t rootlen;
static long fired_;
static long count_, kill_at = -1, fail_at = -1, fail_n = 0;
static int torn, fail_err, record_fd = -1, record_data;
static int active;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside;
static char failmask[64];


static int under(const char *p) {
  if (!active || !p || !rootlen) return 0;
  if (strncmp(p, root, rootlen) != 0 || (p[rootlen] != '/' && p[rootlen] != 0)) return 0;
  const char *b = strrchr(p, '/');
  b = b ? b + 1 : p;
  if (strncmp(b, "LOG", 3) == 0 && (b[3] == 0 || b[3] == '.')) return 0;   // RocksDB's text log
  return 1;
}
static void norm(char *p) {      // "a//b", "a/./b" -> "a/b"; trailing slash dropped
  char *r = p, *w = p;
  while (*r) {
    if (*r == '/') {
      while (r[0] == '/' && (r[1] == '/' || (r[1] == '.' && (r[2] == '/' || r[2] == 0)))) r += (r[1] == '/') ? 1 : 2;
      if (*r == 0) break;
    }
    *w++ = *r++;
  }
  *w = 0;
  if (w > p + 1 && w[-1] == '/') w[-1] = 0;
}
static void fdpath(int fd, char *out) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  out[n > 0 ? n : 0] = 0;
  char *d = strstr(out, " (deleted)");
  if (d && d[10] == 0) *d = 0;
}
static void abspath(int dirfd, const char *p, char *out) {
  if (p[0] == '/') {
    snprintf(out, PATH_MAX, "%s", p);
  } else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else fdpath(dirfd, base);
    snprintf(out, PATH_MAX, "%s/%s", base, p);
  }
  norm(out);
}
static void rec(const char *op, const char *a, const char *b, long long off, long long len, const void *data, size_t dlen) {
  if (record_fd < 0) return;
  const char *ra = a ? a + rootlen : "", *rb = b ? b + rootlen : "";
  char line[2 * PATH_MAX + 256];
  int n = snprintf(line, sizeof line, "%ld\t%s\t%s\t%s\t%lld\t%lld\t%zu\n", count_, op, ra, rb, off, len,
                   record_data && data ? dlen : (size_t)0);
  rawsys(SYS_write, record_fd, line, n);
  if (record_data && data && dlen) {
    const char *q = data;
    size_t left = dlen;
    while (left) {
      long w = rawsys(SYS_write, record_fd, q, left);
      if (w <= 0) break;
      q += w;
      left -= w;
    }
    rawsys(SYS_write, record_fd, "\n", 1);
  }
}
// Returns 0 to go on, 1 to fail with errno set, 2 to perform half and die. Called with mu held.
static int step(const char *op) {
  count_++;
  if (kill_at >= 0 && count_ == kill_at) {
    if (torn && strcmp(op, "write") == 0) return 2;
    kill(getpid(), SIGKILL);
    for (;;) pause();
  }
  if (fail_at >= 0 && count_ >= fail_at && count_ < fail_at + fail_n && (!failmask[0] || strstr(failmask, op))) {
    errno = fail_err;
    fired_++;
    return 1;
  }
  return 0;
}
// Operations that change nothing are counted (and fail) only when the mask names them.
static int step_ro(const char *op) {
  if (!failmask[0] || !strstr(failmask, op)) return 0;
  pthread_mutex_lock(&mu);
  int s = step(op);
  pthread_mutex_unlock(&mu);
  return s == 1;
}
static void die(void) {
  kill(getpid(), SIGKILL);
  for (;;) pause();
}

// ---- control
void vf_start(const char *dir, long kill_k, int torn_, long fail_k, long fail_cnt, int err, const char *mask, const char *recfile, int data) {
  pthread_mutex_lock(&mu);
  char t[PATH_MAX];
  if (!realpath(dir, t)) snprintf(t, sizeof t, "%s", dir);
  snprintf(root, sizeof root, "%s", t);
  rootlen = strlen(root);
  kill_at = kill_k;
  torn = torn_;
  fail_at = fail_k;
  fail_n = fail_cnt;
  fail_err = err;
  snprintf(failmask, sizeof failmask, "%s", mask ? mask : "");
  count_ = 0;
  record_data = data;
  if (record_fd >= 0) { close(record_fd); record_fd = -1; }
  if (recfile && recfile[0]) {
    int f = rawsys(SYS_openat, AT_FDCWD, recfile, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    record_fd = fcntl(f, F_DUPFD_CLOEXEC, 500);
    rawsys(SYS_close, f);
  }
  active = 1;
  pthread_mutex_unlock(&mu);
}
void vf_arm(long kill_k, int torn_) {
  pthread_mutex_lock(&mu);
  count_ = 0; kill_at = kill_k; torn = torn_;
  pthread_mutex_unlock(&mu);
}
void vf_fail(long k, long n, int err, const char *mask) {
  pthread_mutex_lock(&mu);
  count_ = 0; fail_at = k; fail_n = n; fail_err = err;
  snprintf(failmask, sizeof failmask, "%s", mask ? mask : "");
  pthread_mutex_unlock(&mu);
}
long vf_count(void) { return count_; }
long vf_fired(void) { long f = fired_; fired_ = 0; return f; }
void vf_stop(void) {
  pthread_mutex_lock(&mu);
  active = 0; kill_at = fail_at = -1;
  pthread_mutex_unlock(&mu);
}
void vf_mark(const char *text) {
  pthread_mutex_lock(&mu);
  if (record_fd >= 0) {
    char line[512];
    int n = snprintf(line, sizeof line, "%ld\tmark\t%s\t\t0\t0\t0\n", count_, text);
    rawsys(SYS_write, record_fd, line, n);
  }
  pthread_mutex_unlock(&mu);
}
__attribute__((constructor)) static void init(void) {
  const char *r = getenv("VF_ROOT");
  if (!r) return;
  const char *k = getenv("VF_KILL"), *f = getenv("VF_FAIL"), *n = getenv("VF_FAILN"), *e = getenv("VF_ERR");
  vf_start(r, k ? atol(k) : -1, getenv("VF_TORN") != NULL, f ? atol(f) : -1, n ? atol(n) : 1, e ? atoi(e) : EIO,
           getenv("VF_MASK"), getenv("VF_RECORD"), getenv("VF_DATA") != NULL);
}


// ---- opening
static int do_open(int dirfd, const char *path, int flags, mode_t mode, const char *sym) {
  char p[PATH_MAX];
  int r;
  if (active && !inside && (flags & (O_CREAT | O_TRUNC))) {
    inside = 1;
    abspath(dirfd, path, p);
    if (under(p)) {
      struct stat st;
      int there = stat(p, &st) == 0;
      if (!there || ((flags & O_TRUNC) && st.st_size > 0)) {
        pthread_mutex_lock(&mu);
        const char *op = there ? "trunc" : "create";
        int s = step(op);
        if (s == 1) { r = -1; }
        else {
          r = rawsys(SYS_openat, dirfd, path, flags, mode);
          if (r >= 0) rec(op, p, NULL, 0, 0, NULL, 0);
        }
        int e = errno;
        pthread_mutex_unlock(&mu);
        inside = 0;
        errno = e;
        return r;
      }
    }
    inside = 0;
  }
  if (active && !inside && failmask[0]) {
    inside = 1;
    abspath(dirfd, path, p);
    int f = under(p) && step_ro("ropen");
    inside = 0;
    if (f) { errno = fail_err; return -1; }
  }
  return rawsys(SYS_openat, dirfd, path, flags, mode);
}
static int fails_on(int fd, const char *op) {
  char p[PATH_MAX];
  if (!active || inside || !failmask[0] || !strstr(failmask, op)) return 0;
  inside = 1;
  fdpath(fd, p);
  int f = under(p) && step_ro(op);
  inside = 0;
  if (f) errno = fail_err;
  return f;
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode, "open"); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode, "open"); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, mode, "open"); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags | O_LARGEFILE, mode, "open"); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, "open"); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode, "open"); }
static const char *fmode(const char *m, int *fl) {
  int plus = strchr(m, '+') != NULL;
  if (m[0] == 'r') *fl = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') *fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else *fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'e')) *fl |= O_CLOEXEC;
  if (strchr(m, 'x')) *fl |= O_EXCL;
  return m;
}
static FILE *do_fopen(const char *path, const char *m, const char *name) {
  int fl;
  fmode(m, &fl);
  char p[PATH_MAX];
  if (active && !inside && fl != O_RDONLY) {
    abspath(AT_FDCWD, path, p);
    if (under(p)) {                       // writes of stdio streams go through libc internally: unbuffered is not enough,
      int fd = do_open(AT_FDCWD, path, fl, 0666, "open");
      if (fd < 0) return NULL;
      return fdopen(fd, m);
    }
  }
  FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, name);
  return real(path, m);
}
FILE *fopen(const char *path, const char *m) { return do_fopen(path, m, "fopen"); }
FILE *fopen64(const char *path, const char *m) { return do_fopen(path, m, "fopen64"); }

// ---- writing
static long long curpos(int fd) {
  int fl = fcntl(fd, F_GETFL);
  if (fl >= 0 && (fl & O_APPEND)) return lseek(fd, 0, SEEK_END);
  return lseek(fd, 0, SEEK_CUR);
}
static ssize_t do_write(int fd, const void *buf, size_t n, long long off) {   // off < 0: current position
  char p[PATH_MAX];
  if (active && !inside) {
    inside = 1;
    fdpath(fd, p);
    if (under(p)) {
      pthread_mutex_lock(&mu);
      ssize_t r;
      long long pos = off >= 0 ? off : curpos(fd);
      int s = step("write");
      if (s == 1) {
        if (errno == ENOSPC && n > 1 && fail_n == 1 && off < 0) {   // a short write first, as a full disk gives
          errno = ENOSPC;
        }
        r = -1;
      } else {
        size_t m = s == 2 ? n / 2 : n;
        r = off >= 0 ? rawsys(SYS_pwrite64, fd, buf, m, off) : rawsys(SYS_write, fd, buf, m);
        if (s == 2) die();
        if (r > 0) rec("write", p, NULL, pos, r, buf, r);
      }
      int e = errno;
      pthread_mutex_unlock(&mu);
      inside = 0;
      errno = e;
      return r;
    }
    inside = 0;
  }
  return off >= 0 ? rawsys(SYS_pwrite64, fd, buf, n, off) : rawsys(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_write(fd, buf, n, o); }
static ssize_t do_writev(int fd, const struct iovec *v, int c, long long off) {
  char p[PATH_MAX];
  if (active && !inside) {
    fdpath(fd, p);
    if (under(p)) {
      size_t t = 0;
      for (int i = 0; i < c; i++) t += v[i].iov_len;
      char *b = malloc(t ? t : 1), *q = b;
      for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
      ssize_t r = do_write(fd, b, t, off);
      int e = errno;
      free(b);
      errno = e;
      return r;
    }
  }
  return off >= 0 ? rawsys(SYS_pwritev, fd, v, c, (long)off, 0L) : rawsys(SYS_writev, fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c) { return do_writev(fd, v, c, -1); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return do_writev(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return do_writev(fd, v, c, o); }

// copies between files: done with plain reads and (watched) writes
static ssize_t do_copy(int in, long long *offin, int out, long long *offout, size_t n) {
  char p[PATH_MAX];
  fdpath(out, p);
  (void)p;
  size_t m = n > (1 << 20) ? (1 << 20) : n;
  char *b = malloc(m);
  ssize_t r = offin ? rawsys(SYS_pread64, in, b, m, *offin) : rawsys(SYS_read, in, b, m);
  if (r > 0) {
    r = do_write(out, b, r, offout ? *offout : -1);
    if (r > 0) { if (offin) *offin += r; if (offout) *offout += r; }
  }
  int e = errno;
  free(b);
  errno = e;
  return r;
}
static int watched(int fd) {
  char p[PATH_MAX];
  if (!active || inside) return 0;
  fdpath(fd, p);
  return under(p);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
  if (watched(out)) return do_copy(in, (long long *)oi, out, (long long *)oo, n);
  return rawsys(SYS_copy_file_range, in, oi, out, oo, n, fl);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  if (watched(out)) return do_copy(in, (long long *)o, out, NULL, n);
  return rawsys(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  if (watched(out)) return do_copy(in, (long long *)o, out, NULL, n);
  return rawsys(SYS_sendfile, out, in, o, n);
}

// ---- single-path and two-path operations
#define GUARDED(OPNAME, PATHEXPR, PATH2EXPR, LEN, CALL)                       \
  char p[PATH_MAX], p2[PATH_MAX];                                             \
  p2[0] = 0;                                                                  \
  if (active && !inside) {                                                    \
    inside = 1;                                                               \
    PATHEXPR;                                                                 \
    PATH2EXPR;                                                                \
    if (under(p) || (p2[0] && under(p2))) {                                   \
      pthread_mutex_lock(&mu);                                                \
      int s = step(OPNAME);                                                   \
      long r = -1;                                                            \
      if (s != 1) {                                                           \
        r = CALL;                                                             \
        if (r >= 0) rec(OPNAME, p, p2[0] ? p2 : NULL, 0, LEN, NULL, 0);        \
      }                                                                       \
      int e = errno;                                                          \
      pthread_mutex_unlock(&mu);                                              \
      inside = 0;                                                             \
      errno = e;                                                              \
      return r;                                                               \
    }                                                                         \
    inside = 0;                                                               \
  }                                                                           \
  return CALL;

int rename(const char *a, const char *b) {
  GUARDED("rename", abspath(AT_FDCWD, a, p), abspath(AT_FDCWD, b, p2), 0, rawsys(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0))
}
int renameat(int x, const char *a, int y, const char *b) {
  GUARDED("rename", abspath(x, a, p), abspath(y, b, p2), 0, rawsys(SYS_renameat2, x, a, y, b, 0))
}
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
  GUARDED("rename", abspath(x, a, p), abspath(y, b, p2), 0, rawsys(SYS_renameat2, x, a, y, b, f))
}
int link(const char *a, const char *b) {
  GUARDED("link", abspath(AT_FDCWD, a, p), abspath(AT_FDCWD, b, p2), 0, rawsys(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0))
}
int linkat(int x, const char *a, int y, const char *b, int f) {
  GUARDED("link", abspath(x, a, p), abspath(y, b, p2), 0, rawsys(SYS_linkat, x, a, y, b, f))
}
int unlink(const char *a) { GUARDED("unlink", abspath(AT_FDCWD, a, p), (void)0, 0, rawsys(SYS_unlinkat, AT_FDCWD, a, 0)) }
int rmdir(const char *a) { GUARDED("rmdir", abspath(AT_FDCWD, a, p), (void)0, 0, rawsys(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR)) }
int unlinkat(int d, const char *a, int f) {
  GUARDED((f & AT_REMOVEDIR) ? "rmdir" : "unlink", abspath(d, a, p), (void)0, 0, rawsys(SYS_unlinkat, d, a, f))
}
int remove(const char *a) {
  struct stat st;
  if (lstat(a, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(a);
  return unlink(a);
}
int mkdir(const char *a, mode_t m) {
  if (active && !inside) { struct stat st; if (stat(a, &st) == 0) return rawsys(SYS_mkdirat, AT_FDCWD, a, m); }
  GUARDED("mkdir", abspath(AT_FDCWD, a, p), (void)0, 0, rawsys(SYS_mkdirat, AT_FDCWD, a, m))
}
int mkdirat(int d, const char *a, mode_t m) {
  GUARDED("mkdir", abspath(d, a, p), (void)0, 0, rawsys(SYS_mkdirat, d, a, m))
}
int ftruncate(int fd, off_t n) { GUARDED("truncate", fdpath(fd, p), (void)0, n, rawsys(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) { GUARDED("truncate", fdpath(fd, p), (void)0, n, rawsys(SYS_ftruncate, fd, n)) }
int truncate(const char *a, off_t n) { GUARDED("truncate", abspath(AT_FDCWD, a, p), (void)0, n, rawsys(SYS_truncate, a, n)) }
int truncate64(const char *a, off64_t n) { GUARDED("truncate", abspath(AT_FDCWD, a, p), (void)0, n, rawsys(SYS_truncate, a, n)) }
int fsync(int fd) { GUARDED("fsync", fdpath(fd, p), (void)0, 0, rawsys(SYS_fsync, fd)) }
int fdatasync(int fd) { GUARDED("fsync", fdpath(fd, p), (void)0, 0, rawsys(SYS_fdatasync, fd)) }

int flock(int fd, int how) { return fails_on(fd, "flock") ? -1 : rawsys(SYS_flock, fd, how); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return fails_on(fd, "pread") ? -1 : rawsys(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return fails_on(fd, "pread") ? -1 : rawsys(SYS_pread64, fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { return fails_on(fd, "sread") ? -1 : rawsys(SYS_read, fd, b, n); }
static void *do_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
  if (fd >= 0 && fails_on(fd, "mmap")) return (void *)-1;
  return (void *)rawsys(SYS_mmap, a, n, prot, fl, fd, o);
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return do_mmap(a, n, prot, fl, fd, o); }
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) { return do_mmap(a, n, prot, fl, fd, o); }

// The C library's generic entry: only the renaming call is of interest here.
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_renameat2) return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
  return raw6(n, a, b, c, d, e, f);
}
