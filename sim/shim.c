/* Storage seam: an LD_PRELOAD interposer over the C library's file calls.
 *
 * Only files below one scratch directory (set per simulated run) are under the
 * simulator's control.  For each call on such a file the simulator is asked, through
 * one callback, what happens; its decision is carried out here:
 *
 *   d.kind 0  pass        run the real call
 *   d.kind 1  errno       fail with errno d.arg, no effect
 *   d.kind 2  limit       transfer at most d.arg bytes (short read / short write)
 *   d.kind 3  crash       (for writes: transfer d.arg bytes first) then end the process
 *   d.kind 4  lie         report success without any effect (unused unless asked for)
 *
 * Anything that would change storage outside the scratch directory is refused with
 * EPERM and reported (containment).  Without shim_configure() everything passes.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_ACCESS, OP_RENAME,
       OP_LINK, OP_UNLINK, OP_TRUNC, OP_SYNC, OP_MKDIR, OP_RMDIR, OP_SYMLINK, OP_CHMOD,
       OP_OPENDIR, OP_ESCAPE };

typedef struct { long kind, arg; } decision;
typedef void (*callback)(int op, int fd, const char *path, const char *path2, long n,
                         long flags, decision *d);
typedef void (*callback_done)(int op, int fd, const char *path, long result, long err);

static callback cb = NULL;
static callback_done cb_done = NULL;
static char root[PATH_MAX];
static size_t root_len = 0;
#define MAXFD 4096
static char tracked[MAXFD];
static char *fdpath[MAXFD];

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__) = NULL; \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void shim_configure(const char *scratch, callback c, callback_done done) {
  if (!scratch || !c) { root_len = 0; cb = NULL; cb_done = NULL; return; }
  strncpy(root, scratch, sizeof root - 1);
  root_len = strlen(root);
  cb = c; cb_done = done;
}

int shim_present(void) { return 1; }

/* Lexical absolute path; resolves "." and ".." so that they cannot leave the root
   unnoticed.  A path through a symlink below the root is treated by its name. */
static int absolute(int dirfd, const char *path, char *out) {
  char tmp[PATH_MAX * 2];
  if (!path) return -1;
  if (path[0] == '/') {
    if (strlen(path) >= PATH_MAX) return -1;
    strcpy(tmp, path);
  } else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
      if (!getcwd(base, sizeof base)) return -1;
    } else {
      char link[64];
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      REAL(ssize_t, readlink, const char *, char *, size_t);
      ssize_t n = real_readlink(link, base, sizeof base - 1);
      if (n < 0) return -1;
      base[n] = 0;
    }
    if (strlen(base) + strlen(path) + 2 > PATH_MAX) return -1;
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  char *o = out;
  const char *p = tmp;
  while (*p) {
    while (*p == '/') p++;
    const char *e = p;
    while (*e && *e != '/') e++;
    size_t len = e - p;
    if (len == 0) break;
    if (len == 1 && p[0] == '.') { p = e; continue; }
    if (len == 2 && p[0] == '.' && p[1] == '.') {
      while (o > out && o[-1] != '/') o--;
      if (o > out) o--;
      p = e; continue;
    }
    *o++ = '/'; memcpy(o, p, len); o += len; p = e;
  }
  if (o == out) *o++ = '/';
  *o = 0;
  return 0;
}

static int inside(const char *abs) {
  return root_len && strncmp(abs, root, root_len) == 0 &&
         (abs[root_len] == 0 || abs[root_len] == '/');
}
static int harmless(const char *abs) {
  return strcmp(abs, "/dev/null") == 0 || strcmp(abs, "/dev/tty") == 0 ||
         strncmp(abs, "/dev/std", 8) == 0;
}

static decision ask(int op, int fd, const char *p, const char *p2, long n, long fl) {
  decision d = {0, 0};
  int e = errno;
  if (cb) cb(op, fd, p, p2, n, fl, &d);
  errno = e;
  return d;
}
static void done(int op, int fd, const char *p, long res, long err) {
  int e = errno;
  if (cb_done) cb_done(op, fd, p, res, err);
  errno = e;
}
static void crash(void) { _exit(66); }

static void track(int fd, const char *abs) {
  if (fd < 0 || fd >= MAXFD) return;
  tracked[fd] = 1;
  free(fdpath[fd]);
  fdpath[fd] = strdup(abs);
}
static int is_tracked(int fd) { return cb && fd >= 0 && fd < MAXFD && tracked[fd]; }
static const char *path_of(int fd) { return fdpath[fd] ? fdpath[fd] : ""; }

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat64, int, const char *, int, ...);
  if (!cb) return real_openat64(dirfd, path, flags, mode);
  char abs[PATH_MAX * 2];
  if (absolute(dirfd, path, abs)) return real_openat64(dirfd, path, flags, mode);
  if (!inside(abs)) {
    int changes = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND));
    if (changes && !harmless(abs)) {
      ask(OP_ESCAPE, -1, abs, NULL, 0, flags);
      errno = EPERM;
      return -1;
    }
    return real_openat64(dirfd, path, flags, mode);
  }
  decision d = ask(OP_OPEN, -1, abs, NULL, 0, flags);
  if (d.kind == 1) { done(OP_OPEN, -1, abs, -1, d.arg); errno = d.arg; return -1; }
  if (d.kind == 3) crash();
  int fd = real_openat64(dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0) track(fd, abs);
  done(OP_OPEN, fd, abs, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : e);
  errno = e;
  return fd;
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dirfd, const char *path, int flags, ...) { MODE_ARG return do_open(dirfd, path, flags, mode); }
int openat64(int dirfd, const char *path, int flags, ...) { MODE_ARG return do_open(dirfd, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

/* ---- read / write ---- */
static ssize_t plain_read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return real_read(fd, b, n); }
static ssize_t plain_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real_write(fd, b, n); }
static ssize_t plain_pread(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off64_t); return real_pread64(fd, b, n, o); }
static ssize_t plain_pwrite(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); return real_pwrite64(fd, b, n, o); }

static ssize_t do_read(int fd, void *buf, size_t n, int at, off64_t off) {
  if (!is_tracked(fd)) return at ? plain_pread(fd, buf, n, off) : plain_read(fd, buf, n);
  decision d = ask(OP_READ, fd, path_of(fd), NULL, (long)n, at);
  if (d.kind == 1) { done(OP_READ, fd, path_of(fd), -1, d.arg); errno = d.arg; return -1; }
  if (d.kind == 3) crash();
  if (d.kind == 2 && (long)n > d.arg) n = d.arg;
  ssize_t r = at ? plain_pread(fd, buf, n, off) : plain_read(fd, buf, n);
  done(OP_READ, fd, path_of(fd), r, r < 0 ? errno : 0);
  return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int at, off64_t off) {
  if (!is_tracked(fd)) return at ? plain_pwrite(fd, buf, n, off) : plain_write(fd, buf, n);
  decision d = ask(OP_WRITE, fd, path_of(fd), NULL, (long)n, at);
  if (d.kind == 1) { done(OP_WRITE, fd, path_of(fd), -1, d.arg); errno = d.arg; return -1; }
  if (d.kind == 3) {
    size_t m = (long)n > d.arg ? (size_t)d.arg : n;
    if (m) { if (at) plain_pwrite(fd, buf, m, off); else plain_write(fd, buf, m); }
    crash();
  }
  if (d.kind == 4) { done(OP_WRITE, fd, path_of(fd), n, 0); return n; }
  if (d.kind == 2 && (long)n > d.arg) n = d.arg;
  ssize_t r = at ? plain_pwrite(fd, buf, n, off) : plain_write(fd, buf, n);
  done(OP_WRITE, fd, path_of(fd), r, r < 0 ? errno : 0);
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, 1, o); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, 1, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, readv, int, const struct iovec *, int);
  if (!is_tracked(fd)) return real_readv(fd, v, c);
  ssize_t total = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    if (r < 0) return total ? total : r;
    total += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return total;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!is_tracked(fd)) return real_writev(fd, v, c);
  ssize_t total = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    if (r < 0) return total ? total : r;
    total += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return total;
}
/* Kernel-side copies are refused for tracked files: callers fall back to read/write. */
ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (is_tracked(fi) || is_tracked(fo)) { errno = EXDEV; return -1; }
  return real_copy_file_range(fi, oi, fo, oo, n, f);
}
ssize_t sendfile64(int fo, int fi, off64_t *o, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  if (is_tracked(fi) || is_tracked(fo)) { errno = ENOSYS; return -1; }
  return real_sendfile64(fo, fi, o, n);
}
ssize_t sendfile(int fo, int fi, off_t *o, size_t n) { return sendfile64(fo, fi, (off64_t *)o, n); }

/* ---- per-fd ---- */
int close(int fd) {
  REAL(int, close, int);
  if (!is_tracked(fd)) return real_close(fd);
  char p[PATH_MAX * 2];
  strcpy(p, path_of(fd));
  decision d = ask(OP_CLOSE, fd, p, NULL, 0, 0);
  if (d.kind == 3) crash();
  tracked[fd] = 0;
  int r = real_close(fd); /* a failing close still releases the descriptor */
  if (d.kind == 1) { done(OP_CLOSE, fd, p, -1, d.arg); errno = d.arg; return -1; }
  done(OP_CLOSE, fd, p, r, r < 0 ? errno : 0);
  return r;
}
#define DUPLIKE(name) \
  int r = real_##name; if (r >= 0 && is_tracked(fd)) track(r, path_of(fd)); return r
int dup(int fd) { REAL(int, dup, int); DUPLIKE(dup(fd)); }
int dup2(int fd, int to) { REAL(int, dup2, int, int); DUPLIKE(dup2(fd, to)); }
int dup3(int fd, int to, int fl) { REAL(int, dup3, int, int, int); DUPLIKE(dup3(fd, to, fl)); }
#define FDCALL(NAME, SIG, ARGS, OP, N) \
  int NAME SIG { \
    static int (*real) SIG = NULL; if (!real) real = dlsym(RTLD_NEXT, #NAME); \
    if (!is_tracked(fd)) return real ARGS; \
    decision d = ask(OP, fd, path_of(fd), NULL, N, 0); \
    if (d.kind == 1) { done(OP, fd, path_of(fd), -1, d.arg); errno = d.arg; return -1; } \
    if (d.kind == 3) crash(); \
    if (d.kind == 4) { done(OP, fd, path_of(fd), 0, 0); return 0; } \
    int r = real ARGS; done(OP, fd, path_of(fd), r, r < 0 ? errno : 0); return r; }
FDCALL(fsync, (int fd), (fd), OP_SYNC, 0)
FDCALL(fdatasync, (int fd), (fd), OP_SYNC, 0)
FDCALL(ftruncate, (int fd, off_t n), (fd, n), OP_TRUNC, (long)n)
FDCALL(ftruncate64, (int fd, off64_t n), (fd, n), OP_TRUNC, (long)n)
FDCALL(fchmod, (int fd, mode_t m), (fd, m), OP_CHMOD, (long)m)
off64_t lseek64(int fd, off64_t o, int w) {
  REAL(off64_t, lseek64, int, off64_t, int);
  return real_lseek64(fd, o, w);
}

/* ---- per-path ---- */
#define PATHCALL(RET, NAME, SIG, ARGS, DIRFD, PATH, OP, CHANGES, NUM) \
  RET NAME SIG { \
    static RET (*real) SIG = NULL; if (!real) real = dlsym(RTLD_NEXT, #NAME); \
    if (!cb) return real ARGS; \
    char abs[PATH_MAX * 2]; \
    if (absolute(DIRFD, PATH, abs)) return real ARGS; \
    if (!inside(abs)) { \
      if ((CHANGES) && !harmless(abs)) { ask(OP_ESCAPE, -1, abs, NULL, OP, 0); errno = EPERM; return (RET)-1; } \
      return real ARGS; } \
    decision d = ask(OP, -1, abs, NULL, NUM, 0); \
    if (d.kind == 1) { done(OP, -1, abs, -1, d.arg); errno = d.arg; return (RET)-1; } \
    if (d.kind == 3) crash(); \
    RET r = real ARGS; \
    done(OP, -1, abs, (long)r, (long)r == -1 ? errno : 0); \
    return r; }
PATHCALL(int, stat, (const char *p, struct stat *s), (p, s), AT_FDCWD, p, OP_STAT, 0, 0)
PATHCALL(int, stat64, (const char *p, struct stat64 *s), (p, s), AT_FDCWD, p, OP_STAT, 0, 0)
PATHCALL(int, lstat, (const char *p, struct stat *s), (p, s), AT_FDCWD, p, OP_STAT, 0, 0)
PATHCALL(int, lstat64, (const char *p, struct stat64 *s), (p, s), AT_FDCWD, p, OP_STAT, 0, 0)
PATHCALL(int, access, (const char *p, int m), (p, m), AT_FDCWD, p, OP_ACCESS, 0, m)
PATHCALL(int, faccessat, (int df, const char *p, int m, int f), (df, p, m, f), df, p, OP_ACCESS, 0, m)
PATHCALL(int, unlink, (const char *p), (p), AT_FDCWD, p, OP_UNLINK, 1, 0)
PATHCALL(int, unlinkat, (int df, const char *p, int f), (df, p, f), df, p, OP_UNLINK, 1, f)
PATHCALL(int, rmdir, (const char *p), (p), AT_FDCWD, p, OP_RMDIR, 1, 0)
PATHCALL(int, remove, (const char *p), (p), AT_FDCWD, p, OP_UNLINK, 1, 0)
PATHCALL(int, mkdir, (const char *p, mode_t m), (p, m), AT_FDCWD, p, OP_MKDIR, 1, m)
PATHCALL(int, mkdirat, (int df, const char *p, mode_t m), (df, p, m), df, p, OP_MKDIR, 1, m)
PATHCALL(int, truncate, (const char *p, off_t n), (p, n), AT_FDCWD, p, OP_TRUNC, 1, (long)n)
PATHCALL(int, truncate64, (const char *p, off64_t n), (p, n), AT_FDCWD, p, OP_TRUNC, 1, (long)n)
PATHCALL(int, chmod, (const char *p, mode_t m), (p, m), AT_FDCWD, p, OP_CHMOD, 1, m)
PATHCALL(int, fchmodat, (int df, const char *p, mode_t m, int f), (df, p, m, f), df, p, OP_CHMOD, 1, m)
PATHCALL(int, symlink, (const char *t, const char *p), (t, p), AT_FDCWD, p, OP_SYMLINK, 1, 0)
PATHCALL(int, symlinkat, (const char *t, int df, const char *p), (t, df, p), df, p, OP_SYMLINK, 1, 0)
PATHCALL(int, utimensat, (int df, const char *p, const struct timespec t[2], int f), (df, p, t, f), df, p, OP_CHMOD, 1, 0)

int fstatat64(int df, const char *p, struct stat64 *s, int f) {
  REAL(int, fstatat64, int, const char *, struct stat64 *, int);
  char abs[PATH_MAX * 2];
  if (!cb || !*p || absolute(df, p, abs) || !inside(abs)) return real_fstatat64(df, p, s, f);
  decision d = ask(OP_STAT, -1, abs, NULL, 0, 0);
  if (d.kind == 1) { done(OP_STAT, -1, abs, -1, d.arg); errno = d.arg; return -1; }
  if (d.kind == 3) crash();
  int r = real_fstatat64(df, p, s, f);
  done(OP_STAT, -1, abs, r, r < 0 ? errno : 0);
  return r;
}
int fstatat(int df, const char *p, struct stat *s, int f) { return fstatat64(df, p, (struct stat64 *)s, f); }

static int two_paths(int op, int d1, const char *a, int d2, const char *b, char *abs2) {
  /* 0: run it, 1: refused, 2: not ours, 3: ours */
  char abs1[PATH_MAX * 2];
  if (!cb || absolute(d1, a, abs1) || absolute(d2, b, abs2)) return 2;
  int i1 = inside(abs1), i2 = inside(abs2);
  if (!i1 || !i2) {
    ask(OP_ESCAPE, -1, abs1, abs2, op, 0);
    errno = EPERM;
    return 1;
  }
  decision d = ask(op, -1, abs1, abs2, 0, 0);
  if (d.kind == 1) { done(op, -1, abs1, -1, d.arg); errno = d.arg; return 1; }
  if (d.kind == 3) crash();
  return 3;
}
#define TWOPATH(NAME, SIG, ARGS, OP, D1, A, D2, B) \
  int NAME SIG { \
    static int (*real) SIG = NULL; if (!real) real = dlsym(RTLD_NEXT, #NAME); \
    char abs2[PATH_MAX * 2]; \
    int w = two_paths(OP, D1, A, D2, B, abs2); \
    if (w == 1) return -1; \
    int r = real ARGS; \
    if (w == 3) done(OP, -1, abs2, r, r < 0 ? errno : 0); \
    return r; }
TWOPATH(rename, (const char *a, const char *b), (a, b), OP_RENAME, AT_FDCWD, a, AT_FDCWD, b)
TWOPATH(renameat, (int da, const char *a, int db, const char *b), (da, a, db, b), OP_RENAME, da, a, db, b)
TWOPATH(renameat2, (int da, const char *a, int db, const char *b, unsigned f), (da, a, db, b, f), OP_RENAME, da, a, db, b)
TWOPATH(link, (const char *a, const char *b), (a, b), OP_LINK, AT_FDCWD, a, AT_FDCWD, b)
TWOPATH(linkat, (int da, const char *a, int db, const char *b, int f), (da, a, db, b, f), OP_LINK, da, a, db, b)
