/* Interposes the file operations of a tool on paths under GCV_ROOT.
 *   GCV_FD=n      before each such operation: send its name on socket n and wait for one byte
 *   GCV_LOG=file  append the name of each such operation
 *   GCV_FAULT=i:kind[:errno[:cut]]   at the i-th such operation:
 *        kill       the process dies before it
 *        err        it fails with errno
 *        short      (write) only a part is written
 *        shortfull  (write) only a part is written and every later write fails with errno (ENOSPC by default)
 *      cut: what part: 0 half, 1 a single byte, 2 all but one byte, 3 up to the first end of line
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char tracked[MAXFD];
static char root[PATH_MAX];
static size_t rootlen;
static int gate_fd = -1, log_fd = -1;
static long fault_at = -1, counter = 0;
static int fault_errno = EIO, full = 0, cut = 0;
static enum { NONE, KILL, ERR, SHORT, SHORTFULL } fault_kind = NONE;
static int ready = 0;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0
#define GET(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, read, int, void *, size_t);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);

static void setup(void) {
  if (ready) return;
  ready = 1;
  GET(write); GET(read); GET(openat64); GET(close);
  const char *r = getenv("GCV_ROOT");
  if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
  const char *g = getenv("GCV_FD");
  if (g) gate_fd = atoi(g);
  const char *l = getenv("GCV_LOG");
  if (l) log_fd = real_openat64(AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
  const char *f = getenv("GCV_FAULT");
  if (f) {
    char kind[32] = "", en[32] = "";
    if (sscanf(f, "%ld:%31[a-z]:%31[0-9]:%d", &fault_at, kind, en, &cut) >= 2) {
      fault_kind = !strcmp(kind, "kill") ? KILL : !strcmp(kind, "err") ? ERR : !strcmp(kind, "short") ? SHORT
                 : !strcmp(kind, "shortfull") ? SHORTFULL : NONE;
      if (en[0]) fault_errno = atoi(en);
      if (fault_kind == SHORTFULL && !fault_errno) fault_errno = ENOSPC;
    }
  }
}

static int mine_fd(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }
static int mine_path(int dirfd, const char *p) {
  setup();
  if (!rootlen || !p || !p[0]) return 0;
  if (p[0] == '/') return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0);
  if (dirfd != AT_FDCWD) return mine_fd(dirfd);
  char cwd[PATH_MAX];
  if (!getcwd(cwd, sizeof cwd)) return 0;
  return !strncmp(cwd, root, rootlen) && (cwd[rootlen] == '/' || cwd[rootlen] == 0);
}

static size_t part(const char *b, size_t n) {
  const char *e;
  if (cut == 1) return 1;
  if (cut == 2) return n - 1;
  if (cut == 3 && (e = memchr(b, '\n', n)) && (size_t)(e - b) + 1 < n) return e - b + 1;
  return n / 2;
}

/* returns the kind of fault to inject now */
static int op(const char *name) {
  setup();
  counter++;
  int e = errno;
  if (log_fd >= 0) {
    char b[64];
    int n = snprintf(b, sizeof b, "%s\n", name);
    if (real_write(log_fd, b, n) < 0) { }
  }
  if (gate_fd >= 0) {
    char b[64], c;
    int n = snprintf(b, sizeof b, "%s\n", name);
    if (real_write(gate_fd, b, n) < 0 || real_read(gate_fd, &c, 1) != 1) _exit(99);
  }
  errno = e;
  if (counter == fault_at) {
    if (fault_kind == KILL) { kill(getpid(), SIGKILL); for (;;) pause(); }
    return fault_kind;
  }
  return NONE;
}
#define FAIL(name) do { if (op(name) == ERR) { errno = fault_errno; return -1; } } while (0)

static void track(int fd, int on) { if (fd >= 0 && fd < MAXFD) tracked[fd] = on; }

#define OPENBODY(fn, dfd, path, call)                                        \
  mode_t mode = 0;                                                           \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  GET(fn);                                                                   \
  int m = mine_path(dfd, path);                                              \
  if (m) FAIL("open");                                                       \
  int fd = call;                                                             \
  if (fd >= 0) track(fd, m);                                                 \
  return fd;

REAL(int, open, const char *, int, ...);
int open(const char *path, int flags, ...) { OPENBODY(open, AT_FDCWD, path, real_open(path, flags, mode)) }
REAL(int, open64, const char *, int, ...);
int open64(const char *path, int flags, ...) { OPENBODY(open64, AT_FDCWD, path, real_open64(path, flags, mode)) }
REAL(int, openat, int, const char *, int, ...);
int openat(int d, const char *path, int flags, ...) { OPENBODY(openat, d, path, real_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPENBODY(openat64, d, path, real_openat64(d, path, flags, mode)) }
REAL(int, creat64, const char *, mode_t);
int creat64(const char *path, mode_t mode) {
  GET(creat64);
  int m = mine_path(AT_FDCWD, path);
  if (m) FAIL("open");
  int fd = real_creat64(path, mode);
  if (fd >= 0) track(fd, m);
  return fd;
}
int close(int fd) { setup(); GET(close); track(fd, 0); return real_close(fd); }

ssize_t read(int fd, void *b, size_t n) {
  setup();
  if (mine_fd(fd)) FAIL("read");
  return real_read(fd, b, n);
}
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  GET(pread64);
  if (mine_fd(fd)) FAIL("read");
  return real_pread64(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
  setup();
  if (mine_fd(fd)) {
    int k = op("write");
    if (k == ERR) { errno = fault_errno; return -1; }
    if (full) { errno = fault_errno; return -1; }
    if ((k == SHORT || k == SHORTFULL) && n > 1) { n = part(b, n); full = k == SHORTFULL; }
  }
  return real_write(fd, b, n);
}
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  GET(pwrite64);
  if (mine_fd(fd)) {
    int k = op("write");
    if (k == ERR) { errno = fault_errno; return -1; }
    if (full) { errno = fault_errno; return -1; }
    if ((k == SHORT || k == SHORTFULL) && n > 1) { n = part(b, n); full = k == SHORTFULL; }
  }
  return real_pwrite64(fd, b, n, o);
}
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int c) {
  GET(writev);
  if (mine_fd(fd)) {
    int k = op("write");
    if (k == ERR) { errno = fault_errno; return -1; }
    if (full) { errno = fault_errno; return -1; }
    if ((k == SHORT || k == SHORTFULL) && c > 0) { full = k == SHORTFULL; c = 1; }
  }
  return real_writev(fd, v, c);
}
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  GET(copy_file_range);
  if (mine_fd(b)) FAIL("write");
  return real_copy_file_range(a, x, b, y, n, f);
}
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) {
  GET(sendfile64);
  if (mine_fd(o)) FAIL("write");
  return real_sendfile64(o, i, p, n);
}
REAL(int, ftruncate64, int, off64_t);
int ftruncate64(int fd, off64_t n) { GET(ftruncate64); if (mine_fd(fd)) FAIL("ftruncate"); return real_ftruncate64(fd, n); }
REAL(int, truncate64, const char *, off64_t);
int truncate64(const char *p, off64_t n) { GET(truncate64); if (mine_path(AT_FDCWD, p)) FAIL("ftruncate"); return real_truncate64(p, n); }
REAL(int, fsync, int);
int fsync(int fd) { GET(fsync); if (mine_fd(fd)) FAIL("fsync"); return real_fsync(fd); }
REAL(int, fdatasync, int);
int fdatasync(int fd) { GET(fdatasync); if (mine_fd(fd)) FAIL("fsync"); return real_fdatasync(fd); }
REAL(int, rename, const char *, const char *);
int rename(const char *a, const char *b) { GET(rename); if (mine_path(AT_FDCWD, a) || mine_path(AT_FDCWD, b)) FAIL("rename"); return real_rename(a, b); }
REAL(int, link, const char *, const char *);
int link(const char *a, const char *b) { GET(link); if (mine_path(AT_FDCWD, b)) FAIL("link"); return real_link(a, b); }
REAL(int, linkat, int, const char *, int, const char *, int);
int linkat(int d, const char *a, int e, const char *b, int f) { GET(linkat); if (mine_path(e, b)) FAIL("link"); return real_linkat(d, a, e, b, f); }
REAL(int, unlink, const char *);
int unlink(const char *p) { GET(unlink); if (mine_path(AT_FDCWD, p)) FAIL("unlink"); return real_unlink(p); }
REAL(int, unlinkat, int, const char *, int);
int unlinkat(int d, const char *p, int f) { GET(unlinkat); if (mine_path(d, p)) FAIL("unlink"); return real_unlinkat(d, p, f); }
REAL(int, rmdir, const char *);
int rmdir(const char *p) { GET(rmdir); if (mine_path(AT_FDCWD, p)) FAIL("rmdir"); return real_rmdir(p); }
REAL(int, mkdir, const char *, mode_t);
int mkdir(const char *p, mode_t m) { GET(mkdir); if (mine_path(AT_FDCWD, p)) FAIL("mkdir"); return real_mkdir(p, m); }
/* looking at a path is an operation too, but never made to fail */
REAL(int, statx, int, const char *, int, unsigned, struct statx *);
int statx(int d, const char *p, int f, unsigned m, struct statx *b) { GET(statx); if (mine_path(d, p)) op("stat"); return real_statx(d, p, f, m, b); }
REAL(int, stat64, const char *, struct stat64 *);
int stat64(const char *p, struct stat64 *b) { GET(stat64); if (mine_path(AT_FDCWD, p)) op("stat"); return real_stat64(p, b); }
REAL(int, lstat64, const char *, struct stat64 *);
int lstat64(const char *p, struct stat64 *b) { GET(lstat64); if (mine_path(AT_FDCWD, p)) op("stat"); return real_lstat64(p, b); }
REAL(int, access, const char *, int);
int access(const char *p, int m) { GET(access); if (mine_path(AT_FDCWD, p)) op("stat"); return real_access(p, m); }
