// LD_PRELOAD library: records the file system calls a program makes below one directory, makes a chosen one of them fail,
// and refuses (and records) calls that would change anything outside of that directory.
//
//   FAULT_ROOT   the directory (absolute)
//   FAULT_LOG    file to which one line per call is appended: "<n> <kind> <path>", or "! <kind> <path>" for a refused one
//   FAULT_AT     number of the call to disturb (0-based)
//   FAULT_ERRNO  the error it gives
//   FAULT_MODE   err: fails with FAULT_ERRNO; sticky: that call and all later ones of its kind do;
//                short: transfers one byte only, or as many as FAULT_ERRNO says; half: transfers half, later transfers of its kind fail;
//                zero: transfers nothing; storm: EINTR that many times in a row (FAULT_ERRNO gives the number)
//   FAULT_STEP   before each call, "<kind> <path>" is written to descriptor 4 and a byte is waited for on descriptor 3
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { ERR = 1, STICKY, SHORT, HALF, ZERO, STORM };
static char root[PATH_MAX];
static size_t rootlen;
static int logfd = -1, mode, at = -1, err, count, stuck, storm, step;
static const char *stuckkind;
#define MAXFD 4096
static char *fdpath[MAXFD];

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void setup(void) {
  const char *s = getenv("FAULT_ROOT");
  if (!s) return;
  rootlen = strlen(s);
  if (rootlen >= sizeof root) _exit(99);
  strcpy(root, s);
  if ((s = getenv("FAULT_LOG"))) {
    int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
    if (logfd < 0) _exit(99);
  }
  if ((s = getenv("FAULT_AT"))) at = atoi(s);
  if ((s = getenv("FAULT_ERRNO"))) err = atoi(s);
  step = getenv("FAULT_STEP") != NULL;
  s = getenv("FAULT_MODE");
  mode = !s ? 0 : !strcmp(s, "err") ? ERR : !strcmp(s, "sticky") ? STICKY : !strcmp(s, "short") ? SHORT : !strcmp(s, "half") ? HALF : !strcmp(s, "zero") ? ZERO : !strcmp(s, "storm") ? STORM : 0;
}
static void lineto(int fd, const char *head, const char *kind, const char *path) {
  if (fd < 0) return;
  char line[PATH_MAX + 200];
  int n = snprintf(line, sizeof line - 1, "%s %s ", head, kind);
  for (const char *p = path; *p && n < (int)sizeof line - 8; ++p)
    if (*p == '\n' || *p == '%') n += sprintf(line + n, "%%%02x", (unsigned char)*p); else line[n++] = *p;
  line[n++] = '\n';
  syscall(SYS_write, fd, line, n);
}
static void logline(const char *head, const char *kind, const char *path) { lineto(logfd, head, kind, path); }
// waits until the call may be made
static void await_turn(const char *head, const char *kind, const char *path) {
  int saved = errno;
  char c;
  lineto(4, head, kind, path);
  for (;;) {
    ssize_t n = syscall(SYS_read, 3, &c, 1);
    if (n == 1) break;
    if (n == 0) { step = 0; break; }
    if (errno == EAGAIN) { struct pollfd f = { 3, POLLIN, 0 }; poll(&f, 1, -1); }
    else if (errno != EINTR) { step = 0; break; }
  }
  errno = saved;
}
// the absolute path, "." and ".." taken out as text
static const char *resolve(int dir, const char *path, char *out) {
  char full[2 * PATH_MAX];
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else {
    char base[PATH_MAX] = "";
    if (dir == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
    else {
      char link[64];
      snprintf(link, sizeof link, "/proc/self/fd/%d", dir);
      ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
      base[n < 0 ? 0 : n] = 0;
    }
    snprintf(full, sizeof full, "%s/%s", base, path);
  }
  size_t n = 0;
  for (char *p = full; *p;) {
    while (*p == '/') ++p;
    char *e = p;
    while (*e && *e != '/') ++e;
    size_t len = e - p;
    if (len == 2 && p[0] == '.' && p[1] == '.') { while (n && out[--n] != '/'); }
    else if (len && !(len == 1 && p[0] == '.')) { if (n + len + 2 > PATH_MAX) break; out[n++] = '/'; memcpy(out + n, p, len); n += len; }
    p = e;
  }
  if (!n) out[n++] = '/';
  out[n] = 0;
  return out;
}
static int inside(const char *p) { return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/'); }
static const char *fdname(int fd) { return fd == 1 ? "<stdout>" : fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }
static void mark(int fd, const char *path) {
  if (fd < 0 || fd >= MAXFD) return;
  char *old = fdpath[fd];
  fdpath[fd] = path ? strdup(path) : NULL;
  free(old);
}
// counts the call; the mode if it is to be disturbed
static int disturb(const char *kind, const char *path) {
  char head[32];
  if (stuck && !strcmp(stuckkind, kind)) {
    if (stuck == STORM) { if (storm-- > 0) { errno = EINTR; return ERR; } stuck = 0; }
    else { errno = err; return ERR; }
  }
  int n = count++;
  snprintf(head, sizeof head, "%d", n);
  logline(head, kind, path);
  if (step) await_turn(head, kind, path);
  if (n != at) return 0;
  logline("*", kind, path);
  switch (mode) {
    case ERR: errno = err; return ERR;
    case STICKY: stuck = STICKY; stuckkind = kind; errno = err; return ERR;
    case HALF: stuck = HALF; stuckkind = kind; return HALF;
    case STORM: stuck = STORM; stuckkind = kind; storm = err - 1; errno = EINTR; return ERR;
    default: return mode;
  }
}
// whether a changing call is refused
static int refuse(const char *kind, const char *path) {
  if (!rootlen || inside(path) || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6)) return 0;
  logline("!", kind, path);
  errno = EACCES;
  return 1;
}

static int do_open(int dir, const char *path, int flags, mode_t m) {
  char buf[PATH_MAX + 8];
  const char *p = resolve(dir, path, buf);
  int changes = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  const char *kind = changes ? "create" : "open";
  if (changes && refuse(kind, p)) return -1;
  int in = inside(p);
  if (in && disturb(kind, p)) return -1;
  int fd = syscall(SYS_openat, dir, path, flags, m);
  mark(fd, in ? p : NULL);
  return fd;
}
#define OPENMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { OPENMODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { OPENMODE return do_open(AT_FDCWD, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { OPENMODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { OPENMODE return do_open(d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd == logfd && fd >= 0) return 0; mark(fd, NULL); return syscall(SYS_close, fd); }

static size_t cut(int d, size_t n) { return d == SHORT ? (err > 0 && n > (size_t)err ? (size_t)err : err > 0 ? n : n > 1 ? 1 : n) : d == HALF ? n / 2 : d == ZERO ? 0 : n; }
ssize_t read(int fd, void *b, size_t n) {
  const char *p = fd == 1 ? NULL : fdname(fd);
  if (p) {
    int d = disturb("read", p);
    if (d == ERR) return -1;
    if (d == ZERO) d = 0; // would be an end of file: no error
    n = cut(d, n);
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  const char *p = fdname(fd);
  if (p) { int d = disturb("read", p); if (d == ERR) return -1; if (d == ZERO) d = 0; n = cut(d, n); }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  const char *p = fdname(fd);
  if (p && disturb("read", p) == ERR) return -1;
  return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  const char *p = fdname(fd);
  if (p) {
    int d = disturb(fd == 1 ? "print" : "write", p);
    if (d == ERR) return -1;
    n = cut(d, n);
    if (!n && d) return 0;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  const char *p = fdname(fd);
  if (p) { int d = disturb("write", p); if (d == ERR) return -1; n = cut(d, n); if (!n && d) return 0; }
  return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  const char *p = fdname(fd);
  if (p) {
    int d = disturb(fd == 1 ? "print" : "write", p);
    if (d == ERR) return -1;
    if (d == ZERO) return 0;
    if (d && c > 0) return syscall(SYS_write, fd, v[0].iov_base, cut(d, v[0].iov_len));
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
  const char *p = fdname(b);
  if (p) { int d = disturb("write", p); if (d == ERR) return -1; n = cut(d, n); if (!n && d) return 0; }
  return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  const char *p = fdname(o);
  if (p) { int d = disturb("write", p); if (d == ERR) return -1; n = cut(d, n); if (!n && d) return 0; }
  return syscall(SYS_sendfile, o, i, off, n);
}

#define CHANGE(kind, dir, path) char buf[PATH_MAX + 8]; const char *p = resolve(dir, path, buf); if (refuse(kind, p)) return -1; if (inside(p) && disturb(kind, p)) return -1
int mkdir(const char *path, mode_t m) { CHANGE("mkdir", AT_FDCWD, path); return syscall(SYS_mkdirat, AT_FDCWD, path, m); }
int mkdirat(int d, const char *path, mode_t m) { CHANGE("mkdir", d, path); return syscall(SYS_mkdirat, d, path, m); }
int unlink(const char *path) { CHANGE("unlink", AT_FDCWD, path); return syscall(SYS_unlinkat, AT_FDCWD, path, 0); }
int unlinkat(int d, const char *path, int f) { CHANGE("unlink", d, path); return syscall(SYS_unlinkat, d, path, f); }
int rmdir(const char *path) { CHANGE("unlink", AT_FDCWD, path); return syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) { CHANGE("unlink", AT_FDCWD, path); if (!syscall(SYS_unlinkat, AT_FDCWD, path, 0)) return 0; return errno == EISDIR ? syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR) : -1; }
int truncate64(const char *path, off64_t n) { CHANGE("truncate", AT_FDCWD, path); return syscall(SYS_truncate, path, n); }
int chmod(const char *path, mode_t m) { CHANGE("chmod", AT_FDCWD, path); return syscall(SYS_fchmodat, AT_FDCWD, path, m); }
static int do_rename(int a, const char *x, int b, const char *y, unsigned f) {
  char other[PATH_MAX + 8];
  if (refuse("rename", resolve(a, x, other))) return -1;
  CHANGE("rename", b, y);
  return syscall(SYS_renameat2, a, x, b, y, f);
}
int rename(const char *x, const char *y) { return do_rename(AT_FDCWD, x, AT_FDCWD, y, 0); }
int renameat(int a, const char *x, int b, const char *y) { return do_rename(a, x, b, y, 0); }
int renameat2(int a, const char *x, int b, const char *y, unsigned f) { return do_rename(a, x, b, y, f); }
int link(const char *x, const char *y) { CHANGE("link", AT_FDCWD, y); return syscall(SYS_linkat, AT_FDCWD, x, AT_FDCWD, y, 0); }
int linkat(int a, const char *x, int b, const char *y, int f) { CHANGE("link", b, y); return syscall(SYS_linkat, a, x, b, y, f); }
int symlink(const char *x, const char *y) { CHANGE("link", AT_FDCWD, y); return syscall(SYS_symlinkat, x, AT_FDCWD, y); }
int symlinkat(const char *x, int d, const char *y) { CHANGE("link", d, y); return syscall(SYS_symlinkat, x, d, y); }

int ftruncate64(int fd, off64_t n) { const char *p = fdname(fd); if (p && disturb("truncate", p)) return -1; return syscall(SYS_ftruncate, fd, n); }
int fsync(int fd) { const char *p = fdname(fd); if (p && disturb("sync", p)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { const char *p = fdname(fd); if (p && disturb("sync", p)) return -1; return syscall(SYS_fdatasync, fd); }

int statx(int d, const char *at_path, int flags, unsigned mask, struct statx *st) {
  const char *volatile path = at_path; // declared nonnull, but std probes with a null path whether the call exists
  char buf[PATH_MAX + 8];
  const char *p = NULL;
  if (path && path[0]) { p = resolve(d, path, buf); if (!inside(p)) p = NULL; }
  else if (path && d != 1) p = fdname(d);
  if (p && disturb(path[0] ? "stat" : "fstat", p)) return -1;
  return syscall(SYS_statx, d, path, flags, mask, st);
}
#define STAT(name, flag) int name(const char *path, struct stat64 *st) { char buf[PATH_MAX + 8]; const char *p = resolve(AT_FDCWD, path, buf); if (inside(p) && disturb("stat", p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, path, st, flag); }
STAT(stat64, 0)
STAT(lstat64, AT_SYMLINK_NOFOLLOW)
int fstat64(int fd, struct stat64 *st) { const char *p = fd == 1 ? NULL : fdname(fd); if (p && disturb("fstat", p)) return -1; return syscall(SYS_fstat, fd, st); }
int access(const char *path, int m) { char buf[PATH_MAX + 8]; const char *p = resolve(AT_FDCWD, path, buf); if (inside(p) && disturb("stat", p)) return -1; return syscall(SYS_faccessat, AT_FDCWD, path, m); }
int faccessat(int d, const char *path, int m, int f) { char buf[PATH_MAX + 8]; const char *p = resolve(d, path, buf); if (inside(p) && disturb("stat", p)) return -1; return syscall(SYS_faccessat, d, path, m); }
char *realpath(const char *path, char *out) { REAL(realpath); char buf[PATH_MAX + 8]; const char *p = resolve(AT_FDCWD, path, buf); if (inside(p) && disturb("stat", p)) return NULL; return real(path, out); }

DIR *opendir(const char *path) {
  REAL(opendir);
  char buf[PATH_MAX + 8];
  const char *p = resolve(AT_FDCWD, path, buf);
  int in = inside(p);
  if (in && disturb("opendir", p)) return NULL;
  DIR *d = real(path);
  if (d && in) mark(dirfd(d), p);
  return d;
}
int closedir(DIR *d) { REAL(closedir); mark(dirfd(d), NULL); return real(d); }
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  const char *p = fdname(dirfd(d));
  if (p && disturb("readdir", p)) return NULL;
  return real(d);
}
