// Answers chosen read, write and open calls of the command with faults, and logs every such call.
// MC_FAULTS="<call>:e:<errno>,<call>:s:<bytes>"; MC_CALLS names the log.
// Seen are: reads of standard input and of files in the working directory, writes to standard
// output and to files opened for writing, and opening those files.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

struct fault { long call; char what; long arg; };
static struct fault faults[512];
static int nfaults = -1;
static int logfd = -1;
static long ncalls;
static char tracked[1024];

static void init(void) {
  if (nfaults >= 0) return;
  nfaults = 0;
  const char *p = getenv("MC_FAULTS");
  while (p && *p && nfaults < 512) {
    char *e;
    struct fault f;
    f.call = strtol(p, &e, 10);
    f.what = e[1];
    f.arg = strtol(e + 3, &e, 10);
    faults[nfaults++] = f;
    p = *e == ',' ? e + 1 : e;
  }
  const char *l = getenv("MC_CALLS");
  if (l) {
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    // away from the numbers the program would get
    logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, fd);
  }
  tracked[0] = 1;
  tracked[1] = 1;
}
static void note(char kind, size_t size) {
  char b[40];
  int n = 0;
  b[n++] = kind;
  b[n++] = ' ';
  char d[24];
  int k = 0;
  do { d[k++] = '0' + size % 10; size /= 10; } while (size);
  while (k) b[n++] = d[--k];
  b[n++] = '\n';
  if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
// -1: fault given; otherwise how much to transfer
static ssize_t decide(char kind, size_t size) {
  long me = ncalls++;
  note(kind, size);
  for (int i = 0; i < nfaults; i++)
    if (faults[i].call == me) {
      if (faults[i].what == 'e') { errno = faults[i].arg; return -1; }
      return (size_t)faults[i].arg < size ? (ssize_t)faults[i].arg : (ssize_t)size;
    }
  return (ssize_t)size;
}
static int seen(int fd) { init(); return fd >= 0 && fd < 1024 && tracked[fd]; }

ssize_t read(int fd, void *b, size_t n) {
  if (seen(fd)) { ssize_t k = decide('r', n); if (k < 0) return -1; n = k; }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (seen(fd)) { ssize_t k = decide('w', n); if (k < 0) return -1; n = k; }
  return syscall(SYS_write, fd, b, n);
}
static ssize_t vec(int fd, const struct iovec *v, int c, char kind, long nr, off_t at, int positioned) {
  size_t total = 0;
  for (int i = 0; i < c; i++) total += v[i].iov_len;
  ssize_t k = decide(kind, total);
  if (k < 0) return -1;
  struct iovec w[64];
  int m = 0;
  for (int i = 0; i < c && m < 64 && k > 0; i++) {
    w[m] = v[i];
    if ((ssize_t)w[m].iov_len > k) w[m].iov_len = k;
    k -= w[m].iov_len;
    m++;
  }
  return positioned ? syscall(nr, fd, w, m, at, 0) : syscall(nr, fd, w, m);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  return seen(fd) ? vec(fd, v, c, 'w', SYS_writev, 0, 0) : syscall(SYS_writev, fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  return seen(fd) ? vec(fd, v, c, 'r', SYS_readv, 0, 0) : syscall(SYS_readv, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t at) {
  if (seen(fd)) { ssize_t k = decide('r', n); if (k < 0) return -1; n = k; }
  return syscall(SYS_pread64, fd, b, n, at);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) {
  if (seen(fd)) { ssize_t k = decide('w', n); if (k < 0) return -1; n = k; }
  return syscall(SYS_pwrite64, fd, b, n, at);
}
static int opened(int dir, const char *p, int flags, mode_t mode) {
  init();
  // the program names its own files relative to its directory
  int mine = p[0] != '/';
  if (mine && decide('o', 0) < 0) return -1;
  int fd = syscall(SYS_openat, dir, p, flags, mode);
  if (fd >= 0 && fd < 1024) tracked[fd] = mine;
  return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return opened(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return opened(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return opened(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return opened(d, p, flags, mode); }
int close(int fd) {
  if (fd > 2 && fd < 1024) tracked[fd] = 0;
  return syscall(SYS_close, fd);
}
