/* Preloaded into the podo under test. Fixes hash seeds (PVS_SEED) and the clock (PVS_CLOCK), logs the
 * file-system calls made on paths under PVS_ROOT (PVS_LOG), and makes the n-th of them fail or the
 * last thing the process does (PVS_FAULT = "<n>:<kill|torn|eio|enospc>").
 * From the n-th write to it on, the standard output fails (PVS_OUT = "<n>:<epipe|enospc|eio>"). */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char inside[MAXFD];
static char root[4096];
static size_t rootlen;
static int logfd = -1;
static long count, at = -1;
static enum { NONE, KILL, TORN, FAIL } mode;
static int failno;
static long out_count, out_at;
static int out_no;
static uint64_t seed;
static int seeded, clocked;
static long long clock_s;
static int ready;

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *r = getenv("PVS_ROOT"), *l = getenv("PVS_LOG"), *f = getenv("PVS_FAULT"), *s = getenv("PVS_SEED"), *c = getenv("PVS_CLOCK");
  if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
  if (s) { seeded = 1; seed = strtoull(s, 0, 10); }
  if (c) { clocked = 1; clock_s = atoll(c); }
  if (f) {
    at = atol(f);
    const char *m = strchr(f, ':');
    m = m ? m + 1 : "";
    if (!strcmp(m, "kill")) mode = KILL;
    else if (!strcmp(m, "torn")) mode = TORN;
    else if (!strcmp(m, "eio")) mode = FAIL, failno = EIO;
    else if (!strcmp(m, "enospc")) mode = FAIL, failno = ENOSPC;
  }
  const char *o = getenv("PVS_OUT");
  if (o) {
    out_at = atol(o);
    out_no = strstr(o, "epipe") ? EPIPE : strstr(o, "eio") ? EIO : ENOSPC;
  }
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT, 0666);
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int in_root(int dirfd, const char *p) {
  init();
  if (!rootlen || !p) return 0;
  if (p[0] == '/') return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
  if (dirfd != AT_FDCWD) return dirfd >= 0 && dirfd < MAXFD && inside[dirfd];
  char cwd[4096];
  if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
  return !strncmp(cwd, root, rootlen) && (cwd[rootlen] == '/' || !cwd[rootlen]);
}
static int fd_in(int fd) { return fd >= 0 && fd < MAXFD && inside[fd]; }
static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}
/* 1: fail with errno set; 2: torn write */
static int step(const char *op, const char *p) {
  count++;
  if (logfd >= 0) {
    char b[4300];
    int n = snprintf(b, sizeof b, "%s %s\n", op, p ? p : "");
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, logfd, b, n);
  }
  if (count != at) return 0;
  if (mode == KILL) die();
  if (mode == TORN) { if (!strcmp(op, "write")) return 2; die(); }
  if (mode == FAIL) { errno = failno; return 1; }
  return 0;
}
#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })
static void mark(int fd, int in) { if (fd >= 0 && fd < MAXFD) inside[fd] = in; }

#define OPEN(name, sig, dirfd, call) \
  int name sig { \
    int in = in_root(dirfd, path); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (in && step((flags & O_ACCMODE) == O_RDONLY ? "openr" : "openw", path) == 1) return -1; \
    int fd = REAL(name) call; \
    mark(fd, in && fd >= 0); \
    return fd; \
  }
OPEN(open, (const char *path, int flags, ...), AT_FDCWD, (path, flags, m))
OPEN(open64, (const char *path, int flags, ...), AT_FDCWD, (path, flags, m))
OPEN(openat, (int d, const char *path, int flags, ...), d, (d, path, flags, m))
OPEN(openat64, (int d, const char *path, int flags, ...), d, (d, path, flags, m))
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen(const char *path, const char *md) {
  if (in_root(AT_FDCWD, path) && step("fopen", path) == 1) return 0;
  return REAL(fopen)(path, md);
}
int close(int fd) { mark(fd, 0); return REAL(close)(fd); }

ssize_t write(int fd, const void *b, size_t n) {
  if (fd == 1 && out_at && ++out_count >= out_at) { errno = out_no; return -1; }
  if (fd_in(fd)) {
    int k = step("write", 0);
    if (k == 1) return -1;
    if (k == 2) { if (REAL(write)(fd, b, n / 2)) {} die(); }
  }
  return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) { if (fd == 1 && out_at && ++out_count >= out_at) { errno = out_no; return -1; } if (fd_in(fd) && step("writev", 0) == 1) return -1; return REAL(writev)(fd, v, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (fd_in(fd) && step("pwrite", 0) == 1) return -1; return REAL(pwrite64)(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) { if (fd_in(fd) && step("read", 0) == 1) return -1; return REAL(read)(fd, b, n); }
int fsync(int fd) { if (fd_in(fd) && step("fsync", 0) == 1) return -1; return REAL(fsync)(fd); }
int fdatasync(int fd) { if (fd_in(fd) && step("fdatasync", 0) == 1) return -1; return REAL(fdatasync)(fd); }
int ftruncate(int fd, off_t o) { if (fd_in(fd) && step("ftruncate", 0) == 1) return -1; return REAL(ftruncate)(fd, o); }
int ftruncate64(int fd, off64_t o) { if (fd_in(fd) && step("ftruncate", 0) == 1) return -1; return REAL(ftruncate64)(fd, o); }
int truncate64(const char *p, off64_t o) { if (in_root(AT_FDCWD, p) && step("truncate", p) == 1) return -1; return REAL(truncate64)(p, o); }
int rename(const char *a, const char *b) { if (in_root(AT_FDCWD, b) && step("rename", b) == 1) return -1; return REAL(rename)(a, b); }
int renameat(int x, const char *a, int y, const char *b) { if (in_root(y, b) && step("rename", b) == 1) return -1; return REAL(renameat)(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { if (in_root(y, b) && step("rename", b) == 1) return -1; return REAL(renameat2)(x, a, y, b, f); }
int link(const char *a, const char *b) { if (in_root(AT_FDCWD, b) && step("link", b) == 1) return -1; return REAL(link)(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { if (in_root(y, b) && step("link", b) == 1) return -1; return REAL(linkat)(x, a, y, b, f); }
int symlink(const char *a, const char *b) { if (in_root(AT_FDCWD, b) && step("symlink", b) == 1) return -1; return REAL(symlink)(a, b); }
int unlink(const char *p) { if (in_root(AT_FDCWD, p) && step("unlink", p) == 1) return -1; return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { if (in_root(d, p) && step("unlink", p) == 1) return -1; return REAL(unlinkat)(d, p, f); }
int rmdir(const char *p) { if (in_root(AT_FDCWD, p) && step("rmdir", p) == 1) return -1; return REAL(rmdir)(p); }
int mkdir(const char *p, mode_t m) { if (in_root(AT_FDCWD, p) && step("mkdir", p) == 1) return -1; return REAL(mkdir)(p, m); }
int fchmod(int fd, mode_t m) { if (fd_in(fd) && step("fchmod", 0) == 1) return -1; return REAL(fchmod)(fd, m); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (fd_in(b)) { int k = step("write", 0); if (k == 1) return -1; if (k == 2) { REAL(copy_file_range)(a, x, b, y, n / 2, f); die(); } }
  return REAL(copy_file_range)(a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t n);
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { if (fd_in(o) && step("write", 0) == 1) return -1; return REAL(sendfile64)(o, i, f, n); }

static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
/* Directory entries come in an order drawn from the seed. */
static struct { DIR *d; struct dirent64 **e; int n, i; } dirs[64];
DIR *opendir(const char *p) {
  int in = in_root(AT_FDCWD, p);
  if (in && step("opendir", p) == 1) return 0;
  DIR *d = REAL(opendir)(p);
  if (in && d)
    for (int i = 0; i < 64; i++)
      if (!dirs[i].d) {
        dirs[i].d = d; dirs[i].n = dirs[i].i = 0; dirs[i].e = 0;
        struct dirent64 *x;
        while ((x = REAL(readdir64)(d))) {
          dirs[i].e = realloc(dirs[i].e, (dirs[i].n + 1) * sizeof *dirs[i].e);
          dirs[i].e[dirs[i].n] = malloc(x->d_reclen);
          memcpy(dirs[i].e[dirs[i].n++], x, x->d_reclen);
        }
        /* sorted, so that the order depends on the seed alone */
        for (int a = 1; a < dirs[i].n; a++)
          for (int b = a; b > 0 && strcmp(dirs[i].e[b]->d_name, dirs[i].e[b - 1]->d_name) < 0; b--) {
            struct dirent64 *t = dirs[i].e[b]; dirs[i].e[b] = dirs[i].e[b - 1]; dirs[i].e[b - 1] = t;
          }
        uint64_t z = mix(seed + 77 * i);
        if (seeded)
          for (int a = dirs[i].n - 1; a > 0; a--) {
            z = mix(z);
            int b = (z >> 8) % (a + 1);
            struct dirent64 *t = dirs[i].e[b]; dirs[i].e[b] = dirs[i].e[a]; dirs[i].e[a] = t;
          }
        break;
      }
  return d;
}
int closedir(DIR *d) {
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) {
      for (int k = 0; k < dirs[i].n; k++) free(dirs[i].e[k]);
      free(dirs[i].e);
      dirs[i].d = 0;
    }
  return REAL(closedir)(d);
}
struct dirent64 *readdir64(DIR *d) {
  for (int i = 0; i < 64; i++)
    if (dirs[i].d == d) {
      if (step("readdir", 0) == 1) return 0;
      return dirs[i].i < dirs[i].n ? dirs[i].e[dirs[i].i++] : 0;
    }
  return REAL(readdir64)(d);
}

ssize_t getrandom(void *b, size_t n, unsigned f) {
  init();
  if (!seeded) return syscall(SYS_getrandom, b, n, f);
  for (size_t i = 0; i < n; i++) { seed = mix(seed); ((unsigned char *)b)[i] = seed >> 24; }
  return n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  init();
  if (clocked && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = clock_s; ts->tv_nsec = 0; return 0; }
  return syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t) {
  init();
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
