// Preloaded into a driver (and what it spawns): before every operation that
// changes a file under $VF_DIR, and half-way through every write, a copy of
// $VF_DIR is taken.  Each copy is what a process that died there leaves behind.
// Removing, renaming or truncating anything outside $VF_ROOT is refused.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

struct shared {
  atomic_int lock;
  atomic_int ops;
  atomic_int snaps;
  atomic_int mark;
};
static struct shared *sh;
static char dir[PATH_MAX], root[PATH_MAX], snap[PATH_MAX];
static int every = 1, max_snaps = 100000;
static unsigned seed = 1;
static __thread int inside = 0;

static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }

__attribute__((constructor)) static void init(void) {
  char *d = getenv("VF_DIR"), *r = getenv("VF_ROOT"), *s = getenv("VF_SNAP"),
       *m = getenv("VF_SHM");
  if (r)
    snprintf(root, sizeof root, "%s", r);
  if (!d || !s || !m)
    return;
  snprintf(dir, sizeof dir, "%s", d);
  snprintf(snap, sizeof snap, "%s", s);
  if (getenv("VF_EVERY"))
    every = atoi(getenv("VF_EVERY"));
  if (getenv("VF_SNAPMAX"))
    max_snaps = atoi(getenv("VF_SNAPMAX"));
  if (getenv("VF_SEED"))
    seed = atoi(getenv("VF_SEED"));
  int fd = syscall(SYS_openat, AT_FDCWD, m, O_RDWR | O_CREAT, 0600);
  if (fd < 0)
    return;
  struct stat st;
  if (fstat(fd, &st) == 0 && st.st_size < 4096)
    syscall(SYS_ftruncate, fd, 4096);
  void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p != MAP_FAILED)
    sh = p;
}

void vf_mark(int m) {
  if (sh)
    atomic_store(&sh->mark, m);
}

static void lock(void) {
  int z = 0;
  while (!atomic_compare_exchange_strong(&sh->lock, &z, 1)) {
    z = 0;
    usleep(20);
  }
}
static void unlock(void) { atomic_store(&sh->lock, 0); }

static void copy_file(const char *from, const char *to) {
  int a = syscall(SYS_openat, AT_FDCWD, from, O_RDONLY);
  if (a < 0)
    return;
  struct stat st;
  fstat(a, &st);
  int b = syscall(SYS_openat, AT_FDCWD, to, O_WRONLY | O_CREAT | O_TRUNC,
                  st.st_mode & 0777);
  char buf[65536];
  long n;
  while ((n = syscall(SYS_read, a, buf, sizeof buf)) > 0)
    syscall(SYS_write, b, buf, n);
  syscall(SYS_close, a);
  syscall(SYS_close, b);
}

static int hash(int n) {
  unsigned x = (unsigned)n * 2654435761u + seed * 40503u;
  x ^= x >> 15;
  x *= 2246822519u;
  x ^= x >> 13;
  return x & 0x7fffffff;
}

// Copies the directory; called with the lock held.
static void take(const char *op, const char *path) {
  int n = atomic_fetch_add(&sh->ops, 1);
  if (every > 1 && hash(n) % every)
    return;
  int k = atomic_fetch_add(&sh->snaps, 1);
  if (k >= max_snaps)
    return;
  int e = errno;
  inside++;
  char to[PATH_MAX];
  snprintf(to, sizeof to, "%s/%06d", snap, k);
  mkdir(to, 0700);
  DIR *d = opendir(dir);
  if (d) {
    struct dirent *x;
    ino_t inos[512];
    char names[512][64];
    int ni = 0;
    while ((x = readdir(d))) {
      if (x->d_name[0] == '.' && (!x->d_name[1] || x->d_name[1] == '.'))
        continue;
      char a[PATH_MAX], b[PATH_MAX];
      snprintf(a, sizeof a, "%s/%s", dir, x->d_name);
      snprintf(b, sizeof b, "%s/%s", to, x->d_name);
      struct stat st;
      if (lstat(a, &st) != 0 || !S_ISREG(st.st_mode))
        continue;
      int linked = 0;
      if (st.st_nlink > 1) {
        for (int i = 0; i < ni; i++)
          if (inos[i] == st.st_ino) {
            char c[PATH_MAX];
            snprintf(c, sizeof c, "%s/%s", to, names[i]);
            syscall(SYS_linkat, AT_FDCWD, c, AT_FDCWD, b, 0);
            linked = 1;
            break;
          }
        if (!linked && ni < 512) {
          inos[ni] = st.st_ino;
          snprintf(names[ni++], 64, "%s", x->d_name);
        }
      }
      if (!linked)
        copy_file(a, b);
    }
    closedir(d);
  }
  char l[PATH_MAX + 256], f[PATH_MAX];
  int len = snprintf(l, sizeof l, "%d %d %s %s\n", k, atomic_load(&sh->mark), op,
                     path ? path : "-");
  snprintf(f, sizeof f, "%s/index", snap);
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND, 0600);
  syscall(SYS_write, fd, l, len);
  syscall(SYS_close, fd);
  inside--;
  errno = e;
}

static int under(const char *p, const char *base) {
  size_t n = strlen(base);
  return n && strncmp(p, base, n) == 0 && (p[n] == '/' || p[n] == 0);
}
static void absolute(const char *p, int dfd, char *out) {
  if (p[0] == '/') {
    snprintf(out, PATH_MAX, "%s", p);
    return;
  }
  char cwd[PATH_MAX] = "";
  if (dfd == AT_FDCWD) {
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0)
      cwd[0] = 0;
  } else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
    ssize_t n = readlink(l, cwd, sizeof cwd - 1);
    cwd[n < 0 ? 0 : n] = 0;
  }
  snprintf(out, PATH_MAX, "%s/%s", cwd, p);
}
static int tracked(const char *p) { return sh && !inside && under(p, dir); }
static int fdpath(int fd, char *out) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  if (n < 0)
    return 0;
  out[n] = 0;
  return 1;
}
static int refused(const char *abs) {
  if (inside || !root[0] || under(abs, root))
    return 0;
  if (strstr(abs, "/../"))
    return 1;
  return 1;
}

#define PATHOP(name, decl, call, p, dfd)                                       \
  int name decl {                                                              \
    static int(*r) decl;                                                       \
    if (!r)                                                                    \
      r = real(#name);                                                         \
    char a_[PATH_MAX];                                                         \
    absolute(p, dfd, a_);                                                      \
    if (refused(a_)) {                                                         \
      errno = EPERM;                                                           \
      return -1;                                                               \
    }                                                                          \
    if (!tracked(a_))                                                          \
      return r call;                                                           \
    lock();                                                                    \
    take(#name, a_);                                                           \
    inside++;                                                                  \
    int v = r call;                                                            \
    inside--;                                                                  \
    unlock();                                                                  \
    return v;                                                                  \
  }

PATHOP(unlink, (const char *p), (p), p, AT_FDCWD)
PATHOP(remove, (const char *p), (p), p, AT_FDCWD)
PATHOP(rmdir, (const char *p), (p), p, AT_FDCWD)
PATHOP(unlinkat, (int d, const char *p, int f), (d, p, f), p, d)
PATHOP(rename, (const char *o, const char *n), (o, n), n, AT_FDCWD)
PATHOP(renameat, (int od, const char *o, int nd, const char *n), (od, o, nd, n), n, nd)
PATHOP(renameat2, (int od, const char *o, int nd, const char *n, unsigned f), (od, o, nd, n, f), n, nd)
PATHOP(link, (const char *o, const char *n), (o, n), n, AT_FDCWD)
PATHOP(linkat, (int od, const char *o, int nd, const char *n, int f), (od, o, nd, n, f), n, nd)
PATHOP(truncate, (const char *p, off_t l), (p, l), p, AT_FDCWD)
PATHOP(truncate64, (const char *p, off64_t l), (p, l), p, AT_FDCWD)

int ftruncate(int fd, off_t l) {
  static int (*r)(int, off_t);
  if (!r)
    r = real("ftruncate");
  char a[PATH_MAX];
  if (!sh || inside || !fdpath(fd, a) || !tracked(a))
    return r(fd, l);
  lock();
  take("ftruncate", a);
  int v = r(fd, l);
  unlock();
  return v;
}

static ssize_t rawwrite(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  char a[PATH_MAX];
  if (!sh || inside || fd <= 2 || !fdpath(fd, a) || !tracked(a)) {
    ssize_t v = syscall(SYS_write, fd, b, n);
    return v;
  }
  lock();
  take("write", a);
  ssize_t v;
  if (n > 1) {
    v = rawwrite(fd, b, n / 2);
    if (v == (ssize_t)(n / 2)) {
      take("halfwrite", a);
      ssize_t w = rawwrite(fd, (const char *)b + n / 2, n - n / 2);
      v = w < 0 ? v : v + w;
    }
  } else
    v = rawwrite(fd, b, n);
  unlock();
  return v;
}
ssize_t writev(int fd, const struct iovec *io, int k) {
  char a[PATH_MAX];
  if (!sh || inside || fd <= 2 || !fdpath(fd, a) || !tracked(a))
    return syscall(SYS_writev, fd, io, k);
  lock();
  take("writev", a);
  ssize_t t = 0;
  for (int i = 0; i < k; i++) {
    ssize_t v = rawwrite(fd, io[i].iov_base, io[i].iov_len);
    if (v < 0) {
      t = t ? t : v;
      break;
    }
    t += v;
    if (i + 1 < k)
      take("halfwritev", a);
  }
  unlock();
  return t;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  char a[PATH_MAX];
  if (!sh || inside || !fdpath(fd, a) || !tracked(a))
    return syscall(SYS_pwrite64, fd, b, n, o);
  lock();
  take("pwrite", a);
  ssize_t v = syscall(SYS_pwrite64, fd, b, n, o);
  unlock();
  return v;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }

#define FOPEN(name)                                                            \
  FILE *name(const char *p, const char *m) {                                   \
    static FILE *(*r)(const char *, const char *);                             \
    if (!r)                                                                    \
      r = real(#name);                                                         \
    char a[PATH_MAX];                                                          \
    if (!sh || inside || (m[0] == 'r' && !strchr(m, '+')))                     \
      return r(p, m);                                                          \
    absolute(p, AT_FDCWD, a);                                                  \
    if (!tracked(a))                                                           \
      return r(p, m);                                                          \
    lock();                                                                    \
    take(#name, a);                                                            \
    inside++;                                                                  \
    FILE *v = r(p, m);                                                         \
    inside--;                                                                  \
    unlock();                                                                  \
    return v;                                                                  \
  }
FOPEN(fopen)
FOPEN(fopen64)

#define OPEN(name, decl, dfd, p, flags, sys)                                   \
  int name decl {                                                              \
    int mode = 0;                                                              \
    if (flags & (O_CREAT | O_TMPFILE)) {                                       \
      va_list ap;                                                              \
      va_start(ap, flags);                                                     \
      mode = va_arg(ap, int);                                                  \
      va_end(ap);                                                              \
    }                                                                          \
    char a[PATH_MAX];                                                          \
    if (sh && !inside && (flags & O_ACCMODE) != O_RDONLY) {                    \
      absolute(p, dfd, a);                                                     \
      if (tracked(a)) {                                                        \
        lock();                                                                \
        take(#name, a);                                                        \
        int v = syscall(SYS_openat, dfd, p, flags, mode);                      \
        unlock();                                                              \
        return v;                                                              \
      }                                                                        \
    }                                                                          \
    return syscall(SYS_openat, dfd, p, flags, mode);                           \
  }
OPEN(open, (const char *p, int flags, ...), AT_FDCWD, p, flags, 0)
OPEN(open64, (const char *p, int flags, ...), AT_FDCWD, p, flags, 0)
OPEN(openat, (int d, const char *p, int flags, ...), d, p, flags, 0)
OPEN(openat64, (int d, const char *p, int flags, ...), d, p, flags, 0)
