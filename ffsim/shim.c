/*
 * ffsim shim: the simulated operating system seam.
 *
 * LD_PRELOADed into the interpreter that runs finalfusion.  Every file
 * descriptor opened below the simulation root is "tracked"; each system call on
 * a tracked descriptor (and C stdio streams that numpy opens on top of one) is
 * first shown to a hook, which decides: let it through, shorten it, or fail it
 * with an errno.  With no hook installed everything passes through untouched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_FSYNC, OP_TRUNC,
       OP_MMAP, OP_RENAME, OP_UNLINK, OP_OPENED, OP_DUP, OP_STREAM };

typedef long (*hook_t)(int op, int fd, long off, long len, const void *buf,
                       const char *path);

static hook_t the_hook;
static char root[4096];
static size_t rootlen;
#define MAXFD 65536
static unsigned char tracked[MAXFD]; /* 0 no, 1 opened, 2 duplicate */
static __thread int in_hook;

static long call_hook(int op, int fd, long off, long len, const void *buf,
                      const char *path) {
  /* the interpreter may make a system call (close) while an exception is set */
  static int (*ensure)(void);
  static void (*release)(int);
  static void (*fetch)(void **, void **, void **);
  static void (*restore)(void *, void *, void *);
  void *a = NULL, *b = NULL, *c = NULL;
  long r;
  int gil;
  if (!the_hook || in_hook) return 0;
  in_hook = 1;
  if (!ensure) {
    *(void **)&release = dlsym(RTLD_DEFAULT, "PyGILState_Release");
    *(void **)&fetch = dlsym(RTLD_DEFAULT, "PyErr_Fetch");
    *(void **)&restore = dlsym(RTLD_DEFAULT, "PyErr_Restore");
    *(void **)&ensure = dlsym(RTLD_DEFAULT, "PyGILState_Ensure");
    if (!release || !fetch || !restore || !ensure) abort();
  }
  gil = ensure();
  fetch(&a, &b, &c);
  r = the_hook(op, fd, off, len, buf, path);
  restore(a, b, c);
  release(gil);
  in_hook = 0;
  return r;
}

void ffsim_install(hook_t h, const char *r) {
  the_hook = h;
  if (r) {
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
  } else {
    rootlen = 0;
  }
}
void ffsim_quiet(int on) { in_hook = on; }
void ffsim_track(int fd, int how) { if (fd >= 0 && fd < MAXFD) tracked[fd] = how; }
int ffsim_tracked(int fd) { return fd >= 0 && fd < MAXFD ? tracked[fd] : 0; }
int ffsim_count_tracked(void) {
  int i, n = 0;
  for (i = 0; i < MAXFD; i++)
    if (tracked[i]) {
      if (syscall(SYS_fcntl, i, F_GETFD, 0) < 0) tracked[i] = 0; /* closed behind our back */
      else n++;
    }
  return n;
}

static int is_tracked(int fd) {
  return the_hook && !in_hook && fd >= 0 && fd < MAXFD && tracked[fd];
}

static int path_in_root(const char *p) {
  char cwd[4096];
  if (!the_hook || in_hook || !rootlen || !p) return 0;
  if (p[0] == '/') return strncmp(p, root, rootlen) == 0;
  if (!getcwd(cwd, sizeof cwd)) return 0;
  return strncmp(cwd, root, rootlen) == 0;
}

/* ---- open ---------------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  int fd, t = dirfd == AT_FDCWD && !(flags & O_DIRECTORY) && path_in_root(path);
  if (t) {
    long d = call_hook(OP_OPEN, -1, flags, 0, NULL, path);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (t && fd >= 0 && fd < MAXFD) {
    int e = errno;
    tracked[fd] = 1;
    call_hook(OP_OPENED, fd, flags, 0, NULL, path);
    errno = e;
  }
  return fd;
}
#define GETMODE(flags, mode)                           \
  mode_t mode = 0;                                     \
  if ((flags) & (O_CREAT | __O_TMPFILE)) {             \
    va_list ap; va_start(ap, flags);                   \
    mode = va_arg(ap, mode_t); va_end(ap);             \
  }
int open(const char *path, int flags, ...) { GETMODE(flags, m) return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { GETMODE(flags, m) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags, m) return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags, m) return do_open(d, path, flags | O_LARGEFILE, m); }

/* ---- read / write ---------------------------------------------------- */
ssize_t read(int fd, void *buf, size_t n) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_READ, fd, syscall(SYS_lseek, fd, 0, SEEK_CUR), (long)n, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
    if (d > 0 && (size_t)d < n) n = (size_t)d;
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_WRITE, fd, syscall(SYS_lseek, fd, 0, SEEK_CUR), (long)n, buf, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
    if (d > 0 && (size_t)d < n) n = (size_t)d;
  }
  return syscall(SYS_write, fd, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_READ, fd, off, (long)n, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
    if (d > 0 && (size_t)d < n) n = (size_t)d;
  }
  return syscall(SYS_pread64, fd, buf, n, off);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_WRITE, fd, off, (long)n, buf, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
    if (d > 0 && (size_t)d < n) n = (size_t)d;
  }
  return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  int i;
  if (!is_tracked(fd)) return syscall(SYS_readv, fd, v, c);
  for (i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  int i;
  if (!is_tracked(fd)) return syscall(SYS_writev, fd, v, c);
  for (i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (is_tracked(o) || is_tracked(i)) { errno = ENOSYS; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (is_tracked(o) || is_tracked(i)) { errno = ENOSYS; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (is_tracked(o) || is_tracked(i)) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}

/* ---- position, size, durability --------------------------------------- */
static off_t do_lseek(int fd, off_t off, int whence) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_LSEEK, fd, off, whence, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return syscall(SYS_lseek, fd, off, whence);
}
off_t lseek(int fd, off_t off, int whence) { return do_lseek(fd, off, whence); }
off64_t lseek64(int fd, off64_t off, int whence) { return do_lseek(fd, off, whence); }
int fsync(int fd) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_FSYNC, fd, 0, 0, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_FSYNC, fd, 0, 0, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return (int)syscall(SYS_fdatasync, fd);
}
static int do_ftruncate(int fd, off_t len) {
  if (is_tracked(fd)) {
    long d = call_hook(OP_TRUNC, fd, 0, len, NULL, NULL);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return (int)syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }
static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl) {
  if (path_in_root(n)) {
    long d = call_hook(OP_RENAME, -1, 0, 0, n, o);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return (int)syscall(SYS_renameat2, od, o, nd, n, fl);
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
int unlink(const char *p) {
  if (path_in_root(p)) {
    long d = call_hook(OP_UNLINK, -1, 0, 0, NULL, p);
    if (d < 0) { errno = (int)-d; return -1; }
  }
  return (int)syscall(SYS_unlink, p);
}

/* ---- descriptors -------------------------------------------------------- */
int close(int fd) {
  int t = is_tracked(fd);
  long d = 0;
  if (t) d = call_hook(OP_CLOSE, fd, tracked[fd], 0, NULL, NULL);
  if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
  int r = (int)syscall(SYS_close, fd);
  if (d < 0) { errno = (int)-d; return -1; } /* as Linux: the fd is gone anyway */
  return r;
}
static void dupped(int old, int nw) {
  if (nw >= 0 && nw < MAXFD && old >= 0 && old < MAXFD) {
    tracked[nw] = tracked[old] ? 2 : 0;
    if (tracked[nw]) { int e = errno; call_hook(OP_DUP, nw, old, 0, NULL, NULL); errno = e; }
  }
}
int dup(int fd) { int r = (int)syscall(SYS_dup, fd); dupped(fd, r); return r; }
int dup2(int a, int b) { int r = (int)syscall(SYS_dup2, a, b); if (a != b) dupped(a, r); return r; }
int dup3(int a, int b, int f) { int r = (int)syscall(SYS_dup3, a, b, f); dupped(a, r); return r; }
static int do_fcntl(int fd, int cmd, void *arg) {
  int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupped(fd, r);
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- mmap ------------------------------------------------------------------ */
static void *do_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
  if (fd >= 0 && is_tracked(fd)) {
    long d = call_hook(OP_MMAP, fd, off, (long)len, NULL, NULL);
    if (d < 0) { errno = (int)-d; return MAP_FAILED; }
  }
  return (void *)syscall(SYS_mmap, a, len, prot, flags, fd, off);
}
void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(a, len, prot, flags, fd, off); }
void *mmap64(void *a, size_t len, int prot, int flags, int fd, off64_t off) { return do_mmap(a, len, prot, flags, fd, off); }

/* ---- C stdio on top of a tracked descriptor (numpy fromfile / tofile) ------- */
struct ck { int fd; FILE *fp; struct ck *next; char buf[4096]; };
static struct ck *streams;
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  /* same loop as glibc's own file write: continue after a short write, stop
     at the first error */
  size_t done = 0;
  while (done < n) {
    ssize_t r = write(((struct ck *)c)->fd, b + done, n - done);
    if (r < 0) break;
    done += (size_t)r;
  }
  return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int w) {
  off64_t r = lseek64(((struct ck *)c)->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) {
  struct ck *k = c, **p;
  int r;
  for (p = &streams; *p; p = &(*p)->next)
    if (*p == k) { *p = k->next; break; }
  r = close(k->fd);
  free(k);
  return r;
}
FILE *fdopen(int fd, const char *mode) {
  static FILE *(*real)(int, const char *);
  if (is_tracked(fd)) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    struct ck *k = malloc(sizeof *k);
    if (!k) return NULL;
    k->fd = fd;
    k->fp = fopencookie(k, mode, io);
    if (!k->fp) { free(k); return NULL; }
    setvbuf(k->fp, k->buf, _IOFBF, sizeof k->buf);
    k->next = streams;
    streams = k;
    return k->fp;
  }
  if (!real) real = dlsym(RTLD_NEXT, "fdopen");
  return real(fd, mode);
}
int fileno(FILE *fp) {
  static int (*real)(FILE *);
  struct ck *k;
  for (k = streams; k; k = k->next)
    if (k->fp == fp) return k->fd;
  if (!real) real = dlsym(RTLD_NEXT, "fileno");
  return real(fp);
}
