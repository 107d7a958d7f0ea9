/* Routes every file operation the native library makes (ld --wrap) through a
 * log and, when armed, makes one of them fail.  An operation is identified by
 * the base name of its file and its index among the operations on files of
 * that base name (one thread handles one shot, hence one base name, so this
 * index does not depend on thread scheduling). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

enum { OPEN, CLOSE, READ, WRITE, SEEK, TELL, FLUSH, OTHER };
enum { NONE, FAIL, SHORT1, HALF, STICKY, LATE, ZERO };

#define MAXB 64
#define MAXF 4096
#define MAXL (1 << 20)
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char bases[MAXB][64];
static int n_bases, count[MAXB];
static struct { void *f; int base; int late; } files[MAXF];
static struct { int op, base, idx; long size; } logbuf[MAXL];
static int n_log;
static int arm_base = -1, arm_idx, arm_kind, fired, dead, err_no = EIO;

static int base_of(char const *path) {
  char const *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  for (int i = 0; i < n_bases; ++i)
    if (!strncmp(bases[i], b, 63)) return i;
  if (n_bases == MAXB) return MAXB - 1;
  strncpy(bases[n_bases], b, 63);
  return n_bases++;
}
static int slot(void *f) {
  for (int i = 0; i < MAXF; ++i)
    if (files[i].f == f) return i;
  return -1;
}
/* Records the operation; returns the fault to apply. */
static int step(int op, int base, long size) {
  if (base < 0) return NONE;
  int k = count[base]++;
  if (n_log < MAXL) {
    logbuf[n_log].op = op; logbuf[n_log].base = base;
    logbuf[n_log].idx = k; logbuf[n_log].size = size;
    ++n_log;
  }
  if (dead) return FAIL;
  if (arm_kind && base == arm_base && k == arm_idx) {
    ++fired;
    if (arm_kind == STICKY) { dead = 1; return FAIL; }
    return arm_kind;
  }
  return NONE;
}
#define LOCK pthread_mutex_lock(&mu)
#define UNLOCK pthread_mutex_unlock(&mu)

void iof_reset(void) {
  LOCK;
  memset(count, 0, sizeof count);
  n_log = 0; fired = 0; dead = 0; arm_kind = 0;
  UNLOCK;
}
void iof_arm(char const *base, int idx, int kind, int eno) {
  LOCK;
  arm_base = base_of(base); arm_idx = idx; arm_kind = kind; err_no = eno;
  fired = 0; dead = 0;
  UNLOCK;
}
int iof_fired(void) { return fired; }
int iof_count(void) { return n_log; }
int iof_entry(int i, int *op, char *base, int *idx, long *size) {
  if (i >= n_log) return 1;
  *op = logbuf[i].op; *idx = logbuf[i].idx; *size = logbuf[i].size;
  strcpy(base, bases[logbuf[i].base]);
  return 0;
}
int iof_open_files(void) {
  int n = 0;
  for (int i = 0; i < MAXF; ++i) n += files[i].f != NULL;
  return n;
}

static void add(void *f, int base) {
  for (int i = 0; i < MAXF; ++i)
    if (!files[i].f) { files[i].f = f; files[i].base = base; files[i].late = 0; return; }
}

FILE *__real_fopen(char const *, char const *);
static FILE *do_fopen(char const *p, char const *m) {
  LOCK;
  int b = base_of(p), k = step(OPEN, b, 0);
  if (k) { UNLOCK; errno = err_no; return NULL; }
  FILE *f = __real_fopen(p, m);
  if (f) add(f, b);
  UNLOCK;
  return f;
}
FILE *__wrap_fopen(char const *p, char const *m) { return do_fopen(p, m); }
FILE *__wrap_fopen64(char const *p, char const *m) { return do_fopen(p, m); }

int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) {
  LOCK;
  int s = slot(f), k = step(CLOSE, s < 0 ? -1 : files[s].base, 0);
  int late = s >= 0 && files[s].late;
  if (s >= 0) files[s].f = NULL;
  UNLOCK;
  int r = __real_fclose(f);
  if (k || late) { errno = err_no; return EOF; }
  return r;
}

size_t __real_fwrite(void const *, size_t, size_t, FILE *);
size_t __wrap_fwrite(void const *p, size_t sz, size_t n, FILE *f) {
  LOCK;
  int s = slot(f), k = step(WRITE, s < 0 ? -1 : files[s].base, (long)(sz * n));
  if (k == LATE && s >= 0) files[s].late = 1;
  UNLOCK;
  switch (k) {
    case NONE: return __real_fwrite(p, sz, n, f);
    case LATE: return n; /* accepted into the buffer, lost at the flush */
    case SHORT1: errno = err_no; return n ? __real_fwrite(p, sz, n - 1, f) : 0;
    case HALF: errno = err_no; return n ? __real_fwrite(p, sz, n / 2, f) : 0;
    default: errno = err_no; return 0;
  }
}
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t sz, size_t n, FILE *f) {
  LOCK;
  int s = slot(f), k = step(READ, s < 0 ? -1 : files[s].base, (long)(sz * n));
  UNLOCK;
  switch (k) {
    case NONE: return __real_fread(p, sz, n, f);
    case SHORT1: errno = err_no; return n ? __real_fread(p, sz, n - 1, f) : 0;
    case HALF: errno = err_no; return n ? __real_fread(p, sz, n / 2, f) : 0;
    default: errno = err_no; return 0;
  }
}
#define SEEKER(name, type)                                     \
  int __real_##name(FILE *, type, int);                        \
  int __wrap_##name(FILE *f, type o, int w) {                  \
    LOCK;                                                      \
    int s = slot(f), k = step(SEEK, s < 0 ? -1 : files[s].base, (long)o); \
    UNLOCK;                                                    \
    if (k) { errno = err_no; return -1; }                      \
    return __real_##name(f, o, w);                             \
  }
SEEKER(fseek, long)
SEEKER(fseeko, off_t)
SEEKER(fseeko64, off_t)

#define TELLER(name, type)                                     \
  type __real_##name(FILE *);                                  \
  type __wrap_##name(FILE *f) {                                \
    LOCK;                                                      \
    int s = slot(f), k = step(TELL, s < 0 ? -1 : files[s].base, 0); \
    UNLOCK;                                                    \
    if (k) { errno = err_no; return -1; }                      \
    return __real_##name(f);                                   \
  }
TELLER(ftell, long)
TELLER(ftello, off_t)

int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) {
  LOCK;
  int s = f ? slot(f) : -1, k = step(FLUSH, s < 0 ? -1 : files[s].base, 0);
  int late = s >= 0 && files[s].late;
  UNLOCK;
  if (k || late) { errno = err_no; return EOF; }
  return __real_fflush(f);
}

/* descriptors are kept in the same table as pointers 1 + fd */
#define FD(fd) ((void *)(long)((fd) + 1))
int __real_open(char const *, int, ...);
static int do_open(char const *p, int fl, int mode) {
  LOCK;
  int b = base_of(p), k = step(OPEN, b, 0);
  if (k) { UNLOCK; errno = err_no; return -1; }
  int fd = __real_open(p, fl, mode);
  if (fd >= 0) add(FD(fd), b);
  UNLOCK;
  return fd;
}
int __wrap_open(char const *p, int fl, ...) {
  va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  return do_open(p, fl, m);
}
int __wrap_open64(char const *p, int fl, ...) {
  va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  return do_open(p, fl, m);
}
int __real_close(int);
int __wrap_close(int fd) {
  LOCK;
  int s = slot(FD(fd)), k = step(CLOSE, s < 0 ? -1 : files[s].base, 0);
  int late = s >= 0 && files[s].late;
  if (s >= 0) files[s].f = NULL;
  UNLOCK;
  int r = __real_close(fd);
  if (k || late) { errno = err_no; return -1; }
  return r;
}
#define RW(name, OP, ptr, ARGS, CALL)                                        \
  ssize_t __real_##name ARGS;                                               \
  ssize_t __wrap_##name ARGS {                                              \
    LOCK;                                                                   \
    int s = slot(FD(fd)), k = step(OP, s < 0 ? -1 : files[s].base, (long)n); \
    if (k == LATE && s >= 0) files[s].late = 1;                             \
    UNLOCK;                                                                 \
    switch (k) {                                                            \
      case NONE: return __real_##name CALL;                                 \
      case LATE: return OP == WRITE ? (ssize_t)n : (errno = err_no, -1);    \
      case SHORT1: if (n) --n; return __real_##name CALL;                   \
      case HALF: n /= 2; return __real_##name CALL;                         \
      case ZERO: return 0;                                                  \
      default: errno = err_no; return -1;                                   \
    }                                                                       \
  }
RW(read, READ, void *, (int fd, void *p, size_t n), (fd, p, n))
RW(write, WRITE, void const *, (int fd, void const *p, size_t n), (fd, p, n))
RW(pread, READ, void *, (int fd, void *p, size_t n, off_t o), (fd, p, n, o))
RW(pwrite, WRITE, void const *, (int fd, void const *p, size_t n, off_t o), (fd, p, n, o))
RW(pread64, READ, void *, (int fd, void *p, size_t n, off_t o), (fd, p, n, o))
RW(pwrite64, WRITE, void const *, (int fd, void const *p, size_t n, off_t o), (fd, p, n, o))

off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) {
  LOCK;
  int s = slot(FD(fd)), k = step(SEEK, s < 0 ? -1 : files[s].base, (long)o);
  UNLOCK;
  if (k) { errno = err_no; return -1; }
  return __real_lseek(fd, o, w);
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }

int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t o) {
  LOCK;
  int s = slot(FD(fd)), k = step(OTHER, s < 0 ? -1 : files[s].base, (long)o);
  UNLOCK;
  if (k) { errno = err_no; return -1; }
  return __real_ftruncate(fd, o);
}
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  LOCK;
  int s = fd >= 0 ? slot(FD(fd)) : -1, k = step(OTHER, s < 0 ? -1 : files[s].base, (long)n);
  UNLOCK;
  if (k) { errno = err_no; return MAP_FAILED; }
  return __real_mmap(a, n, pr, fl, fd, o);
}
