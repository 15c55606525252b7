/* Stands between the command line and the operating system (LD_PRELOAD). Every call on files under
 * SIM_DIR, on standard output and on clocks passes here; SIM_FAULTS says what happens to the n-th call
 * of a class, and what happened is appended to the file SIM_TRACE. Time is simulated: it passes only
 * by the durations given. Nothing outside SIM_DIR can be changed.
 *
 * SIM_FAULTS is a list of "class nth kind value" separated by ';', nth counting from 0 per class:
 *   classes  o open for reading   c open for writing   r read   w write   p write to standard output
 *            d make directory     x close              f sync   n rename, unlink, link, truncate, ...
 *            s sleep (computing)  t clock read         b write to standard error
 *            a allocation of memory      h start of a thread
 *   kinds    e fail with errno value        E the same for this and every later call of the class
 *            s transfer at most value bytes S the same for 20000 calls
 *            k be killed before the call    K be killed after it    m be killed after value bytes
 *            d take value nanoseconds       D every later call does
 *            w the wall clock jumps by value nanoseconds
 *            l every allocation of more than value bytes fails
 * and "u 0 f value": the disk is full after value written bytes; "u 0 t value": the clocks at start;
 * "u 0 s value" decides the order of threads. Exactly one thread runs at a time. It can be replaced by
 * another at every call above, and is when it waits for a lock, a thread, a time or yields. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

#define MAXF 512
#define MAXFD 512
static struct { char class, kind; long nth, value; } fault[MAXF];
static int faults;
static long count[128];
static char root[PATH_MAX];
static size_t root_len;
static int trace_fd = -1;
static long seq;
static int64_t mono = 1000000000000, wall = 1700000000000000000;
// Neither clock ever overflows: what would pass beyond a century passes in no time
static void pass(int64_t v) {
  if (v < 0 || mono > 3000000000000000000 - (v < 3000000000000000000 ? v : 3000000000000000000)) return;
  mono += v;
  wall += v;
}
static uint64_t schedule;
static int64_t budget = -1;
static char *name[MAXFD]; /* what tracked descriptors are */
static char writes[MAXFD];
static uint64_t entropy = 88172645463325252ull;
static pthread_mutex_t lock = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int inside __attribute__((tls_model("initial-exec")));
static int ready, allocations, measuring;
static long live, peak;
static long largest = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c) raw(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
static void note(char class, long nth, const char *what, const char *path, long result, const char *detail) {
  char line[PATH_MAX + 512];
  if (trace_fd < 0) return;
  if (seq > 200000) { /* going round in circles */
    RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0), SIGXCPU, 0);
    for (;;) RAW(SYS_pause, 0, 0, 0);
  }
  const char *p = path ? path : "";
  if (!strcmp(p, root)) p = ".";
  else if (!strncmp(p, root, root_len) && p[root_len] == '/') p += root_len + 1;
  int n = snprintf(line, sizeof line, "%ld\t%c\t%ld\t%s\t%s\t%ld\t%s\t%lld\n", seq++, class, nth, what, p, result, detail, (long long)mono);
  if (n > (int)sizeof line) n = sizeof line;
  RAW(SYS_write, trace_fd, line, n);
}
static void die(void) {
  RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0), SIGKILL, 0);
  for (;;) RAW(SYS_pause, 0, 0, 0);
}
static void init(void) {
  static int done;
  if (done) return;
  done = 1;
  const char *dir = getenv("SIM_DIR"), *plan = getenv("SIM_FAULTS"), *trace = getenv("SIM_TRACE");
  if (!dir || !trace) _exit(97);
  snprintf(root, sizeof root, "%s", dir);
  root_len = strlen(root);
  long fd = raw(SYS_openat, AT_FDCWD, (long)trace, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600, 0, 0);
  long high = RAW(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700);
  if (fd < 0 || high < 0) _exit(98);
  RAW(SYS_close, fd, 0, 0);
  trace_fd = (int)high;
  for (const char *p = plan; p && *p && faults < MAXF;) {
    char class, kind;
    long nth, value;
    int used = 0;
    if (sscanf(p, " %c %ld %c %ld%n", &class, &nth, &kind, &value, &used) != 4) _exit(96);
    if (class == 'a') allocations = 1;
    if (class == 'a' && kind == 'l') { if (largest < 0 || value < largest) largest = value; }
    else if (class == 'u' && kind == 'f') budget = value;
    else if (class == 'u' && kind == 'm') measuring = 1;
    else if (class == 'u' && kind == 's') schedule = (uint64_t)value;
    else if (class == 'u' && kind == 't') { mono += value; wall += value / 3; }
    else { fault[faults].class = class; fault[faults].nth = nth; fault[faults].kind = kind; fault[faults++].value = value; }
    p += used;
    if (*p == ';') p++;
  }
  ready = 1;
}
__attribute__((constructor)) static void start(void) { init(); }

/* What the plan has for this call */
struct todo { long nth; int error; long at_most; int kill; char detail[64]; };
enum { NO, BEFORE, AFTER, MID };
static struct todo next(char class) {
  struct todo t = {count[(int)class]++, 0, -1, NO, ""};
  for (int i = 0; i < faults; i++) {
    if (fault[i].class != class) continue;
    int later = strchr("ESD", fault[i].kind) != NULL;
    if (!(fault[i].nth == t.nth || (later && fault[i].nth <= t.nth))) continue;
    if (fault[i].kind == 'S' && t.nth > fault[i].nth + 20000) continue;
    long v = fault[i].value;
    switch (fault[i].kind) {
      case 'e': case 'E': t.error = (int)v; strcat(t.detail, "e"); break;
      case 's': case 'S': t.at_most = v < 1 ? 1 : v; strcat(t.detail, "s"); break;
      case 'k': t.kill = BEFORE; break;
      case 'K': t.kill = AFTER; break;
      case 'm': t.kill = MID; t.at_most = v; break;
      case 'd': case 'D': pass(v); if (strlen(t.detail) < 40) strcat(t.detail, "d"); break;
      case 'w': wall += v; if (strlen(t.detail) < 40) strcat(t.detail, "w"); break;
    }
  }
  return t;
}
static void killed(struct todo *t, char class, const char *what, const char *path, int when) {
  if (t->kill == when || (when == AFTER && t->kill == MID)) {
    note(class, t->nth, what, path, 0, when == BEFORE ? "killed before" : t->kill == MID ? "killed within" : "killed after");
    die();
  }
}
/* Threads: one of them runs, the others wait for their turn */
#define MAXT 64
enum { READY, FUTEX, JOIN, ASLEEP, ENDED };
struct thread { int state, turn, timed, late; long order; const void *at; int64_t deadline; pthread_t handle; void *(*start)(void *); void *arg; };
static struct thread thread[MAXT];
static int threads = 1;
static long waits;
static __thread struct thread *self_ __attribute__((tls_model("initial-exec")));
static pthread_key_t at_end;
static struct thread *self(void) { return self_ ? self_ : thread; }
static uint64_t draw(void) {
  static uint64_t x;
  if (!x) x = schedule * 0x9e3779b97f4a7c15ull + 0x2545f4914f6cdd1dull;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return x >> 20;
}
static void hang(const char *why) {
  note('?', 0, why, "", 0, "");
  RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0), SIGXCPU, 0);
  for (;;) RAW(SYS_pause, 0, 0, 0);
}
/* The next thread runs; returns when it is this one's turn again (never when it ended) */
static void turn_over(int another) {
  struct thread *me = self(), *to = NULL;
  for (;;) {
    int n = 0;
    for (int i = 0; i < threads; i++) n += thread[i].state == READY && !(another && &thread[i] == me);
    if (!n && another && me->state == READY) return;
    if (n) {
      /* in order of age, or any */
      int k = schedule % 4 == 0 ? 0 : (int)(draw() % (uint64_t)n), from = schedule % 4 == 0 ? (int)(me - thread) + (another || me->state != READY) : 0;
      for (int i = 0; i < threads && !to; i++) {
        struct thread *t = &thread[(from + i) % threads];
        if (t->state == READY && !(another && t == me) && !k--) to = t;
      }
      break;
    }
    struct thread *first = NULL;
    for (int i = 0; i < threads; i++)
      if ((thread[i].state == ASLEEP || (thread[i].state == FUTEX && thread[i].timed)) && (!first || thread[i].deadline < first->deadline)) first = &thread[i];
    if (!first) hang("every thread waits");
    if (first->deadline > mono) pass(first->deadline - mono);
    first->late = first->state == FUTEX;
    first->state = READY;
  }
  if (to == me) return;
  int ended = me->state == ENDED;
  __atomic_store_n(&to->turn, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, (long)&to->turn, 1, 1, 0, 0, 0);
  if (ended) return;
  while (!__atomic_load_n(&me->turn, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)&me->turn, 0, 0, 0, 0, 0);
  __atomic_store_n(&me->turn, 0, __ATOMIC_SEQ_CST);
}
static void preempt(void) {
  if (threads == 1 || inside) return;
  int saved = errno;
  if (schedule % 4 == 1 || (schedule % 4 == 2 && draw() % 4 == 0) || (schedule % 4 == 3 && draw() % 24 == 0)) turn_over(0);
  errno = saved;
}
static void ended(void *p) {
  struct thread *t = p;
  t->state = ENDED;
  for (int i = 0; i < threads; i++)
    if (thread[i].state == JOIN && thread[i].at == t) thread[i].state = READY;
  turn_over(0);
}
static void *begin(void *p) {
  struct thread *t = p;
  self_ = t;
  while (!__atomic_load_n(&t->turn, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)&t->turn, 0, 0, 0, 0, 0);
  __atomic_store_n(&t->turn, 0, __ATOMIC_SEQ_CST);
  pthread_setspecific(at_end, t);
  return t->start(t->arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*start)(void *), void *arg) {
  static int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  init();
  pthread_mutex_lock(&lock);
  inside++;
  if (!create) {
    create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    pthread_key_create(&at_end, ended);
  }
  struct todo t = next('h');
  struct thread *n = NULL;
  for (int i = 1; i < threads && !n; i++)
    if (thread[i].state == ENDED) n = &thread[i];
  int r = t.error;
  if (!r && !n && threads == MAXT) r = EAGAIN;
  if (!r) {
    if (!n) n = &thread[threads];
    memset(n, 0, sizeof *n);
    n->state = READY;
    n->start = start;
    n->arg = arg;
    r = create(&n->handle, a, begin, n);
    if (!r) {
      *out = n->handle;
      if (n == &thread[threads]) threads++;
    } else n->state = ENDED;
  }
  note('h', t.nth, "thread", "", -r, t.detail);
  inside--;
  pthread_mutex_unlock(&lock);
  if (!r && schedule % 4) turn_over((draw() & 1) != 0);
  return r;
}
int pthread_join(pthread_t h, void **out) {
  static int (*join)(pthread_t, void **);
  if (!join) join = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  for (int i = 1; i < threads; i++) {
    if (thread[i].handle != h) continue;
    struct thread *me = self();
    while (thread[i].state != ENDED) {
      me->state = JOIN;
      me->at = &thread[i];
      turn_over(0);
    }
  }
  return join(h, out);
}
int sched_yield(void) {
  if (threads > 1) turn_over(1);
  return 0;
}
/* Waiting for and waking at an address, on simulated time */
static long do_futex(int *at, int op, int value, const struct timespec *until, unsigned set) {
  int what = op & 127;
  if (what == 0 || what == 9) {
    if (__atomic_load_n(at, __ATOMIC_SEQ_CST) != value) return -EAGAIN;
    struct thread *me = self();
    me->timed = until != NULL;
    if (until) {
      me->deadline = until->tv_sec < 2000000000 ? until->tv_sec * 1000000000ll + until->tv_nsec : 3000000000000000000;
      if (what == 0) me->deadline += mono;
      else if (op & 256) me->deadline += mono - wall;
      if (me->deadline <= mono) return -ETIMEDOUT;
    }
    me->at = at;
    me->late = 0;
    me->order = waits++;
    me->state = FUTEX;
    turn_over(0);
    return me->late ? -ETIMEDOUT : 0;
  }
  if (what == 1 || what == 10) {
    long n = 0;
    while (n < value) {
      struct thread *first = NULL;
      for (int i = 0; i < threads; i++)
        if (thread[i].state == FUTEX && thread[i].at == at && (!first || thread[i].order < first->order)) first = &thread[i];
      if (!first) break;
      first->state = READY;
      n++;
    }
    if (n) preempt();
    return n;
  }
  (void)set;
  return -ENOSYS;
}
static void let_pass(int64_t v) {
  if (threads == 1 || v <= 0 || mono > 3000000000000000000 - (v < 3000000000000000000 ? v : 3000000000000000000)) {
    pass(v);
    return;
  }
  struct thread *me = self();
  me->deadline = mono + v;
  me->state = ASLEEP;
  turn_over(0);
}
/* The file a path leads to, as far as it exists, or NULL when it is outside SIM_DIR */
static int resolve(int at, const char *path, char *out) {
  char full[PATH_MAX], dir[PATH_MAX];
  if (!path) return 0;
  if (path[0] == '/' ) snprintf(full, sizeof full, "%s", path);
  else {
    char cwd[PATH_MAX], proc[64];
    if (at == AT_FDCWD) { if (RAW(SYS_getcwd, cwd, sizeof cwd, 0) < 0) return 0; }
    else {
      snprintf(proc, sizeof proc, "/proc/self/fd/%d", at);
      long n = RAW(SYS_readlink, proc, cwd, sizeof cwd - 1);
      if (n < 0) return 0;
      cwd[n] = 0;
    }
    snprintf(full, sizeof full, "%s/%s", cwd, path);
  }
  if (!realpath(full, out)) {
    size_t n = strlen(full);
    while (n > 1 && full[n - 1] == '/') full[--n] = 0;
    char *slash = strrchr(full, '/');
    if (!slash) return 0;
    *slash = 0;
    char target[PATH_MAX];
    if (!realpath(full[0] ? full : "/", dir)) snprintf(dir, sizeof dir, "%s", full);
    snprintf(out, PATH_MAX, "%s/%.1024s", dir, slash + 1);
    /* a dangling link would be created through */
    long k = RAW(SYS_readlink, out, target, sizeof target - 1);
    if (k > 0) {
      target[k] = 0;
      if (target[0] == '/') snprintf(out, PATH_MAX, "%s", target);
      else snprintf(out, PATH_MAX, "%.2048s/%.2000s", dir, target);
    }
    if (strstr(out, "/../")) return 0;
  }
  return !strncmp(out, root, root_len) && (out[root_len] == '/' || !out[root_len]);
}
#define ENTER int saved_ = errno; (void)saved_; init(); preempt(); pthread_mutex_lock(&lock); inside++;
#define LEAVE(v) do { inside--; pthread_mutex_unlock(&lock); return (v); } while (0)
#define BYPASS (inside > 0)

static void track(int fd, const char *path, int w) {
  if (fd >= 0 && fd < MAXFD) {
    free(name[fd]);
    name[fd] = strdup(path);
    writes[fd] = (char)w;
  }
}
static int tracked(int fd) { return fd >= 0 && fd < MAXFD && name[fd]; }

static int do_open(int at, const char *path, int flags, mode_t mode) {
  init();
  if (BYPASS) return (int)ret(raw(SYS_openat, at, (long)path, flags, mode, 0, 0));
  ENTER
  char file[PATH_MAX];
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!resolve(at, path, file)) {
    if (w && path && strncmp(path, "/dev/null", 10) && strncmp(path, "/proc/self/", 11)) {
      note('!', 0, "open", path, -EACCES, "outside");
      errno = EACCES;
      LEAVE(-1);
    }
    LEAVE((int)ret(raw(SYS_openat, at, (long)path, flags, mode, 0, 0)));
  }
  char class = w ? 'c' : 'o';
  struct todo t = next(class);
  killed(&t, class, "open", file, BEFORE);
  long r = t.error ? -t.error : raw(SYS_openat, at, (long)path, flags, mode, 0, 0);
  note(class, t.nth, flags & O_TRUNC ? "create" : w ? "open for writing" : "open", file, r < 0 ? r : 0, t.detail);
  if (r >= 0) track((int)r, file, w);
  killed(&t, class, "open", file, AFTER);
  LEAVE((int)ret(r));
}
#define OPEN(sym, ATARG, AT) int sym ATARG { mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } return do_open(AT, path, flags, mode); }
OPEN(open, (const char *path, int flags, ...), AT_FDCWD)
OPEN(open64, (const char *path, int flags, ...), AT_FDCWD)
OPEN(openat, (int at, const char *path, int flags, ...), at)
OPEN(openat64, (int at, const char *path, int flags, ...), at)
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t do_read(int fd, void *buf, size_t n, off_t at, int positioned) {
  init();
  if (BYPASS || !tracked(fd)) return positioned ? ret(raw(SYS_pread64, fd, (long)buf, n, at, 0, 0)) : ret(RAW(SYS_read, fd, buf, n));
  ENTER
  struct todo t = next('r');
  killed(&t, 'r', "read", name[fd], BEFORE);
  if (t.at_most >= 0 && n > (size_t)t.at_most) n = (size_t)t.at_most;
  long r = t.error ? -t.error : positioned ? raw(SYS_pread64, fd, (long)buf, n, at, 0, 0) : RAW(SYS_read, fd, buf, n);
  note('r', t.nth, "read", name[fd], r, t.detail);
  killed(&t, 'r', "read", name[fd], AFTER);
  LEAVE(ret(r));
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, 0, 0); }
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, at, 1); }
ssize_t pread64(int fd, void *buf, size_t n, off_t at) { return do_read(fd, buf, n, at, 1); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (n <= 0 || BYPASS || !tracked(fd)) return ret(RAW(SYS_readv, fd, v, n));
  int i = 0;
  while (i < n - 1 && v[i].iov_len == 0) i++;
  return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t at, int positioned) {
  init();
  if (BYPASS || !(tracked(fd) || fd == 1 || fd == 2))
    return positioned ? ret(raw(SYS_pwrite64, fd, (long)buf, n, at, 0, 0)) : ret(RAW(SYS_write, fd, buf, n));
  ENTER
  int file = tracked(fd);
  char class = file ? 'w' : fd == 1 ? 'p' : 'b';
  const char *path = file ? name[fd] : fd == 1 ? "standard output" : "standard error";
  struct todo t = next(class);
  killed(&t, class, "write", path, BEFORE);
  long r;
  if (t.kill == MID && t.at_most == 0) r = 0;
  else if (t.error) r = -t.error;
  else {
    if (t.at_most >= 0 && n > (size_t)t.at_most) n = (size_t)t.at_most;
    if (file && budget >= 0 && (int64_t)n > budget) {
      n = (size_t)budget;
      strcat(t.detail, "full");
    }
    if (file && budget == 0 && n == 0 && strstr(t.detail, "full")) r = -ENOSPC;
    else {
      r = positioned ? raw(SYS_pwrite64, fd, (long)buf, n, at, 0, 0) : RAW(SYS_write, fd, buf, n);
      if (file && budget > 0 && r > 0) budget -= r;
    }
  }
  note(class, t.nth, "write", path, r, t.detail);
  killed(&t, class, "write", path, AFTER);
  LEAVE(ret(r));
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return do_write(fd, buf, n, at, 1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t at) { return do_write(fd, buf, n, at, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (n <= 0 || BYPASS || !(tracked(fd) || fd == 1 || fd == 2)) return ret(RAW(SYS_writev, fd, v, n));
  int i = 0;
  while (i < n - 1 && v[i].iov_len == 0) i++;
  return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
}
/* Whoever uses these has to fall back to read and write */
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
  (void)a, (void)x, (void)b, (void)y, (void)n, (void)f;
  errno = ENOSYS;
  return -1;
}
ssize_t sendfile(int a, int b, off_t *x, size_t n) { (void)a, (void)b, (void)x, (void)n; errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off_t *x, size_t n) { (void)a, (void)b, (void)x, (void)n; errno = EINVAL; return -1; }
ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { (void)a, (void)x, (void)b, (void)y, (void)n, (void)f; errno = EINVAL; return -1; }
void *mmap64(void *at, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd >= 0 && tracked(fd) && (flags & MAP_SHARED) && (prot & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
  long r = raw(SYS_mmap, (long)at, (long)n, prot, flags, fd, off);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
void *mmap(void *at, size_t n, int prot, int flags, int fd, off_t off) { return mmap64(at, n, prot, flags, fd, off); }

int close(int fd) {
  init();
  if (BYPASS || !tracked(fd)) return (int)ret(RAW(SYS_close, fd, 0, 0));
  ENTER
  struct todo t = next('x');
  killed(&t, 'x', "close", name[fd], BEFORE);
  long r = RAW(SYS_close, fd, 0, 0);
  if (t.error) r = -t.error;
  note('x', t.nth, writes[fd] ? "close written" : "close", name[fd], r, t.detail);
  char *n = name[fd];
  name[fd] = NULL;
  killed(&t, 'x', "close", n, AFTER);
  free(n);
  LEAVE((int)ret(r));
}
static int sync_(int fd, long call, const char *what, long a) {
  init();
  if (BYPASS || !tracked(fd)) return (int)ret(RAW(call, fd, a, 0));
  ENTER
  struct todo t = next('f');
  killed(&t, 'f', what, name[fd], BEFORE);
  long r = t.error ? -t.error : RAW(call, fd, a, 0);
  note('f', t.nth, what, name[fd], r, t.detail);
  killed(&t, 'f', what, name[fd], AFTER);
  LEAVE((int)ret(r));
}
int fsync(int fd) { return sync_(fd, SYS_fsync, "sync", 0); }
int fdatasync(int fd) { return sync_(fd, SYS_fdatasync, "sync", 0); }
int ftruncate(int fd, off_t n) { return sync_(fd, SYS_ftruncate, "truncate", n); }
int ftruncate64(int fd, off_t n) { return sync_(fd, SYS_ftruncate, "truncate", n); }

/* Everything that changes names */
static int change(char class, const char *what, int at1, const char *p1, int at2, const char *p2, long call, long a, long b, long c, long d, long e) {
  init();
  if (BYPASS) return (int)ret(raw(call, a, b, c, d, e, 0));
  ENTER
  char f1[PATH_MAX], f2[PATH_MAX];
  char both[2 * PATH_MAX + 8];
  int ok = resolve(at1, p1, f1) && (!p2 || resolve(at2, p2, f2));
  if (!ok) {
    note('!', 0, what, p1, -EACCES, "outside");
    errno = EACCES;
    LEAVE(-1);
  }
  if (p2) snprintf(both, sizeof both, "%s", f2);
  else snprintf(both, sizeof both, "%s", f1);
  struct todo t = next(class);
  killed(&t, class, what, both, BEFORE);
  long r = t.error ? -t.error : raw(call, a, b, c, d, e, 0);
  note(class, t.nth, what, both, r, t.detail);
  killed(&t, class, what, both, AFTER);
  LEAVE((int)ret(r));
}
int mkdir(const char *p, mode_t m) { return change('d', "mkdir", AT_FDCWD, p, 0, NULL, SYS_mkdir, (long)p, m, 0, 0, 0); }
int mkdirat(int at, const char *p, mode_t m) { return change('d', "mkdir", at, p, 0, NULL, SYS_mkdirat, at, (long)p, m, 0, 0); }
int rmdir(const char *p) { return change('n', "rmdir", AT_FDCWD, p, 0, NULL, SYS_rmdir, (long)p, 0, 0, 0, 0); }
int unlink(const char *p) { return change('n', "unlink", AT_FDCWD, p, 0, NULL, SYS_unlink, (long)p, 0, 0, 0, 0); }
int unlinkat(int at, const char *p, int f) { return change('n', "unlink", at, p, 0, NULL, SYS_unlinkat, at, (long)p, f, 0, 0); }
int rename(const char *a, const char *b) { return change('n', "rename", AT_FDCWD, a, AT_FDCWD, b, SYS_rename, (long)a, (long)b, 0, 0, 0); }
int renameat(int x, const char *a, int y, const char *b) { return change('n', "rename", x, a, y, b, SYS_renameat, x, (long)a, y, (long)b, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return change('n', "rename", x, a, y, b, SYS_renameat2, x, (long)a, y, (long)b, f); }
int link(const char *a, const char *b) { return change('n', "link", AT_FDCWD, a, AT_FDCWD, b, SYS_link, (long)a, (long)b, 0, 0, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return change('n', "link", x, a, y, b, SYS_linkat, x, (long)a, y, (long)b, f); }
int symlink(const char *a, const char *b) { return change('n', "symlink", AT_FDCWD, b, 0, NULL, SYS_symlink, (long)a, (long)b, 0, 0, 0); }
int symlinkat(const char *a, int y, const char *b) { return change('n', "symlink", y, b, 0, NULL, SYS_symlinkat, (long)a, y, (long)b, 0, 0); }
int truncate(const char *p, off_t n) { return change('n', "truncate", AT_FDCWD, p, 0, NULL, SYS_truncate, (long)p, n, 0, 0, 0); }
int truncate64(const char *p, off_t n) { return change('n', "truncate", AT_FDCWD, p, 0, NULL, SYS_truncate, (long)p, n, 0, 0, 0); }
int chmod(const char *p, mode_t m) { return change('n', "chmod", AT_FDCWD, p, 0, NULL, SYS_chmod, (long)p, m, 0, 0, 0); }
int fchmodat(int at, const char *p, mode_t m, int f) { (void)f; return change('n', "chmod", at, p, 0, NULL, SYS_fchmodat, at, (long)p, m, 0, 0); }
int chown(const char *p, uid_t u, gid_t g) { return change('n', "chown", AT_FDCWD, p, 0, NULL, SYS_chown, (long)p, u, g, 0, 0); }
int utimensat(int at, const char *p, const struct timespec ts[2], int f) {
  if (!p) return (int)ret(raw(SYS_utimensat, at, 0, (long)ts, f, 0, 0));
  return change('n', "utime", at, p, 0, NULL, SYS_utimensat, at, (long)p, (long)ts, f, 0);
}

/* Memory */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int no_memory(size_t n) {
  if (!ready || !allocations || inside) return 0;
  int saved = errno;
  pthread_mutex_lock(&lock);
  inside++;
  struct todo t = next('a');
  int fails = t.error || (largest >= 0 && (long)n > largest);
  if (fails) note('a', t.nth, "allocate", "", -ENOMEM, "e");
  inside--;
  pthread_mutex_unlock(&lock);
  errno = fails ? ENOMEM : saved;
  return fails;
}
/* What the command itself holds, and the most it held at once */
static void *held(void *p, long before) {
  if (measuring && p && !inside) {
    long now = __atomic_add_fetch(&live, (long)malloc_usable_size(p) - before, __ATOMIC_RELAXED);
    if (now > peak) peak = now;
  }
  return p;
}
void *malloc(size_t n) { return no_memory(n) ? NULL : held(__libc_malloc(n), 0); }
void *calloc(size_t a, size_t b) { return no_memory(b && a > SIZE_MAX / b ? SIZE_MAX / 2 : a * b) ? NULL : held(__libc_calloc(a, b), 0); }
void *realloc(void *p, size_t n) {
  if (n && no_memory(n)) return NULL;
  long before = measuring && p ? (long)malloc_usable_size(p) : 0;
  return held(__libc_realloc(p, n), before);
}
void *memalign(size_t a, size_t n) { return no_memory(n) ? NULL : held(__libc_memalign(a, n), 0); }
void free(void *p) {
  if (measuring && p && !inside) __atomic_sub_fetch(&live, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
  __libc_free(p);
}
__attribute__((destructor)) static void finish(void) {
  if (measuring) note('$', 0, "memory", "", peak, "");
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **out, size_t a, size_t n) {
  int saved = errno;
  void *p = memalign(a, n);
  errno = saved;
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

/* Clocks */
int clock_gettime(clockid_t id, struct timespec *ts) {
  init();
  if (BYPASS) return (int)ret(RAW(SYS_clock_gettime, id, ts, 0));
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
    /* processor time stands still in slow devices; here nothing but computing takes any */
    ts->tv_sec = 0;
    ts->tv_nsec = 0;
    return 0;
  }
  ENTER
  struct todo t = next('t');
  int is_wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
  int64_t now = is_wall ? wall : mono;
  note('t', t.nth, is_wall ? "wall clock" : "clock", "", 0, t.detail);
  ts->tv_sec = now / 1000000000;
  ts->tv_nsec = now % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  LEAVE(0);
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
static int do_sleep(const struct timespec *req) {
  init();
  if (threads > 1) let_pass(req->tv_sec < 2000000000 ? req->tv_sec * 1000000000ll + req->tv_nsec : 2000000000000000000);
  ENTER
  struct todo t = next('s');
  if (threads == 1) pass(req->tv_sec < 2000000000 ? req->tv_sec * 1000000000ll + req->tv_nsec : 2000000000000000000);
  killed(&t, 's', "compute", "", BEFORE);
  note('s', t.nth, "compute", "", 0, t.detail);
  LEAVE(0);
}
int nanosleep(const struct timespec *req, struct timespec *rem) { (void)rem; return do_sleep(req); }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  (void)rem;
  if (flags & TIMER_ABSTIME) {
    struct timespec now, d;
    clock_gettime(id, &now);
    int64_t left = (req->tv_sec - now.tv_sec) * 1000000000ll + req->tv_nsec - now.tv_nsec;
    if (left < 0) left = 0;
    d.tv_sec = left / 1000000000;
    d.tv_nsec = left % 1000000000;
    return do_sleep(&d);
  }
  return do_sleep(req);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  (void)flags;
  for (size_t i = 0; i < n; i++) {
    entropy ^= entropy << 13;
    entropy ^= entropy >> 7;
    entropy ^= entropy << 17;
    ((unsigned char *)buf)[i] = (unsigned char)(entropy >> 24);
  }
  return (ssize_t)n;
}
/* The standard library may call the kernel by number */
long syscall(long n, ...) {
  long a[6];
  va_list v;
  va_start(v, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
  va_end(v);
  if (n == SYS_getrandom) return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
  if (n == SYS_futex && !inside) return ret(do_futex((int *)a[0], (int)a[1], (int)a[2], (const struct timespec *)a[3], (unsigned)a[5]));
  if (n == SYS_copy_file_range) { errno = ENOSYS; return -1; }
  return ret(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
