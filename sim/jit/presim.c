// Preloaded into the importing Python process and all tools it starts: every file operation below
// the simulated checkout, every lock, sleep, clock and random number goes through the simulator,
// which answers whether the operation proceeds, is partial, fails, or the process dies there.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

enum { OP_HELLO, OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_MKDIR, OP_RENAME, OP_STAT, OP_UNLINK,
       OP_FSYNC, OP_LIST, OP_UTIME, OP_LOCK, OP_LOCKWAIT, OP_SLEEP, OP_NOTE, OP_TRUNC };
enum { A_GO, A_FAIL, A_SHORT, A_TORN, A_KILL, A_KILLT };
struct msg { int op, wr; int64_t size; int len, pid; };
struct rep { int act, pad; int64_t arg, now; };

static char g_root[512], g_skip[560], g_sock[108];
static int g_actor = -1, g_pid = 4000, g_conn = -1, g_conn_pid = -1;
static int64_t g_now = 1000000000000000000ll;
static uint64_t g_rand;
static struct { char tracked, wr, torn; char path[500]; } g_fd[1024];

#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })

static long sys_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long sys_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
static int sys_pid(void) { return (int)syscall(SYS_getpid); }

static int full(int wr, void* b, size_t n)
{
  char* p = b;
  while (n > 0)
  {
    long k = wr ? sys_write(g_conn, p, n) : sys_read(g_conn, p, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      return -1;
    p += k;
    n -= k;
  }
  return 0;
}
static struct rep raw_ask(int op, int wr, int64_t size, const char* payload, int len)
{
  struct msg m = {op, wr, size, len, sys_pid()};
  struct rep r;
  if (full(1, &m, sizeof m) || (len && full(1, (void*)payload, len)) || full(0, &r, sizeof r))
    syscall(SYS_exit_group, 97);
  g_now = r.now;
  return r;
}
static void connect_sim(void)
{
  if (g_conn >= 0 && g_conn_pid == sys_pid())
    return;
  if (g_conn >= 0)
    syscall(SYS_close, g_conn);
  int s = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a = {AF_UNIX, ""};
  snprintf(a.sun_path, sizeof a.sun_path, "%s", g_sock);
  int hi = (int)syscall(SYS_fcntl, s, F_DUPFD_CLOEXEC, 1000);
  if (hi >= 0)
  {
    syscall(SYS_close, s);
    s = hi;
  }
  if (syscall(SYS_connect, s, &a, sizeof a) != 0)
    syscall(SYS_exit_group, 97);
  g_conn = s;
  g_conn_pid = sys_pid();
  raw_ask(OP_HELLO, 0, g_actor, "", 0);
}
static struct rep ask(int op, int wr, int64_t size, const char* payload)
{
  int e = errno;
  connect_sim();
  struct rep r = raw_ask(op, wr, size, payload, (int)strlen(payload));
  if (r.act == A_KILL)
  {
    syscall(SYS_kill, sys_pid(), SIGKILL);
    pause();
  }
  errno = e;
  return r;
}
static void absolute(const char* p, char* out, size_t n)
{
  char t[1200], cwd[512];
  if (p[0] == '/')
    snprintf(t, sizeof t, "%s", p);
  else
  {
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0)
      cwd[0] = 0;
    snprintf(t, sizeof t, "%s/%s", cwd, p);
  }
  // Lexical normalisation.
  char *q = out, *end = out + n - 2;
  *q = 0;
  for (char* s = t; *s;)
  {
    while (*s == '/')
      ++s;
    char* e = s;
    while (*e && *e != '/')
      ++e;
    size_t k = e - s;
    if (k == 1 && s[0] == '.')
      ;
    else if (k == 2 && s[0] == '.' && s[1] == '.')
    {
      while (q > out && *--q != '/')
        ;
      *q = 0;
    }
    else if (k > 0 && q + k + 1 < end)
    {
      *q++ = '/';
      memcpy(q, s, k);
      q += k;
      *q = 0;
    }
    s = e;
  }
}
static int under(const char* p, char* rel, size_t n)
{
  char a[1200];
  if (g_actor < 0 || p == NULL)
    return 0;
  absolute(p, a, sizeof a);
  size_t k = strlen(g_root);
  if (strncmp(a, g_root, k) != 0 || (a[k] != '/' && a[k] != 0))
    return 0;
  size_t s = strlen(g_skip);
  if (strncmp(a, g_skip, s) == 0)
    return 0;
  snprintf(rel, n, "%s", a[k] ? a + k + 1 : ".");
  return 1;
}
static struct timespec ts_of(int64_t t)
{
  struct timespec r = {t / 1000000000ll, t % 1000000000ll};
  return r;
}
static void stamp_path(const char* p)
{
  int e = errno;
  struct timespec t[2] = {ts_of(g_now), ts_of(g_now)};
  syscall(SYS_utimensat, AT_FDCWD, p, t, 0);
  errno = e;
}
static void stamp_fd(int fd)
{
  int e = errno;
  struct timespec t[2] = {ts_of(g_now), ts_of(g_now)};
  syscall(SYS_utimensat, fd, NULL, t, 0);
  errno = e;
}
static void stamp_parent(const char* p)
{
  char a[1200];
  absolute(p, a, sizeof a);
  char* s = strrchr(a, '/');
  if (s && s != a)
  {
    *s = 0;
    stamp_path(a);
  }
}
static void track(int fd, int wr, const char* path)
{
  if (fd >= 0 && fd < 1024)
  {
    g_fd[fd].tracked = 1;
    g_fd[fd].wr = wr;
    g_fd[fd].torn = 0;
    snprintf(g_fd[fd].path, sizeof g_fd[fd].path, "%s", path);
  }
}
static int tracked(int fd) { return g_actor >= 0 && fd >= 0 && fd < 1024 && g_fd[fd].tracked; }

void sim_become(int actor, const char* sock, const char* root)
{
  char t[32];
  snprintf(g_root, sizeof g_root, "%s", root);
  snprintf(g_skip, sizeof g_skip, "%s/import", root);
  snprintf(g_sock, sizeof g_sock, "%s", sock);
  g_actor = actor;
  g_rand = 88172645463325252ull + 7919ull * (actor + 1);
  if (getenv("SIM_PID"))
    g_pid = atoi(getenv("SIM_PID"));
  snprintf(t, sizeof t, "%d", actor);
  setenv("SIM_ACTOR", t, 1);
  setenv("SIM_ROOT", root, 1);
  setenv("SIM_SOCK", sock, 1);
}
__attribute__((constructor)) static void init(void)
{
  if (getenv("SIM_ACTOR") && getenv("SIM_ROOT") && getenv("SIM_SOCK"))
    sim_become(atoi(getenv("SIM_ACTOR")), getenv("SIM_SOCK"), getenv("SIM_ROOT"));
}
/// Observable event; returns the argument of the simulator's answer.
int64_t sim_note(const char* text)
{
  if (g_actor < 0)
    return 0;
  return ask(OP_NOTE, 0, 0, text).arg;
}

static int do_open(int dirfd, const char* p, int flags, mode_t m)
{
  char rel[1200];
  if (dirfd != AT_FDCWD || !under(p, rel, sizeof rel))
    return (int)syscall(SYS_openat, dirfd, p, flags, m);
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  struct rep r = ask(wr ? OP_OPENW : (flags & O_DIRECTORY) ? OP_LIST : OP_OPENR, wr, 0, rel);
  if (r.act == A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  struct stat st;
  int existed = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
  int fd = (int)syscall(SYS_openat, dirfd, p, flags, m);
  if (fd >= 0 && !(flags & O_DIRECTORY))
  {
    track(fd, wr, rel);
    if (wr && (!existed || (flags & O_TRUNC)))
      stamp_fd(fd);
    if (!existed)
      stamp_parent(p);
  }
  return fd;
}
#define OPEN_BODY(dir)                                                                   \
  va_list a;                                                                             \
  va_start(a, flags);                                                                    \
  mode_t m = (flags & (O_CREAT | __O_TMPFILE)) ? (mode_t)va_arg(a, int) : 0;             \
  va_end(a);                                                                             \
  return do_open(dir, p, flags, m);
int open(const char* p, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char* p, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char* p, int flags, ...) { OPEN_BODY(d) }
int openat64(int d, const char* p, int flags, ...) { OPEN_BODY(d) }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static FILE* do_fopen(const char* p, const char* mode)
{
  char rel[1200];
  if (!under(p, rel, sizeof rel))
    return REAL(fopen)(p, mode);
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+'))
    fl = (fl & ~O_ACCMODE) | O_RDWR;
  int fd = do_open(AT_FDCWD, p, fl, 0666);
  return fd < 0 ? NULL : fdopen(fd, mode);  // glibc then reads and writes the descriptor internally
}
FILE* fopen(const char* p, const char* mode) { return do_fopen(p, mode); }
FILE* fopen64(const char* p, const char* mode) { return do_fopen(p, mode); }
DIR* opendir(const char* p)
{
  char rel[1200];
  if (under(p, rel, sizeof rel))
  {
    struct rep r = ask(OP_LIST, 0, 0, rel);
    if (r.act == A_FAIL)
    {
      errno = (int)r.arg;
      return NULL;
    }
  }
  return REAL(opendir)(p);
}
ssize_t read(int fd, void* b, size_t n)
{
  if (!tracked(fd))
    return sys_read(fd, b, n);
  struct rep r = ask(OP_READ, g_fd[fd].wr, (int64_t)n, g_fd[fd].path);
  if (r.act == A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  if (r.act == A_SHORT && (size_t)r.arg < n)
    n = r.arg < 1 ? 1 : (size_t)r.arg;
  return sys_read(fd, b, n);
}
static ssize_t do_write(int fd, const void* b, size_t n)
{
  struct rep r = ask(OP_WRITE, 1, (int64_t)n, g_fd[fd].path);
  if (g_fd[fd].torn)
  {
    errno = EIO;
    return -1;
  }
  if (r.act == A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  if (r.act != A_GO && (size_t)r.arg < n)
    n = r.act == A_KILLT ? (size_t)r.arg : r.arg < 1 ? 1 : (size_t)r.arg;
  if (r.act == A_TORN)
    g_fd[fd].torn = 1;
  long k = n ? sys_write(fd, b, n) : 0;
  stamp_fd(fd);
  if (r.act == A_KILLT)
  {
    ask(OP_NOTE, 0, 1, "die");  // the simulator kills the group or this process
    syscall(SYS_kill, sys_pid(), SIGKILL);
  }
  return k;
}
ssize_t write(int fd, const void* b, size_t n) { return tracked(fd) ? do_write(fd, b, n) : sys_write(fd, b, n); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
  if (tracked(fd))
    ask(OP_WRITE, 1, (int64_t)n, g_fd[fd].path);
  ssize_t k = syscall(SYS_pwrite64, fd, b, n, o);
  if (tracked(fd))
    stamp_fd(fd);
  return k;
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (!tracked(fd))
    return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i)
  {
    ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0)
      return t ? t : -1;
    t += k;
    if ((size_t)k < v[i].iov_len)
      break;
  }
  return t;
}
ssize_t sendfile(int o, int i, off_t* off, size_t n)
{
  if (tracked(o) || tracked(i))
  {
    errno = EINVAL;
    return -1;
  }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t* off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f)
{
  if (tracked(o) || tracked(i))
  {
    errno = ENOSYS;
    return -1;
  }
  return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
int close(int fd)
{
  if (fd == g_conn && g_conn >= 0 && g_conn_pid == sys_pid())
    return 0;
  if (!tracked(fd))
    return (int)syscall(SYS_close, fd);
  struct rep r = ask(OP_CLOSE, g_fd[fd].wr, 0, g_fd[fd].path);
  g_fd[fd].tracked = 0;
  int rc = (int)syscall(SYS_close, fd);
  if (r.act == A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return rc;
}
static int path_op(int op, const char* p, char* rel, size_t n)
{
  if (!under(p, rel, n))
    return 0;
  struct rep r = ask(op, op != OP_STAT, 0, rel);
  if (r.act == A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return 1;
}
int mkdirat(int d, const char* p, mode_t m)
{
  char rel[1200];
  int k = d == AT_FDCWD ? path_op(OP_MKDIR, p, rel, sizeof rel) : 0;
  if (k < 0)
    return -1;
  int rc = (int)syscall(SYS_mkdirat, d, p, m);
  if (k > 0 && rc == 0)
  {
    stamp_path(p);
    stamp_parent(p);
  }
  return rc;
}
int mkdir(const char* p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
static int do_unlink(int d, const char* p, int flags)
{
  char rel[1200];
  int k = d == AT_FDCWD ? path_op(OP_UNLINK, p, rel, sizeof rel) : 0;
  if (k < 0)
    return -1;
  int rc = (int)syscall(SYS_unlinkat, d, p, flags);
  if (k > 0 && rc == 0)
    stamp_parent(p);
  return rc;
}
int unlink(const char* p) { return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char* p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char* p, int flags)
{
  if (d == AT_FDCWD || g_actor < 0)
    return do_unlink(d, p, flags);
  char l[64], base[600];
  snprintf(l, sizeof l, "/proc/self/fd/%d", d);
  ssize_t n = readlink(l, base, sizeof base - 1);
  if (n > 0 && p[0] != '/')
  {
    base[n] = 0;
    char f[1200], rel[1200];
    snprintf(f, sizeof f, "%s/%s", base, p);
    int k = path_op(OP_UNLINK, f, rel, sizeof rel);
    if (k < 0)
      return -1;
    int rc = (int)syscall(SYS_unlinkat, d, p, flags);
    if (k > 0 && rc == 0)
      stamp_parent(f);
    return rc;
  }
  return do_unlink(d, p, flags);
}
static int do_rename(const char* a, const char* b)
{
  char rel[1200];
  int k = path_op(OP_RENAME, b, rel, sizeof rel);
  if (k < 0)
    return -1;
  int rc = (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
  if (k > 0 && rc == 0)
  {
    stamp_parent(a);
    stamp_parent(b);
  }
  return rc;
}
int rename(const char* a, const char* b) { return do_rename(a, b); }
int renameat(int d, const char* a, int e, const char* b)
{
  return d == AT_FDCWD && e == AT_FDCWD ? do_rename(a, b) : (int)syscall(SYS_renameat, d, a, e, b);
}
int link(const char* a, const char* b)
{
  char rel[1200];
  int k = path_op(OP_RENAME, b, rel, sizeof rel);
  if (k < 0)
    return -1;
  int rc = (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
  if (k > 0 && rc == 0)
    stamp_parent(b);
  return rc;
}
int symlink(const char* a, const char* b)
{
  char rel[1200];
  int k = path_op(OP_RENAME, b, rel, sizeof rel);
  if (k < 0)
    return -1;
  int rc = (int)syscall(SYS_symlinkat, a, AT_FDCWD, b);
  if (k > 0 && rc == 0)
    stamp_parent(b);
  return rc;
}
static int do_stat(int d, const char* p, void* st, int flags)
{
  char rel[1200];
  if (d == AT_FDCWD && path_op(OP_STAT, p, rel, sizeof rel) < 0)
    return -1;
  return (int)syscall(SYS_newfstatat, d, p, st, flags);
}
int stat(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char* p, struct stat* st, int f) { return do_stat(d, p, st, f); }
int fstatat64(int d, const char* p, struct stat64* st, int f) { return do_stat(d, p, st, f); }
int access(const char* p, int m)
{
  char rel[1200];
  if (path_op(OP_STAT, p, rel, sizeof rel) < 0)
    return -1;
  return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int ftruncate64(int fd, off64_t n)
{
  if (tracked(fd))
    ask(OP_TRUNC, 1, n, g_fd[fd].path);
  int rc = (int)syscall(SYS_ftruncate, fd, n);
  if (tracked(fd))
    stamp_fd(fd);
  return rc;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd)
{
  if (tracked(fd))
  {
    struct rep r = ask(OP_FSYNC, 1, 0, g_fd[fd].path);
    if (r.act == A_FAIL)
    {
      errno = (int)r.arg;
      return -1;
    }
  }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int utimensat(int d, const char* p, const struct timespec* t, int flags)
{
  char rel[1200];
  struct timespec v[2];
  if (p && d == AT_FDCWD)
  {
    int k = path_op(OP_UTIME, p, rel, sizeof rel);
    if (k < 0)
      return -1;
    if (k == 0)
      return (int)syscall(SYS_utimensat, d, p, t, flags);
  }
  else if (!tracked(d))
    return (int)syscall(SYS_utimensat, d, p, t, flags);
  else
    ask(OP_UTIME, 1, 0, g_fd[d].path);
  for (int i = 0; i < 2; ++i)
    v[i] = t == NULL || t[i].tv_nsec == UTIME_NOW ? ts_of(g_now) : t[i];
  return (int)syscall(SYS_utimensat, d, p, v, flags);
}
int futimens(int fd, const struct timespec* t) { return utimensat(fd, NULL, t, 0); }
int utimes(const char* p, const struct timeval* t)
{
  struct timespec v[2];
  if (t)
    for (int i = 0; i < 2; ++i)
    {
      v[i].tv_sec = t[i].tv_sec;
      v[i].tv_nsec = t[i].tv_usec * 1000;
    }
  return utimensat(AT_FDCWD, p, t ? v : NULL, 0);
}
int flock(int fd, int op)
{
  if (!tracked(fd) || (op & LOCK_UN))
    return (int)syscall(SYS_flock, fd, op);
  ask(OP_LOCK, 1, 0, g_fd[fd].path);
  if (op & LOCK_NB)
    return (int)syscall(SYS_flock, fd, op);
  while (syscall(SYS_flock, fd, op | LOCK_NB) != 0)
  {
    if (errno != EWOULDBLOCK)
      return -1;
    ask(OP_LOCKWAIT, 1, 0, g_fd[fd].path);
  }
  return 0;
}
static int do_fcntl(int fd, int cmd, long arg)
{
  if (tracked(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW))
  {
    struct flock* l = (struct flock*)arg;
    ask(OP_LOCK, 1, 0, g_fd[fd].path);
    while (syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, l) != 0)
    {
      if (errno != EAGAIN && errno != EACCES)
        return -1;
      ask(OP_LOCKWAIT, 1, 0, g_fd[fd].path);
    }
    return 0;
  }
  return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...)
{
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  return do_fcntl(fd, cmd, arg);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
  if (g_actor < 0)
    return (int)syscall(SYS_clock_nanosleep, c, flags, t, rem) < 0 ? errno : 0;
  int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
  if (flags & TIMER_ABSTIME)
    ns = ns > g_now ? ns - g_now : 0;
  ask(OP_SLEEP, 0, ns, "");
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) { return clock_nanosleep(CLOCK_REALTIME, 0, t, rem); }
int clock_gettime(clockid_t c, struct timespec* t)
{
  if (g_actor < 0 || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE))
    return (int)syscall(SYS_clock_gettime, c, t);
  *t = ts_of(g_now);
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
  if (g_actor < 0)
    return (int)syscall(SYS_gettimeofday, tv, tz);
  tv->tv_sec = g_now / 1000000000ll;
  tv->tv_usec = g_now % 1000000000ll / 1000;
  return 0;
}
time_t time(time_t* t)
{
  time_t r = g_actor < 0 ? (time_t)syscall(SYS_time, NULL) : (time_t)(g_now / 1000000000ll);
  if (t)
    *t = r;
  return r;
}
ssize_t getrandom(void* b, size_t n, unsigned flags)
{
  if (g_actor < 0)
    return syscall(SYS_getrandom, b, n, flags);
  for (size_t i = 0; i < n; ++i)
  {
    g_rand ^= g_rand << 13;
    g_rand ^= g_rand >> 7;
    g_rand ^= g_rand << 17;
    ((unsigned char*)b)[i] = (unsigned char)(g_rand >> 24);
  }
  return (ssize_t)n;
}
int getentropy(void* b, size_t n)
{
  getrandom(b, n, 0);
  return 0;
}
pid_t getpid(void)
{
  // Process numbers come from the simulator: later processes may have the number of an earlier one.
  return g_actor >= 0 ? g_pid : (pid_t)syscall(SYS_getpid);
}
