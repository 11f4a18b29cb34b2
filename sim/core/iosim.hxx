// Process-and-file simulator. Actors are forked processes running the real code on a scratch
// directory; every libc file operation below that directory is a yield point at which the parent
// (the seeded scheduler) decides who runs next and whether the operation succeeds, is partial,
// fails with an errno, or the process dies there. Exactly one actor runs at any time.
#pragma once
#include "simcore.hxx"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace iosim
{
enum Op
{
  OP_START,
  OP_OPENR,
  OP_OPENW,
  OP_READ,
  OP_WRITE,
  OP_CLOSE,
  OP_MKDIR,
  OP_RENAME,
  OP_STAT,
  OP_UNLINK,
  OP_FSYNC,
  OP_NOTE,
  OP_DONE,
  OP_N
};
inline const char* op_name(int o)
{
  static const char* n[] = {"start", "openr",  "openw", "read",   "write", "close", "mkdir",
                            "rename", "stat", "unlink", "fsync", "note",  "done"};
  return n[o];
}
enum Act
{
  A_GO,
  A_FAIL,   // operation fails with errno = arg
  A_SHORT,  // transfer at most arg bytes
  A_TORN,   // transfer at most arg bytes, then fail with EIO at the next attempt
  A_KILL,   // process dies before the operation
  A_KILLT,  // process dies after transferring at most arg bytes
  A_LOSE    // close only: fails with EIO and the last arg bytes of the file are lost
};
struct Msg
{
  int op;
  int wr;  // file was opened for writing
  long size;
  int len;  // payload length following
};
struct Rep
{
  int act;
  long arg;
};

inline int g_pid = 0;   // process id shown to the code in an actor
inline int g_chan = -1;  // >= 0 only inside an actor
inline std::string g_root;
inline bool g_in_hook = false;
struct FdInfo
{
  bool tracked = false;
  bool wr = false;
  bool torn = false;
  std::string path;
};
inline FdInfo g_fd[1024];

template <typename F>
inline F real(const char* name)
{
  return (F)dlsym(RTLD_NEXT, name);
}
inline ssize_t raw_write(int fd, const void* b, size_t n)
{
  static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
  return f(fd, b, n);
}
inline ssize_t raw_read(int fd, void* b, size_t n)
{
  static auto f = real<ssize_t (*)(int, void*, size_t)>("read");
  return f(fd, b, n);
}
inline void full_write(int fd, const void* b, size_t n)
{
  const char* p = (const char*)b;
  while (n > 0)
  {
    ssize_t k = raw_write(fd, p, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      _exit(98);
    p += k;
    n -= k;
  }
}
inline bool full_read(int fd, void* b, size_t n)
{
  char* p = (char*)b;
  while (n > 0)
  {
    ssize_t k = raw_read(fd, p, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      return false;
    p += k;
    n -= k;
  }
  return true;
}
inline Rep ask(int op, bool wr, long size, const std::string& payload)
{
  Msg m{op, wr ? 1 : 0, size, (int)payload.size()};
  full_write(g_chan, &m, sizeof m);
  if (!payload.empty())
    full_write(g_chan, payload.data(), payload.size());
  Rep r{0, 0};
  if (!full_read(g_chan, &r, sizeof r))
    _exit(97);
  if (r.act == A_KILL)
    _exit(99);
  return r;
}
inline std::string abspath(const char* p)
{
  if (p[0] == '/')
    return p;
  char b[4096];
  if (!getcwd(b, sizeof b))
    return p;
  return std::string(b) + "/" + p;
}
inline bool under_root(const char* p)
{
  if (g_chan < 0 || p == nullptr)
    return false;
  return abspath(p).rfind(g_root + "/", 0) == 0;
}
inline std::string rel(const char* p)
{
  return std::filesystem::path(abspath(p)).lexically_normal().string().substr(g_root.size() + 1);
}
/// Called by actor code: an observable event; the parent may look at the world before replying.
inline void note(const std::string& text)
{
  if (g_chan >= 0)
    ask(OP_NOTE, false, 0, text);
}
inline void track(int fd, bool wr, const std::string& path)
{
  if (fd >= 0 && fd < 1024)
    g_fd[fd] = FdInfo{true, wr, false, path};
}
inline void lose_tail(const std::string& path, long n)
{
  struct stat st;
  static auto f = real<int (*)(const char*, struct stat*)>("stat");
  if (f(path.c_str(), &st) == 0)
    if (truncate(path.c_str(), st.st_size > n ? st.st_size - n : 0) != 0)
      _exit(96);
}
}  // namespace iosim

extern "C"
{
pid_t getpid(void) noexcept
{
  static auto f = iosim::real<pid_t (*)(void)>("getpid");
  return iosim::g_chan >= 0 ? iosim::g_pid : f();
}
FILE* fopen64(const char* p, const char* mode)
{
  allocsim::Pause pause;
  static auto f = iosim::real<FILE* (*)(const char*, const char*)>("fopen64");
  if (!iosim::under_root(p))
    return f(p, mode);
  bool wr = strpbrk(mode, "wa+") != nullptr;
  iosim::Rep r = iosim::ask(wr ? iosim::OP_OPENW : iosim::OP_OPENR, wr, 0, iosim::rel(p));
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return nullptr;
  }
  FILE* h = f(p, mode);
  if (h)
    iosim::track(fileno(h), wr, iosim::abspath(p));
  return h;
}
FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }
static int open_common(const char* p, int flags, mode_t m)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*, int, ...)>("open64");
  if (!iosim::under_root(p))
    return f(p, flags, m);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  iosim::Rep r = iosim::ask(wr ? iosim::OP_OPENW : iosim::OP_OPENR, wr, 0, iosim::rel(p));
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  int fd = f(p, flags, m);
  iosim::track(fd, wr, iosim::abspath(p));
  return fd;
}
int open(const char* p, int flags, ...)
{
  va_list a;
  va_start(a, flags);
  mode_t m = (flags & O_CREAT) ? (mode_t)va_arg(a, int) : 0;
  va_end(a);
  return open_common(p, flags, m);
}
int open64(const char* p, int flags, ...)
{
  va_list a;
  va_start(a, flags);
  mode_t m = (flags & O_CREAT) ? (mode_t)va_arg(a, int) : 0;
  va_end(a);
  return open_common(p, flags, m);
}
ssize_t read(int fd, void* b, size_t n)
{
  allocsim::Pause pause;
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return iosim::raw_read(fd, b, n);
  iosim::Rep r = iosim::ask(iosim::OP_READ, iosim::g_fd[fd].wr, (long)n, "");
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  if (r.act == iosim::A_SHORT && (size_t)r.arg < n)
    n = r.arg < 1 ? 1 : (size_t)r.arg;
  return iosim::raw_read(fd, b, n);
}
static ssize_t sim_write(int fd, const void* b, size_t n)
{
  allocsim::Pause pause;
  auto& fi = iosim::g_fd[fd];
  iosim::Rep r = iosim::ask(iosim::OP_WRITE, true, (long)n, "");
  if (fi.torn)
  {
    fi.torn = false;
    errno = EIO;
    return -1;
  }
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  if ((r.act == iosim::A_SHORT || r.act == iosim::A_TORN) && (size_t)r.arg < n)
    n = r.arg < 1 ? 1 : (size_t)r.arg;
  if (r.act == iosim::A_TORN)
    fi.torn = true;
  if (r.act == iosim::A_KILLT)
  {
    size_t k = (size_t)r.arg < n ? (size_t)r.arg : n;
    if (k > 0 && iosim::raw_write(fd, b, k) < 0)
      _exit(96);
    _exit(99);
  }
  return iosim::raw_write(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return iosim::raw_write(fd, b, n);
  return sim_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
  allocsim::Pause pause;
  static auto f = iosim::real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return f(fd, v, cnt);
  std::string all;
  for (int i = 0; i < cnt; ++i)
    all.append((const char*)v[i].iov_base, v[i].iov_len);
  return sim_write(fd, all.data(), all.size());
}
int fclose(FILE* h)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(FILE*)>("fclose");
  int fd = h ? fileno(h) : -1;
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return f(h);
  iosim::FdInfo fi = iosim::g_fd[fd];
  iosim::Rep r = iosim::ask(iosim::OP_CLOSE, fi.wr, 0, "");
  iosim::g_fd[fd].tracked = false;
  int rc = f(h);
  if (r.act == iosim::A_LOSE && fi.wr)
  {
    iosim::lose_tail(fi.path, r.arg);
    errno = EIO;
    return EOF;
  }
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return EOF;
  }
  return rc;
}
int close(int fd)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(int)>("close");
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return f(fd);
  iosim::FdInfo fi = iosim::g_fd[fd];
  iosim::Rep r = iosim::ask(iosim::OP_CLOSE, fi.wr, 0, "");
  iosim::g_fd[fd].tracked = false;
  int rc = f(fd);
  if (r.act == iosim::A_LOSE && fi.wr)
  {
    iosim::lose_tail(fi.path, r.arg);
    errno = EIO;
    return -1;
  }
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return rc;
}
int mkdir(const char* p, mode_t m)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*, mode_t)>("mkdir");
  if (!iosim::under_root(p))
    return f(p, m);
  iosim::Rep r = iosim::ask(iosim::OP_MKDIR, true, 0, iosim::rel(p));
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(p, m);
}
int rename(const char* a, const char* b)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*, const char*)>("rename");
  if (!iosim::under_root(a) && !iosim::under_root(b))
    return f(a, b);
  iosim::Rep r = iosim::ask(iosim::OP_RENAME, true, 0, "");
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(a, b);
}
int unlink(const char* p)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*)>("unlink");
  if (!iosim::under_root(p))
    return f(p);
  iosim::Rep r = iosim::ask(iosim::OP_UNLINK, true, 0, "");
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(p);
}
int remove(const char* p)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*)>("remove");
  if (!iosim::under_root(p))
    return f(p);
  iosim::Rep r = iosim::ask(iosim::OP_UNLINK, true, 0, "");
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(p);
}
int fsync(int fd)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(int)>("fsync");
  if (iosim::g_chan < 0 || fd < 0 || fd >= 1024 || !iosim::g_fd[fd].tracked)
    return f(fd);
  iosim::Rep r = iosim::ask(iosim::OP_FSYNC, true, 0, "");
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(fd);
}
int stat(const char* p, struct stat* st)
{
  allocsim::Pause pause;
  static auto f = iosim::real<int (*)(const char*, struct stat*)>("stat");
  if (!iosim::under_root(p))
    return f(p, st);
  iosim::Rep r = iosim::ask(iosim::OP_STAT, false, 0, iosim::rel(p));
  if (r.act == iosim::A_FAIL)
  {
    errno = (int)r.arg;
    return -1;
  }
  return f(p, st);
}
}  // extern "C"

namespace iosim
{
enum End
{
  E_RUNNING,
  E_RETURNED,   // the actor's function returned; result holds its value
  E_EXCEPTION,  // it ended with a C++ exception
  E_ASSERT,     // it aborted with the library's diagnostic
  E_KILLED,     // killed by the simulator
  E_CRASH,      // died on a signal without diagnostic
  E_HANG        // exceeded its CPU budget
};
inline const char* end_name(End e)
{
  static const char* n[] = {"running", "returned", "exception", "assert", "killed", "crash", "hang"};
  return n[e];
}
struct Actor
{
  std::function<std::string()> fn;
  pid_t pid = -1;
  int chan = -1;
  End end = E_RUNNING;
  std::string result, err;
  int status = 0;
  bool parked = false;
  Msg msg{};
  std::string payload;
  long count[OP_N] = {0};
  long notes = 0;
  bool killed = false;
  bool refused() const { return end == E_EXCEPTION || end == E_ASSERT; }
};
struct Fault
{
  int actor;
  int op;
  long nth;
  bool persist;
  int act;
  long arg;
  std::string label;
};
struct World
{
  std::string scratch, root;
  std::vector<Actor> actors;
  std::vector<Fault> faults;
  std::vector<int> sched;
  size_t sched_pos = 0;
  sim::Outcome* out = nullptr;
  bool hard_fault = false;   // a fault fired that the code is allowed to answer by refusing
  std::function<void(int, const std::string&)> on_note;
  std::function<void(int)> on_end;
  std::function<void(int, int)> before_op;
  long mem_limit = 3000l << 20;
  long max_steps = 600000;
  std::string order;  // interleaving actually taken

  explicit World(const std::string& scr, sim::Outcome* o) : scratch(scr), root(scr + "/fs"), out(o)
  {
    namespace fs = std::filesystem;
    fs::create_directories(root);
    fs::create_directories(scratch + "/meta");
    for (const auto& e : fs::directory_iterator(root))
    {
      fs::permissions(e.path(), fs::perms::owner_all, fs::perm_options::add);
      fs::remove_all(e.path());
    }
  }
  /// fault <actor> <op> <nth> <action> <arg>; action with trailing '+' persists.
  void load_plan(const sim::Plan& p)
  {
    for (auto& w : p.all("fault"))
    {
      if (w.size() < 6)
        continue;
      Fault f;
      f.actor = atoi(w[1].c_str());
      f.op = -1;
      for (int i = 0; i < OP_N; ++i)
        if (w[2] == op_name(i))
          f.op = i;
      f.nth = atol(w[3].c_str());
      std::string a = w[4];
      f.persist = a.back() == '+';
      if (f.persist)
        a.pop_back();
      f.act = a == "fail"    ? A_FAIL
              : a == "short" ? A_SHORT
              : a == "torn"  ? A_TORN
              : a == "kill"  ? A_KILL
              : a == "killt" ? A_KILLT
              : a == "lose"  ? A_LOSE
                             : A_GO;
      f.arg = atol(w[5].c_str());
      f.label = std::string(op_name(f.op < 0 ? 0 : f.op)) + "/" + a +
                (f.act == A_FAIL ? std::string("/") + strerrorname_np((int)f.arg) : "");
      faults.push_back(f);
    }
    for (auto& w : p.all("sched"))
      for (size_t i = 1; i < w.size(); ++i)
        sched.push_back(atoi(w[i].c_str()));
  }
  int add(std::function<std::string()> fn)
  {
    actors.emplace_back();
    actors.back().fn = fn;
    return (int)actors.size() - 1;
  }
  void start(int i)
  {
    Actor& a = actors[i];
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0)
    {
      perror("socketpair");
      exit(2);
    }
    fflush(stdout);
    fflush(stderr);
    a.pid = fork();
    if (a.pid < 0)
    {
      perror("fork");
      exit(2);
    }
    if (a.pid == 0)
    {
      for (auto& o : actors)
        if (o.chan >= 0)
          ::close(o.chan);
      ::close(sv[0]);
      g_root = root;
      for (auto& f : g_fd)
        f = FdInfo();
      std::string base = scratch + "/meta/";
      int e = ::open((base + "err." + std::to_string(i)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int o = ::open((base + "out." + std::to_string(i)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(e, 2);
      dup2(o, 1);
      ::close(e);
      ::close(o);
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = 10;
      rl.rlim_max = 12;
      setrlimit(RLIMIT_CPU, &rl);
      if (mem_limit > 0)
      {
        rl.rlim_cur = rl.rlim_max = mem_limit;
        setrlimit(RLIMIT_AS, &rl);
      }
      if (chdir(root.c_str()) != 0)
        _exit(95);
      g_pid = 4000 + i;
      g_chan = sv[1];
      std::string res;
      char tag = 'R';
      ask(OP_START, false, 0, "");
      try
      {
        res = a.fn();
      }
      catch (const std::exception& ex)
      {
        tag = 'X';
        res = ex.what();
      }
      catch (...)
      {
        tag = 'X';
        res = "unknown exception";
      }
      std::cout.flush();
      ask(OP_DONE, false, 0, tag + res);
      _exit(0);
    }
    ::close(sv[1]);
    a.chan = sv[0];
    wait_park(a);
  }
  void finish(Actor& a)
  {
    if (a.chan >= 0)
      ::close(a.chan);
    a.chan = -1;
    a.parked = false;
    int st = 0;
    waitpid(a.pid, &st, 0);
    a.status = st;
    std::ifstream in(scratch + "/meta/err." + std::to_string(&a - actors.data()));
    std::stringstream ss;
    ss << in.rdbuf();
    a.err = ss.str();
    if (a.end == E_RUNNING)
    {
      if (a.killed)
        a.end = E_KILLED;
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)
        a.end = E_HANG;
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT &&
               a.err.find("Assert failed:") != std::string::npos)
        a.end = E_ASSERT;
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT &&
               a.err.find("terminate called") != std::string::npos)
        a.end = E_EXCEPTION;
      else if (WIFEXITED(st) && WEXITSTATUS(st) >= 95 && WEXITSTATUS(st) <= 98)
      {
        std::cerr << "simulator: internal actor failure " << WEXITSTATUS(st) << std::endl;
        exit(2);
      }
      else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && !a.err.empty())
        a.end = E_EXCEPTION;  // exit with an error status and a message
      else
        a.end = E_CRASH;
    }
    out->trace.add(std::string("end ") + end_name(a.end));
    if (on_end)
      on_end((int)(&a - actors.data()));
  }
  void wait_park(Actor& a)
  {
    if (!full_read(a.chan, &a.msg, sizeof a.msg))
    {
      finish(a);
      return;
    }
    a.payload.assign(a.msg.len, '\0');
    if (a.msg.len > 0 && !full_read(a.chan, a.payload.data(), a.msg.len))
    {
      finish(a);
      return;
    }
    a.parked = true;
  }
  void step(int i)
  {
    Actor& a = actors[i];
    ++out->steps;
    Rep r{A_GO, 0};
    int op = a.msg.op;
    long nth = a.count[op]++;
    if (op == OP_DONE)
    {
      a.result = a.payload.substr(1);
      a.end = a.payload[0] == 'R' ? E_RETURNED : E_EXCEPTION;
      if (a.end == E_RETURNED)
        out->trace.add("done " + a.result);  // error texts may hold process ids
      full_write(a.chan, &r, sizeof r);
      finish(a);
      return;
    }
    if (before_op)
      before_op(i, op);
    for (auto& f : faults)
      if (f.actor == i && f.op == op && (f.nth == nth || (f.persist && nth >= f.nth)))
      {
        if ((f.act == A_LOSE) && !a.msg.wr)
          continue;
        r.act = f.act;
        r.arg = f.arg;
        ++out->faults[f.label];
        if (f.act == A_KILL || f.act == A_KILLT)
          a.killed = true;
        else if (!(f.act == A_SHORT || (f.act == A_FAIL && f.arg == EINTR)))
          hard_fault = true;
        break;
      }
    out->trace.add((uint64_t)i * 1000 + op * 10 + r.act);
    out->trace.add((uint64_t)(op == OP_NOTE ? 0 : a.msg.size) * 31 + r.arg);
    order += (char)('a' + i);
    if (op == OP_NOTE)
    {
      out->trace.add(a.payload);
      if (on_note)
        on_note(i, a.payload);
      ++a.notes;
    }
    a.parked = false;
    full_write(a.chan, &r, sizeof r);
    wait_park(a);
  }
  /// Run all started actors to their end under the planned schedule.
  void run()
  {
    while (true)
    {
      std::vector<int> ready;
      for (size_t i = 0; i < actors.size(); ++i)
        if (actors[i].chan >= 0 && actors[i].parked)
          ready.push_back((int)i);
      if (ready.empty())
        return;
      int c = sched_pos < sched.size() ? sched[sched_pos++] : 0;
      step(ready[(size_t)c % ready.size()]);
      if (out->steps > (uint64_t)max_steps)
      {
        out->violate("no-progress", "the actors did not finish within the step bound");
        for (auto& a : actors)
          if (a.chan >= 0)
          {
            kill(a.pid, SIGKILL);
            a.killed = true;
            finish(a);
          }
        return;
      }
    }
  }
  std::string stdout_of(int i) const
  {
    std::ifstream in(scratch + "/meta/out." + std::to_string(i));
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
  }
};
inline std::string slurp(const std::string& f)
{
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
inline void spit(const std::string& f, const std::string& s)
{
  std::ofstream o(f, std::ios::binary);
  o << s;
}
/// Random benign and hard faults for one actor's reads.
inline void gen_read_faults(sim::Rng& r, sim::Plan& p, int actor, bool hard)
{
  int n = r.range(0, 4);
  for (int i = 0; i < n; ++i)
  {
    std::string base = "fault " + std::to_string(actor) + " read " + std::to_string(r.below(6)) + " ";
    if (r.chance(1, 3))
      p.add(base + "fail " + std::to_string(EINTR));
    else
      p.add(base + (r.chance(1, 3) ? "short+ " : "short ") + std::to_string(1 + r.below(r.chance(1, 2) ? 7 : 200)));
  }
  if (hard)
    switch (r.below(4))
    {
      case 0:
        p.add("fault " + std::to_string(actor) + " openr " + std::to_string(r.below(2)) + " fail " +
              std::to_string(r.chance(1, 2) ? EMFILE : EACCES));
        break;
      case 1:
        p.add("fault " + std::to_string(actor) + " stat 0 fail " + std::to_string(EACCES));
        break;
      default:
        p.add("fault " + std::to_string(actor) + " read " + std::to_string(r.below(12)) +
              (r.chance(1, 2) ? " fail+ " : " fail ") + std::to_string(EIO));
        // Small reads make the error land anywhere in the file.
        p.add("fault " + std::to_string(actor) + " read 0 short+ " + std::to_string(1 + r.below(150)));
    }
}
}  // namespace iosim
