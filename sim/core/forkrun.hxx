// Runs the body of one simulated case in a forked child with a CPU limit and brings its outcome back.
// A crash, failed assertion or hang of the code under test becomes a clause, not the end of the search.
#pragma once
#include "core/simcore.hxx"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace sim
{
inline std::string pack(const Outcome& o)
{
  std::ostringstream s;
  s << "c " << esc(o.clause) << "\nd " << esc(o.detail) << "\nt " << o.trace.h << "\ns " << o.steps << "\nn " << o.nontrivial << "\n";
  for (auto& f : o.faults)
    s << "f " << f.second << " " << f.first << "\n";
  for (auto& f : o.counters)
    s << "k " << f.second << " " << f.first << "\n";
  for (auto h : o.states)
    s << "h " << h << "\n";
  s << "end\n";
  return s.str();
}
inline bool unpack(const std::string& t, Outcome& o)
{
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l))
  {
    if (l == "end")
      return true;
    if (l.size() < 2)
      continue;
    std::string v = l.substr(2);
    switch (l[0])
    {
      case 'c': o.clause = unesc(v); break;
      case 'd': o.detail = unesc(v); break;
      case 't': o.trace.h = strtoull(v.c_str(), 0, 10); break;
      case 's': o.steps = strtoull(v.c_str(), 0, 10); break;
      case 'n': o.nontrivial = v == "1"; break;
      case 'h': o.states.push_back(strtoull(v.c_str(), 0, 10)); break;
      case 'f':
      case 'k':
      {
        size_t i = v.find(' ');
        (l[0] == 'f' ? o.faults : o.counters)[v.substr(i + 1)] = strtoull(v.c_str(), 0, 10);
      }
    }
  }
  return false;
}
/// body must be a pure function of the plan; cpu_s is its budget.
inline Outcome isolated(const std::string& scratch, unsigned cpu_s, const std::function<void(Outcome&)>& body)
{
  int fd[2];
  if (pipe(fd) != 0)
  {
    perror("pipe");
    exit(2);
  }
  std::string errf = scratch + "/err.txt";
  std::cout.flush();
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0)
  {
    perror("fork");
    exit(2);
  }
  if (pid == 0)
  {
    close(fd[0]);
    struct rlimit rl = {cpu_s, cpu_s + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    dup2(e, 1);
    Outcome o;
    body(o);
    std::string p = pack(o);
    size_t i = 0;
    while (i < p.size())
    {
      ssize_t k = write(fd[1], p.data() + i, p.size() - i);
      if (k <= 0)
        _exit(98);
      i += (size_t)k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string t;
  char b[65536];
  ssize_t k;
  bool stuck = false;
  for (;;)
  {
    struct pollfd pf = {fd[0], POLLIN, 0};
    int pr = poll(&pf, 1, (int)(cpu_s * 1000 * 6));  // a child that waits for ever burns no CPU
    if (pr == 0)
    {
      stuck = true;
      kill(pid, SIGKILL);
      break;
    }
    k = read(fd[0], b, sizeof b);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      break;
    t.append(b, (size_t)k);
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (!stuck && unpack(t, o))
    return o;
  std::ifstream in(errf);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string err = ss.str();
  Outcome c;
  if (stuck || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)))
    c.violate("hang", "the case did not end within its budget");
  else
    c.violate("crash", "the code under test died (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "): " + err.substr(0, 700));
  c.nontrivial = true;
  c.trace.add(c.clause);
  return c;
}
}  // namespace sim
