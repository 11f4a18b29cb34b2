// Simulated tool chain: cython, compiler and linker (chosen by the name of the program). Outputs carry
// the provenance of everything that went into them. All file operations go through presim.c.
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
using std::string;
static int64_t note(const string& s)
{
  auto f = (int64_t(*)(const char*))dlsym(RTLD_DEFAULT, "sim_note");
  return f ? f(s.c_str()) : 0;
}
[[noreturn]] static void die(const string& m, int rc = 1)
{
  string t = "simtool: " + m + "\n";
  if (write(2, t.data(), t.size()) < 0) {}
  _exit(rc);
}
static bool slurp(const string& p, string& out)
{
  int fd;
  do
    fd = open(p.c_str(), O_RDONLY);
  while (fd < 0 && errno == EINTR);
  if (fd < 0)
  {
    if (errno != ENOENT && errno != ENOTDIR)
      die("cannot open " + p);
    return false;
  }
  out.clear();
  char b[65536];
  while (true)
  {
    ssize_t k = read(fd, b, sizeof b);
    if (k < 0 && errno == EINTR)
      continue;
    if (k < 0)
      die("cannot read " + p);
    if (k == 0)
      break;
    out.append(b, k);
  }
  close(fd);
  return true;
}
/// mode: 0 normal, 2 fail after a partial output, 3 die during the output, 4 fail after the whole output,
/// 5 fail after a partial output that is removed.
static void spit(const string& p, const string& s, int mode, bool fresh)
{
  if (fresh)
    unlink(p.c_str());
  int fd;
  do
    fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0777);
  while (fd < 0 && errno == EINTR);
  if (fd < 0)
    die("cannot create " + p);
  size_t n = s.size(), stop = (mode == 2 || mode == 3 || mode == 5) ? n / 2 : n, pos = 0;
  while (pos < stop)
  {
    size_t k = std::min(stop - pos, n / 3 + 1);
    ssize_t w = write(fd, s.data() + pos, k);
    if (w < 0 && errno == EINTR)
      continue;
    if (w <= 0)
    {
      close(fd);
      if (fresh)
        unlink(p.c_str());
      die("cannot write " + p);
    }
    pos += w;
  }
  if (mode == 3)
  {
    raise(SIGKILL);
    _exit(137);
  }
  if (close(fd) != 0)
  {
    if (fresh)
      unlink(p.c_str());
    die("cannot close " + p);
  }
  if (mode == 5)
    unlink(p.c_str());
  if (mode == 2 || mode == 4 || mode == 5)
    die("simulated failure", 1);
}
static string sec(const string& k, const string& v) { return "S " + k + " " + std::to_string(v.size()) + "\n" + v + "\n"; }
static string get(const string& f, const string& k)
{
  size_t pos = f.find('\n') + 1;
  while (pos < f.size() && f.compare(pos, 2, "S ") == 0)
  {
    size_t e = f.find('\n', pos);
    if (e == string::npos)
      break;
    string h = f.substr(pos + 2, e - pos - 2);
    size_t sp = h.find(' ');
    size_t len = strtoul(h.c_str() + sp + 1, nullptr, 10);
    if (h.substr(0, sp) == k)
      return f.substr(e + 1, len);
    pos = e + 1 + len + 1;
  }
  return "";
}
static bool complete(const string& f, const char* magic)
{
  return f.rfind(magic, 0) == 0 && f.size() >= 4 && f.compare(f.size() - 4, 4, "END\n") == 0;
}
static string body(const string& f)
{
  size_t a = f.find('\n') + 1;
  return f.substr(a, f.size() - 4 - a);
}
static uint32_t crc(const string& s)
{
  uint32_t c = ~0u;
  for (unsigned char ch : s)
  {
    c ^= ch;
    for (int k = 0; k < 8; ++k)
      c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
  }
  return ~c;
}
static uint32_t adler(const string& s)
{
  uint32_t a = 1, b = 0;
  for (unsigned char ch : s)
  {
    a = (a + ch) % 65521;
    b = (b + a) % 65521;
  }
  return b << 16 | a;
}
static string join(const std::vector<string>& v)
{
  string r;
  for (auto& x : v)
    r += x + "\n";
  return r;
}
/// Names given by #include directives in text.
static std::vector<string> includes(const string& t)
{
  std::vector<string> r;
  size_t p = 0;
  while (p < t.size())
  {
    size_t e = t.find('\n', p);
    if (e == string::npos)
      e = t.size();
    size_t i = p;
    auto blank = [&] { while (i < e && (t[i] == ' ' || t[i] == '\t')) ++i; };
    blank();
    if (i < e && t[i] == '#')
    {
      ++i;
      blank();
      if (t.compare(i, 7, "include") == 0)
      {
        i += 7;
        blank();
        char c = i < e && t[i] == '<' ? '>' : i < e && t[i] == '"' ? '"' : 0;
        size_t q = c ? t.find(c, i + 1) : string::npos;
        if (c && q != string::npos && q < e)
          r.push_back((c == '"' ? "\"" : "<") + t.substr(i + 1, q - i - 1));
      }
    }
    p = e + 1;
  }
  return r;
}
int main(int argc, char** argv)
{
  string name = argv[0];
  name = name.substr(name.rfind('/') + 1);
  std::vector<string> args(argv + 1, argv + argc);
  int mode = (int)note("tool " + name);
  if (mode == 1)
    die("simulated failure");
  if (mode == 6)
  {
    raise(SIGKILL);
    _exit(137);
  }
  if (name == "sim-cython")
  {
    string in;
    std::vector<string> flags;
    string out;
    for (size_t i = 0; i < args.size(); ++i)
      if (args[i] == "-o" && i + 1 < args.size())
        out = args[++i];
      else if (args[i].size() > 4 && args[i].compare(args[i].size() - 4, 4, ".pyx") == 0)
        in = args[i];
      else
        flags.push_back(args[i]);
    string pyx, pxd, base = in.empty() ? "" : in.substr(0, in.size() - 4);
    if (in.empty() || !slurp(in, pyx))
      die("no input " + in);
    slurp(base + ".pxd", pxd);
    if (pyx.empty())
      pyx = "\n";
    if (out.empty())
      out = base + ".cpp";
    spit(out, "SIMCPP\n" + sec("module", base.substr(base.rfind('/') == string::npos ? 0 : base.rfind('/') + 1)) + sec("pyx", pyx) +
                sec("pxd", pxd) + sec("cyflags", join(flags)) + "END\n", mode, false);
    return 0;
  }
  if (name == "sim-cxx")
  {
    string in, out;
    std::vector<string> flags, dirs;
    for (size_t i = 0; i < args.size(); ++i)
      if (args[i] == "-o" && i + 1 < args.size())
        out = args[++i];
      else if (args[i] == "-I" && i + 1 < args.size())
        dirs.push_back(args[++i]);
      else if (args[i].rfind("-I", 0) == 0)
        dirs.push_back(args[i].substr(2));
      else if (args[i][0] != '-' && args[i].size() > 4 && args[i].compare(args[i].size() - 4, 4, ".cpp") == 0)
        in = args[i];
      else
        flags.push_back(args[i]);
    string src;
    if (in.empty() || !slurp(in, src))
      die("no input " + in);
    if (!complete(src, "SIMCPP\n"))
      die("syntax error in " + in);
    if (out.empty())
      die("no output");
    string pxd = get(src, "pxd"), pyx = get(src, "pyx");
    std::vector<string> todo;
    for (const string* t : {&pxd, &pyx})
    {
      const string key = "cdef extern from \"";
      for (size_t p = t->find(key); p != string::npos; p = t->find(key, p + 1))
      {
        size_t a = p + key.size(), e = t->find('"', a);
        if (e == string::npos)
          break;
        string n = t->substr(a, e - a);
        if (!n.empty() && n[0] == '<')
          n = n.substr(0, n.size() - 1);
        else
          n = "\"" + n;
        todo.push_back(n);
      }
    }
    std::set<string> seen;
    string inc;
    std::vector<std::pair<string, string>> queue;  // (directory of includer, name)
    for (auto& x : todo)
      queue.push_back({".", x});
    for (size_t i = 0; i < queue.size(); ++i)
    {
      string nm = queue[i].second.substr(1), text, path;
      bool ok = false;
      if (nm[0] == '/')
        ok = !(path = nm).empty() && (seen.count(path) || slurp(path, text));
      else
      {
        std::vector<string> where;
        if (queue[i].second[0] == '"')
          where.push_back(queue[i].first);
        where.insert(where.end(), dirs.begin(), dirs.end());
        for (auto& d : where)
        {
          path = d + "/" + nm;
          if (seen.count(path) || slurp(path, text))
          {
            ok = true;
            break;
          }
        }
      }
      if (!ok)
      {
        if (nm.find(".hxx") != string::npos && nm.rfind("tpp/", 0) != 0 && nm.rfind("tpcc/", 0) != 0)
          die("no such header " + nm);
        continue;  // a header of the system or of a submodule that is not there
      }
      if (!seen.insert(path).second)
        continue;
      char b[64];
      snprintf(b, sizeof b, " %08x%08x%zu\n", crc(text), adler(text), text.size());
      inc += path + b;
      for (auto& x : includes(text))
        queue.push_back({path.substr(0, path.rfind('/')), x});
    }
    spit(out, "SIMO\n" + body(src) + sec("cxxflags", join(flags)) + sec("included", inc) + "END\n", mode, false);
    return 0;
  }
  if (name == "sim-ld")
  {
    string out;
    std::vector<string> flags, objs;
    for (size_t i = 0; i < args.size(); ++i)
      if (args[i] == "-o" && i + 1 < args.size())
        out = args[++i];
      else if (args[i][0] != '-' && args[i].size() > 2 && args[i].compare(args[i].size() - 2, 2, ".o") == 0)
        objs.push_back(args[i]);
      else
        flags.push_back(args[i]);
    string obj;
    if (objs.size() != 1 || !slurp(objs[0], obj))
      die("no object");
    if (!complete(obj, "SIMO\n"))
      die("file not recognized: " + objs[0]);
    spit(out, "SIMSO\n" + body(obj) + sec("ldflags", join(flags)) + "END\n", mode, true);
    return 0;
  }
  die("unknown tool " + name);
}
