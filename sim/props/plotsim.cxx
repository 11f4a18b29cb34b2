// C04 (plot files under faults) and C05 (plot options and numbering over histories).
#include "core/alloc.hxx"
#include "core/mock.hxx"
#include "core/iosim.hxx"
#include <cstdarg>
using namespace sim;
using namespace mock;

// ------------------------------------------------------------------------------ VTU reading
struct Vtu
{
  std::string error;
  long n_points = -1, n_cells = -1, comps = 0;
  std::vector<double> points, values;
  std::vector<long> conn, offs, types;
};
static std::string attr(const std::string& tag, const std::string& name)
{
  size_t i = 0;
  while ((i = tag.find(name, i)) != std::string::npos)
  {
    size_t j = i + name.size();
    bool left = i > 0 && isspace((unsigned char)tag[i - 1]);
    while (j < tag.size() && isspace((unsigned char)tag[j]))
      ++j;
    if (left && j < tag.size() && tag[j] == '=')
    {
      size_t a = tag.find('"', j);
      size_t b = a == std::string::npos ? a : tag.find('"', a + 1);
      if (b != std::string::npos)
      {
        std::string v = tag.substr(a + 1, b - a - 1);
        while (!v.empty() && isspace((unsigned char)v[0]))
          v.erase(0, 1);
        return v;
      }
    }
    i = j;
  }
  return "";
}
static Vtu read_vtu(const std::string& t)
{
  Vtu v;
  std::vector<std::string> stack;
  std::string text, array_name, array_parent;
  std::set<std::string> seen;
  size_t i = 0;
  auto fail = [&](const std::string& e)
  {
    if (v.error.empty())
      v.error = e;
    return v;
  };
  bool root_closed = false;
  while (i < t.size())
  {
    if (t[i] != '<')
    {
      if (!stack.empty())
        text += t[i];
      else if (!isspace((unsigned char)t[i]))
        return fail("text outside the document");
      ++i;
      continue;
    }
    size_t j = t.find('>', i);
    if (j == std::string::npos)
      return fail("unclosed tag");
    std::string tag = t.substr(i + 1, j - i - 1);
    i = j + 1;
    if (!tag.empty() && (tag[0] == '?' || tag[0] == '!'))
      continue;
    if (!tag.empty() && tag[0] == '/')
    {
      std::string name = tag.substr(1);
      if (stack.empty() || words(stack.back())[0] != name)
        return fail("closing tag " + name + " without opening");
      if (name == "DataArray")
      {
        auto w = words(text);
        std::string key = array_parent + ":" + array_name;
        if (!seen.insert(key).second)
          return fail("array " + key + " twice");
        for (auto& s : w)
        {
          char* e;
          double x = strtod(s.c_str(), &e);
          if (*e || !std::isfinite(x))
            return fail("not a number in array " + key + ": " + s);
          if (array_parent == "Points")
            v.points.push_back(x);
          else if (array_parent == "PointData")
            v.values.push_back(x);
          else if (array_name == "connectivity")
            v.conn.push_back((long)x);
          else if (array_name == "offsets")
            v.offs.push_back((long)x);
          else if (array_name == "types")
            v.types.push_back((long)x);
        }
      }
      stack.pop_back();
      text.clear();
      if (stack.empty())
        root_closed = true;
      continue;
    }
    bool empty = !tag.empty() && tag.back() == '/';
    auto w = words(tag);
    if (w.empty())
      return fail("empty tag");
    if (root_closed)
      return fail("second root");
    if (w[0] == "Piece")
    {
      v.n_points = atol(attr(tag, "NumberOfPoints").c_str());
      v.n_cells = atol(attr(tag, "NumberOfCells").c_str());
    }
    if (w[0] == "DataArray")
    {
      array_parent = stack.empty() ? "" : words(stack.back())[0];
      array_name = attr(tag, "Name");
      std::string nc = attr(tag, "NumberOfComponents");
      if (array_parent == "PointData")
        v.comps = nc.empty() ? 1 : atol(nc.c_str());
      if (array_parent == "Points" && nc != "3")
        return fail("points need three components");
    }
    text.clear();
    if (!empty)
      stack.push_back(tag);
  }
  if (!stack.empty())
    return fail("tag " + words(stack.back())[0] + " is never closed");
  if (!root_closed || v.n_points < 0)
    return fail("no document");
  if ((long)v.points.size() != 3 * v.n_points)
    return fail("number of coordinates is " + std::to_string(v.points.size()) + " for " + std::to_string(v.n_points) + " points");
  if ((long)v.offs.size() != v.n_cells || (long)v.types.size() != v.n_cells)
    return fail("offsets or types do not match the number of cells");
  long last = 0;
  for (long o : v.offs)
  {
    if (o < last)
      return fail("offsets decrease");
    last = o;
  }
  if (last != (long)v.conn.size())
    return fail("connectivity does not match the offsets");
  for (long c : v.conn)
    if (c < 0 || c >= v.n_points)
      return fail("connectivity out of range");
  if ((long)v.values.size() != v.comps * v.n_points)
    return fail("number of values is " + std::to_string(v.values.size()) + " for " + std::to_string(v.n_points) + " points with " + std::to_string(v.comps) + " components");
  return v;
}
struct Opts
{
  std::string dir = "output", name = "example";
  unsigned number = 0;
  bool print = true, inc = true, edges = true, bounds = false;
  float scale = 1, bscale = 1;
  std::string file() const { return dir + "/" + name + (print ? "." + std::to_string(number) : "") + ".vtu"; }
  std::string all() const
  {
    std::ostringstream s;
    s << dir << "|" << name << "|vtu|" << number << "|" << print << "|" << inc << "|" << edges << "|" << bounds << "|" << scale << "|" << bscale;
    return s.str();
  }
};
static const char* OPT[] = {"outputDir", "fileName", "fileEnding", "fileNumber", "printFileNumber", "incrementFileNumber", "plotEdges", "plotEdgeBoundaries", "scale", "boundaryScale"};
static std::string read_all(IProblem& p)
{
  std::ostringstream s;
  for (int i = 0; i < 10; ++i)
  {
    std::string v = p.option(OPT[i], "");
    if (i >= 8)
    {
      std::ostringstream q;
      q << strtof(v.c_str(), nullptr);
      v = q.str();
    }
    s << (i ? "|" : "") << v;
  }
  return s.str();
}
static std::string num4(double x) { return std::to_string((long)std::llround(4 * x)); }
/// The digits of a plotted value that the files hold.
static std::string val4(double x)
{
  char b[40];
  snprintf(b, sizeof b, "%.3e", x == 0 ? 0. : x);
  return b;
}
/// Multiset of cells, each with its corner coordinates and (edge cells) values.
static std::vector<std::string> expected_cells(const Model& m, const Opts& o, const Vec& x, double t)
{
  std::vector<std::string> r;
  const Shape& s = m.sh;
  unsigned ed = s.ed;
  std::vector<float> ab, bb;
  for (int i = 0; i < 2; ++i)
  {
    ab.push_back((float)(o.scale * (1. * i - 0.5) + 0.5));
    bb.push_back((float)(o.scale * o.bscale * (1. * i - 0.5) + 0.5));
  }
  const int etype[] = {0, 3, 8, 11}, btype[] = {0, 1, 3, 8};
  for (unsigned e = 0; e < m.l.edges.size(); ++e)
  {
    auto base = [&](unsigned d) { return (double)(hsh(m.seed, m.level, e, d, 11) % 801) - 400.; };
    if (o.edges)
    {
      std::string c = "T" + std::to_string(etype[ed]);
      for (unsigned k = 0; k < (1u << ed); ++k)
      {
        c += ";";
        for (unsigned d = 0; d < 3; ++d)
          c += " " + num4(d < s.sd ? base(d) + (d < ed ? 16 * ab[(k >> d) & 1] : 0) : 0);
        c += ":";
        for (unsigned d = 0; d < s.sysdim; ++d)
          c += " " + val4(plot_val(m.ctx(e), m.gather(e, x), ab, d, k, t));
      }
      r.push_back(c);
    }
    if (o.bounds)
      for (unsigned f = 0; f < 2 * ed; ++f)
      {
        std::string c = "T" + std::to_string(btype[ed]);
        for (unsigned k = 0; k < (1u << (ed - 1)); ++k)
        {
          c += ";";
          unsigned bit = 0;
          for (unsigned d = 0; d < 3; ++d)
          {
            double y = d < s.sd ? base(d) : 0;
            if (d == f / 2)
              y += 16 * (0.5 + ((double)(f % 2) - 0.5) * o.bscale);
            else if (d < ed)
              y += 16 * bb[(k >> bit++) & 1];
            c += " " + num4(y);
          }
        }
        r.push_back(c);
      }
  }
  std::sort(r.begin(), r.end());
  return r;
}
static std::vector<std::string> file_cells(const Vtu& v, const Shape& s)
{
  std::vector<std::string> r;
  const int etype[] = {0, 3, 8, 11};
  long a = 0;
  for (long i = 0; i < v.n_cells; ++i)
  {
    std::string c = "T" + std::to_string(v.types[i]);
    for (; a < v.offs[i]; ++a)
    {
      c += ";";
      for (int d = 0; d < 3; ++d)
        c += " " + num4(v.points[3 * v.conn[a] + d]);
      if (v.types[i] == etype[s.ed])
      {
        c += ":";
        for (unsigned d = 0; d < s.sysdim && d < (unsigned)v.comps; ++d)
          c += " " + val4(v.values[v.comps * v.conn[a] + d]);
      }
    }
    r.push_back(c);
  }
  std::sort(r.begin(), r.end());
  return r;
}

// ------------------------------------------------------------------------------ the simulation
struct Obj
{
  int id, kind, shape;
  uint64_t seed;
  unsigned level;
  long coef;
  int ctor;
};
struct PlotSim : Sim
{
  bool c05;
  explicit PlotSim(bool b) : c05(b) {}

  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int n_act = c05 ? 1 : 1 + (int)r.below(2);
    for (int a = 0; a < n_act; ++a)
    {
      int n_obj = c05 ? 1 + (int)r.below(3) : 1 + (int)r.below(2);
      for (int i = 0; i < n_obj; ++i)
      {
        int ctor = (int)r.below(3);
        p.add("obj " + std::to_string(a) + " " + std::to_string(i) + " " + std::to_string(r.below(N_KINDS)) + " " +
              std::to_string(r.below(shapes().size())) + " " + std::to_string(r.below(100000)) + " " +
              std::to_string(r.chance(1, 4) ? 1 : 0) + " " + std::to_string(ctor == 2 ? 0 : r.below(5)) + " " + std::to_string(ctor));
      }
      int n_ops = c05 ? 3 + (int)r.below(thorough ? 30 : 16) : 2 + (int)r.below(thorough ? 10 : 6);
      const char* dirs[] = {"output", "out_b", "c"};
      const char* names[] = {"example", "sol", "sol.1", "x y"};
      const char* scales[] = {"1", "0.5", "0.25", "0.75"};
      const char* bools[] = {"true", "false", "1", "0"};
      if (a == 1)
        for (int i = 0; i < n_obj; ++i)
          p.add("op 1 " + std::to_string(i) + " set fileName restarted" + std::to_string(i));
      for (int k = 0; k < n_ops; ++k)
      {
        std::string b = "op " + std::to_string(a) + " " + std::to_string(r.below(n_obj)) + " ";
        unsigned w = r.below(20);
        char buf[160];
        if (w < (c05 ? 8u : 9u))
        {
          long thr = -1, al = -1;
          if (c05 && r.chance(1, 3))
            (r.chance(1, 2) ? thr : al) = (long)r.below(r.chance(1, 2) ? 3 : 40);
          snprintf(buf, sizeof buf, "plot %llu %.3f %ld %ld", (unsigned long long)r.below(1000), make_time(r), thr, al);
        }
        else if (w < 17)
        {
          std::string v;
          int o = (int)r.below(10);
          if (!c05)
          {
            const int pool[] = {0, 1, 4, 6, 7, 7, 7, 8, 9};
            o = pool[r.below(9)];
          }
          switch (o)
          {
            case 0: v = dirs[r.below(3)]; break;
            case 1: v = names[r.below(4)]; break;
            case 2: v = "vtu"; break;
            case 3: v = std::to_string(r.below(r.chance(1, 3) ? 100000 : 12)); break;
            case 8:
            case 9: v = scales[r.below(4)]; break;
            default: v = bools[r.below(4)];
          }
          if (a == 1 && o == 1)
            v = "restarted-" + v;
          if (c05 && r.chance(1, 12))
          {
            // Values that cannot be understood, and unknown options.
            const int bad[] = {3, 8, 9, 2, 10};
            o = bad[r.below(5)];
            v = o == 2 ? "txt" : o == 10 ? "1" : "abc";
          }
          std::string e;
          for (char ch : v)
            e += ch == ' ' ? '~' : ch;
          snprintf(buf, sizeof buf, "set %s %s", o == 10 ? (r.chance(1, 2) ? "filename" : "numbers") : OPT[o], e.c_str());
        }
        else if (w < 18)
          snprintf(buf, sizeof buf, "refine %d", (int)r.below(3));
        else if (w < 19)
          snprintf(buf, sizeof buf, "data %llu %.3f", (unsigned long long)r.below(1000), make_time(r));
        else
          snprintf(buf, sizeof buf, "init %llu %.3f", (unsigned long long)r.below(1000), make_time(r));
        p.add(b + buf);
      }
      p.add("op " + std::to_string(a) + " 0 plot " + std::to_string(r.below(1000)) + " 1.5 -1 -1");
      int nf = r.chance(c05 ? 1 : 4, 5) ? 1 + (int)r.below(2) : 0;
      for (int i = 0; i < nf; ++i)
      {
        std::string f = "fault " + std::to_string(a) + " ";
        std::string nth = std::to_string(r.below(r.chance(1, 3) ? 8 : r.chance(1, 2) ? 60 : 400));
        switch (r.below(c05 ? 2 : 10))
        {
          case 0: p.add(f + "mkdir " + std::to_string(r.below(3)) + " fail " + std::to_string(r.chance(1, 2) ? EACCES : ENOSPC)); break;
          case 1: p.add(f + "write " + nth + (r.chance(1, 2) ? " fail " + std::to_string(EINTR) : " short " + std::to_string(1 + r.below(9)))); break;
          case 2: p.add(f + "openw " + std::to_string(r.below(3)) + " fail " + std::to_string(r.chance(1, 2) ? EACCES : EMFILE)); break;
          case 3: p.add(f + "close " + std::to_string(r.below(3)) + " lose " + std::to_string(1 + r.below(60))); break;
          case 4: p.add(f + "close " + std::to_string(r.below(3)) + " fail " + std::to_string(r.chance(1, 2) ? ENOSPC : EIO)); break;
          case 5: p.add(f + "write " + nth + " torn " + std::to_string(1 + r.below(20))); break;
          case 6: p.add(f + "write " + nth + (r.chance(1, 2) ? " killt " : " kill ") + std::to_string(r.below(30))); break;
          case 7: p.add(f + (r.chance(1, 2) ? "close " : "openw ") + std::to_string(r.below(4)) + " kill 0"); break;
          default: p.add(f + "write " + nth + (r.chance(1, 2) ? " fail+ " : " fail ") + std::to_string(r.chance(2, 3) ? ENOSPC : EIO));
        }
      }
    }
    return p;
  }

  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    Outcome o;
    iosim::World w(scratch, &o);
    w.load_plan(p);
    std::vector<std::vector<Obj>> objs(2);
    std::vector<std::vector<std::vector<std::string>>> ops(2);
    for (auto& q : p.all("obj"))
      if (q.size() >= 9)
        objs[atoi(q[1].c_str()) & 1].push_back(Obj{atoi(q[2].c_str()), atoi(q[3].c_str()), atoi(q[4].c_str()), strtoull(q[5].c_str(), 0, 10), (unsigned)atoi(q[6].c_str()), atol(q[7].c_str()), atoi(q[8].c_str())});
    for (auto& q : p.all("op"))
      if (q.size() >= 4)
        ops[atoi(q[1].c_str()) & 1].push_back(q);
    auto find = [&](int a, const std::string& id) -> int
    {
      for (size_t i = 0; i < objs[a].size(); ++i)
        if (objs[a][i].id == atoi(id.c_str()))
          return (int)i;
      return -1;
    };
    auto unspace = [](std::string s)
    {
      for (auto& c : s)
        if (c == '~')
          c = ' ';
      return s;
    };
    // ---- the process under test
    auto actor = [&](int a)
    {
      setvbuf(stdout, nullptr, _IONBF, 0);
      std::vector<std::unique_ptr<IProblem>> P;
      for (auto& q : objs[a])
        P.push_back(make(q.kind, q.shape, q.seed, q.level, q.coef, q.ctor));
      for (size_t k = 0; k < ops[a].size(); ++k)
      {
        auto& q = ops[a][k];
        int i = find(a, q[2]);
        if (i < 0)
          continue;
        iosim::note("begin " + std::to_string(k));
        confusion.clear();
        std::string res = "ok";
        try
        {
          if (q[3] == "set")
            res = "ok" + P[i]->option(q[4], unspace(q[5]));
          else if (q[3] == "plot")
          {
            Vec x = make_vec(strtoull(q[4].c_str(), 0, 10), P[i]->size(), vec_exp(strtoull(q[4].c_str(), 0, 10), P[i]->sh.f32));
            double t = atof(q[5].c_str());
            throw_at = atol(q[6].c_str());
            allocsim::Section s(atol(q[7].c_str()));
            P[i]->plot_solution(x, t);
          }
          else if (q[3] == "refine")
            P[i]->set_refinement((unsigned)atoi(q[4].c_str()));
          else if (q[3] == "data" && P[i]->kind == PARABOLIC)
            P[i]->call(F_SETDATA, make_vec(strtoull(q[4].c_str(), 0, 10), P[i]->size()), atof(q[5].c_str()), Vec(), 0);
          else if (q[3] == "init" && has(P[i]->kind, F_INITIAL))
            P[i]->call(F_INITIAL, make_vec(strtoull(q[4].c_str(), 0, 10), P[i]->size()), atof(q[5].c_str()), Vec(), 0);
        }
        catch (const std::exception& e)
        {
          res = "ex";
        }
        throw_at = -1;
        std::string all;
        for (auto& u : P)
          all += read_all(*u) + "\n";
        iosim::note("end " + std::to_string(k) + " " + res + "\n" + confusion + "\n" + all);
      }
      return std::string("done");
    };
    // ---- the model
    struct MO
    {
      Model m;
      Opts o;
    };
    std::vector<MO> M;
    std::map<std::string, std::string> files;   // content after the last successful plot
    std::set<std::string> residue;              // names touched by failed plots
    std::set<std::string> before;
    std::string current;                        // target of the plot in progress
    size_t written_before = 0;
    int cur_actor = 0;
    bool in_op = false;
    size_t cur_k = 0;
    auto listing = [&]()
    {
      std::set<std::string> s;
      std::error_code ec;
      for (auto& e : std::filesystem::recursive_directory_iterator(w.root, ec))
        if (e.is_regular_file())
          s.insert(e.path().string().substr(w.root.size() + 1));
      return s;
    };
    auto written = [&]()
    {
      std::string s = w.stdout_of(cur_actor);
      size_t n = 0, i = 0;
      while ((i = s.find("was written", i)) != std::string::npos)
        ++n, ++i;
      return n;
    };
    auto check_others = [&](const std::string& when)
    {
      for (auto& f : files)
        if (f.first != current && iosim::slurp(w.root + "/" + f.first) != f.second)
          o.violate("earlier-plot-damaged", "file " + f.first + " of an earlier plot changed " + when);
    };
    auto opname = [&](size_t k)
    {
      std::string s;
      for (size_t i = 1; i < ops[cur_actor][k].size(); ++i)
        s += ops[cur_actor][k][i] + " ";
      return s;
    };
    // Is this option/value refused?
    auto bad_set = [&](const std::vector<std::string>& q)
    {
      bool known = false;
      for (auto n : OPT)
        known |= q[4] == n;
      if (!known)
        return true;
      if (q[4] == "fileEnding")
        return q[5] != "vtu";
      if (q[4] == "fileNumber" || q[4] == "scale" || q[4] == "boundaryScale")
        return !isdigit((unsigned char)q[5][0]);
      return false;
    };
    w.on_note = [&](int a, const std::string& text)
    {
      std::istringstream is(text);
      std::string word, l;
      size_t k;
      is >> word >> k;
      auto& q = ops[a][k];
      int i = find(a, q[2]);
      MO& m = M[i];
      cur_k = k;
      if (word == "begin")
      {
        in_op = true;
        w.hard_fault = false;
        written_before = written();
        current = q[3] == "plot" ? m.o.file() : "";
        before = listing();
        return;
      }
      in_op = false;
      std::string res;
      std::getline(is, res);
      res.erase(0, 1);
      std::string conf, all, exp;
      std::getline(is, conf);
      while (std::getline(is, l))
        all += l + "\n";
      if (!conf.empty())
        o.violate("wrong-hyperedge", conf + " in op " + opname(k));
      bool ok = res.rfind("ok", 0) == 0;
      bool injected = w.hard_fault || (q[3] == "plot" && (atol(q[6].c_str()) >= 0 || atol(q[7].c_str()) >= 0));
      ++o.counters[std::string(q[3]) + (ok ? "/ok" : "/exception")];
      if (!ok && q[3] == "plot")
      {
        if (atol(q[6].c_str()) >= 0)
          ++o.faults["local-solver-throws"];
        if (atol(q[7].c_str()) >= 0)
          ++o.faults["allocation-fails"];
      }
      if (q[3] == "set")
      {
        bool bad = bad_set(q);
        if (ok && bad)
          o.violate("bad-option-accepted", "option " + q[4] + " = " + q[5] + " was accepted");
        if (!ok && !bad)
          o.violate("option-refused", "option " + q[4] + " = " + q[5] + " was refused");
        if (ok && !bad)
        {
          std::string v = unspace(q[5]);
          bool b = v == "true" || v == "1";
          Opts& t = m.o;
          std::string e = v;
          if (q[4] == "outputDir") t.dir = v;
          else if (q[4] == "fileName") t.name = v;
          else if (q[4] == "fileNumber") t.number = (unsigned)atol(v.c_str());
          else if (q[4] == "printFileNumber") t.print = b, e = b ? "1" : "0";
          else if (q[4] == "incrementFileNumber") t.inc = b, e = b ? "1" : "0";
          else if (q[4] == "plotEdges") t.edges = b, e = b ? "1" : "0";
          else if (q[4] == "plotEdgeBoundaries") t.bounds = b, e = b ? "1" : "0";
          else if (q[4] == "scale") t.scale = strtof(v.c_str(), 0);
          else if (q[4] == "boundaryScale") t.bscale = strtof(v.c_str(), 0);
          std::string got = res.substr(2);
          bool same = q[4] == "scale" || q[4] == "boundaryScale" ? strtof(got.c_str(), 0) == strtof(e.c_str(), 0) : got == e;
          if (!same)
            o.violate("option-value", "setting " + q[4] + " to " + v + " returned \"" + esc(got) + "\"");
        }
      }
      else if (q[3] == "refine" && ok)
        m.m.refine((unsigned)atoi(q[4].c_str()));
      else if (q[3] == "data" && ok && m.m.kind == PARABOLIC)
        m.m.set_data(make_vec(strtoull(q[4].c_str(), 0, 10), m.m.size()), atof(q[5].c_str()));
      else if (q[3] == "init" && ok && has(m.m.kind, F_INITIAL))
        m.m.init_data(atof(q[5].c_str()));
      else if (q[3] == "plot")
      {
        std::set<std::string> after = listing();
        if (ok)
        {
          std::string path = w.root + "/" + current, content = iosim::slurp(path);
          if (!after.count(current))
            o.violate("no-file", "plot returned but " + current + " does not exist");
          Vtu v = read_vtu(content);
          if (!v.error.empty())
            o.violate("incomplete-file", "plot returned normally, but " + current + " is not complete: " + v.error);
          else
          {
            Vec x = make_vec(strtoull(q[4].c_str(), 0, 10), m.m.size(), vec_exp(strtoull(q[4].c_str(), 0, 10), m.m.sh.f32));
            auto e = expected_cells(m.m, m.o, x, atof(q[5].c_str())), f = file_cells(v, m.m.sh);
            if (e != f)
            {
              std::string d = std::to_string(f.size()) + " cells, expected " + std::to_string(e.size());
              for (auto& c : e)
                if (!std::binary_search(f.begin(), f.end(), c))
                {
                  d += "; missing cell " + c;
                  break;
                }
              for (auto& c : f)
                if (!std::binary_search(e.begin(), e.end(), c))
                {
                  d += "; unexpected cell " + c;
                  break;
                }
              o.violate("wrong-content", current + ": " + d);
            }
            long np = 0;
            if (m.o.edges)
              np += (long)m.m.l.edges.size() << m.m.sh.ed;
            if (m.o.bounds)
              np += (long)m.m.l.edges.size() * 2 * m.m.sh.ed << (m.m.sh.ed - 1);
            if (v.comps < (long)m.m.sh.sysdim)
              o.violate("wrong-content", current + ": too few components");
            (void)np;
          }
          for (auto& f : after)
            if (f != current && !before.count(f))
              o.violate("stray-file", "plot of " + current + " also left " + f);
          files[current] = content;
          residue.erase(current);
          if (m.o.inc)
            ++m.o.number;
        }
        else
        {
          if (!injected)
            o.violate("plot-refused", "plot failed although nothing was wrong: " + opname(k));
          if (written() > written_before)
            o.violate("reported-written", "failed plot of " + current + " was reported as written");
          files.erase(current);
        }
      }
      for (auto& u : M)
        exp += u.o.all() + "\n";
      if (all != exp)
        o.violate("options-differ", "after " + opname(k) + "(" + res.substr(0, 2) + ") the options are\n" + all + "expected\n" + exp);
      check_others("in op " + opname(k));
      current.clear();
    };
    for (int a = 0; a < 2; ++a)
    {
      if (objs[a].empty())
        continue;
      cur_actor = a;
      M.clear();
      for (auto& q : objs[a])
        M.push_back(MO{Model(q.kind, shapes()[q.shape], q.seed, q.level, q.coef), Opts()});
      in_op = false;
      int id = w.add([&, a]() { return actor(a); });
      if (id != a)
      {  // first process is missing: keep fault numbering
        w.actors.pop_back();
        w.actors.emplace_back();
        w.add([&, a]() { return actor(a); });
      }
      w.start(a);
      w.run();
      auto& x = w.actors[a];
      ++o.counters[std::string("end:") + iosim::end_name(x.end)];
      if (x.end == iosim::E_HANG)
        o.violate("hang", "process did not end within its CPU budget");
      else if (x.end == iosim::E_CRASH)
        o.violate("undiagnosed-crash", "process died without diagnostic: " + x.err.substr(0, 300));
      else if (x.refused())
      {
        bool ok = in_op && w.hard_fault;
        if (in_op && ops[a][cur_k][3] == "set")
          ok = bad_set(ops[a][cur_k]);
        if (in_op && ops[a][cur_k][3] == "plot" && atol(ops[a][cur_k][7].c_str()) >= 0)
          ok = true;
        if (!ok)
          o.violate("plot-refused", "process ended in " + (in_op ? opname(cur_k) : std::string("setup")) + " although nothing was wrong: " + x.err.substr(0, 400) + x.result);
      }
      if (x.end != iosim::E_RETURNED)
      {
        if (in_op && ops[a][cur_k][3] == "plot")
        {
          if (x.end != iosim::E_KILLED && written() > written_before)
            o.violate("reported-written", "failed plot of " + current + " was reported as written");
          check_others("while the process died in " + opname(cur_k));
          files.erase(current);
        }
        current.clear();
      }
    }
    o.nontrivial = !o.faults.empty() || c05;
    Hash h;
    for (auto& c : o.counters)
      h.add(c.first);
    for (auto& f : files)
      h.add(f.first);
    for (auto& f : o.faults)
      h.add(f.first);
    for (auto& m : M)
      h.add(m.o.all() + std::to_string(m.m.sh.ed));
    o.states.push_back(h.h);
    return o;
  }
};
int main(int argc, char** argv)
{
  PlotSim s(sim_property() == 5);
  return sim_main(argc, argv, s);
}
