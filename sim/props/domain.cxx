// C01, C02, C03: loading of domain files and point clouds by the real reader, on simulated storage.
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include <HyperHDG/dense_la.hxx>

#include <HyperHDG/read_domain.hxx>

#include "../core/domref.hxx"
#include "../core/iosim.hxx"

using namespace sim;
using domref::Domain;

template <unsigned E, unsigned S, typename F>
std::string load(const std::string& file)
{
  auto d = read_domain<E, S, std::vector, Point<S, F>>(file);
  Domain r;
  r.n_edges = d.n_hyEdges;
  r.n_nodes = d.n_hyNodes;
  r.n_points = d.n_points;
  r.n_props = d.n_properties;
  for (auto& p : d.points)
  {
    r.points.emplace_back();
    for (unsigned i = 0; i < S; ++i)
      r.points.back().push_back((double)p[i]);
  }
  auto rows = [](const auto& m)
  {
    std::vector<std::vector<unsigned>> v;
    for (auto& a : m)
      v.emplace_back(a.begin(), a.end());
    return v;
  };
  r.nodes = rows(d.hyNodes_hyEdge);
  r.faces = rows(d.hyFaces_hyEdge);
  r.verts = rows(d.points_hyEdge);
  for (auto& p : d.hyEdge_properties)
    r.props.emplace_back(p.begin(), p.end());
  return r.text();
}
struct Variant
{
  unsigned e, s;
  bool f32;
  std::string (*fn)(const std::string&);
};
static const std::vector<Variant> VAR = {
  {1, 1, false, load<1, 1, double>}, {1, 2, false, load<1, 2, double>},
  {1, 3, false, load<1, 3, double>}, {1, 2, true, load<1, 2, float>},
  {1, 3, true, load<1, 3, float>},   {2, 2, false, load<2, 2, double>},
  {2, 3, false, load<2, 3, double>}, {3, 3, false, load<3, 3, double>},
  {2, 3, true, load<2, 3, float>}};

/// Inverse of Domain::text().
static Domain untext(const std::string& t)
{
  Domain d;
  std::istringstream s(t);
  std::string l, w;
  std::getline(s, l);
  {
    std::istringstream h(l);
    h >> w >> d.n_edges >> w >> d.n_nodes >> w >> d.n_points >> w >> d.n_props;
  }
  auto rowsd = [&](std::vector<std::vector<double>>& m)
  {
    size_t n;
    std::getline(s, l);
    std::istringstream h(l);
    h >> w >> n;
    for (size_t i = 0; i < n; ++i)
    {
      std::getline(s, l);
      m.emplace_back();
      for (auto& x : words(l))
        m.back().push_back(strtod(x.c_str(), nullptr));
    }
  };
  auto rowsu = [&](std::vector<std::vector<unsigned>>& m)
  {
    std::vector<std::vector<double>> q;
    rowsd(q);
    for (auto& r : q)
      m.emplace_back(r.begin(), r.end());
  };
  rowsd(d.points);
  rowsu(d.nodes);
  rowsu(d.faces);
  rowsu(d.verts);
  rowsd(d.props);
  return d;
}

static std::string plan_text(const Plan& p)
{
  std::string t;
  std::vector<std::string> ls;
  for (auto& l : p.lines)
    if (l == "L" || l.rfind("L ", 0) == 0)
      ls.push_back(l.size() > 2 ? unesc(l.substr(2)) : "");
  for (size_t i = 0; i < ls.size(); ++i)
    t += ls[i] + (i + 1 < ls.size() || p.cfgi("eol", 1) ? "\n" : "");
  return t;
}
static void add_text(Plan& p, const std::string& text)
{
  auto ls = domref::split_lines(text);
  p.set("eol", text.empty() || text.back() == '\n' ? 1 : 0);
  for (auto& l : ls)
    p.add("L " + esc(l));
}
static std::string coord(Rng& r)
{
  char b[64];
  switch (r.below(6))
  {
    case 0:
      snprintf(b, sizeof b, "%d", r.range(-20, 20));
      break;
    case 1:
      snprintf(b, sizeof b, "%.2f", r.range(-2000, 2000) / 100.);
      break;
    case 2:
      snprintf(b, sizeof b, "%.3e", r.range(-99999, 99999) * 1e-7);
      break;
    case 3:
      snprintf(b, sizeof b, "%.9f", r.range(-1000000000, 1000000000) * 1e-8);
      break;
    case 4:
      snprintf(b, sizeof b, "%.17g", r.range(-1000000000, 1000000000) * 1.0000001e-9);
      break;
    default:
      snprintf(b, sizeof b, "%.1f", r.range(-50, 50) / 2.);
  }
  return b;
}
static std::string pad(Rng& r) { return std::string(1 + (r.chance(1, 4) ? r.below(4) : 0), ' '); }

static std::string gen_geo(Rng& r, const Variant& v, bool thorough)
{
  std::ostringstream o;
  unsigned nv = 1u << v.e, nf = 2 * v.e;
  unsigned big = r.chance(1, thorough ? 20 : 60) ? 20 + r.below(r.chance(1, 2) ? 400 : 80) : 0;
  unsigned np = nv + r.below(7) + big, nn = nf + r.below(7) + big, ne = 1 + r.below(8) + big;
  bool comments = r.chance(1, 3);
  auto com = [&](const char* t)
  {
    if (comments)
      o << "# " << t << "\n\n";
    else if (r.chance(1, 3))
      o << "\n";
  };
  auto tail = [&]() { return comments && r.chance(1, 2) ? ";  # remark\n" : ";\n"; };
  com("A hypergraph.");
  o << "Space_Dim     = " << v.s << tail();
  o << "HyperEdge_Dim = " << v.e << tail();
  com("Numbers.");
  // Unique tables, by rejection.
  std::set<std::vector<std::string>> seen;
  std::vector<std::string> pts;
  std::set<std::vector<double>> vals;
  for (unsigned i = 0; i < np; ++i)
  {
    std::vector<double> q;
    std::string l;
    for (unsigned k = 0; k < v.s; ++k)
    {
      std::string c = coord(r);
      q.push_back(v.f32 ? (double)strtof(c.c_str(), nullptr) : strtod(c.c_str(), nullptr));
      if (q.back() == 0)
        q.back() = 0;
      l += (k ? pad(r) : std::string(r.chance(1, 6) ? " " : "")) + c;
    }
    if (vals.insert(q).second)
      pts.push_back(l);
    else
      --i;
  }
  auto table = [&](unsigned width, unsigned range)
  {
    std::set<std::vector<unsigned>> s;
    std::vector<std::vector<unsigned>> rows;
    for (unsigned i = 0, tries = 0; i < ne && tries < 2000; ++tries)
    {
      std::vector<unsigned> row;
      while (row.size() < width)
      {
        unsigned x = r.below(range);
        if (std::find(row.begin(), row.end(), x) == row.end())
          row.push_back(x);
      }
      if (s.insert(row).second)
      {
        rows.push_back(row);
        ++i;
      }
    }
    return rows;
  };
  auto nodes = table(nf, nn), verts = table(nv, np);
  ne = std::min(nodes.size(), verts.size());
  o << "N_Points      = " << np << tail();
  o << "N_HyperNodes  = " << nn << tail();
  o << "N_HyperEdges  = " << ne << tail();
  com("After POINTS:");
  o << "POINTS:\n";
  for (auto& l : pts)
    o << l << "\n";
  auto emit = [&](const char* key, const std::vector<std::vector<unsigned>>& m)
  {
    com("Next section.");
    o << key << "\n";
    for (unsigned i = 0; i < ne; ++i)
    {
      for (size_t k = 0; k < m[i].size(); ++k)
        o << (k ? pad(r) : "") << m[i][k];
      o << (r.chance(1, 10) ? " " : "") << "\n";
    }
  };
  emit("HYPERNODES_OF_HYPEREDGES:", nodes);
  std::vector<std::vector<unsigned>> faces;
  for (unsigned i = 0; i < ne; ++i)
  {
    faces.emplace_back();
    for (unsigned k = 0; k < nf; ++k)
      faces.back().push_back(r.chance(1, 12) ? r.below(200) : r.below(4));
  }
  emit("TYPES_OF_HYPERFACES:", faces);
  emit("POINTS_OF_HYPEREDGES:", verts);
  if (r.chance(2, 5))
  {
    unsigned k = 1 + r.below(3);
    com("Properties.");
    o << "HYPEREDGE_PROPERTIES: " << k << "\n";
    for (unsigned i = 0; i < ne; ++i)
    {
      for (unsigned j = 0; j < k; ++j)
        o << (j ? pad(r) : "") << coord(r);
      o << "\n";
    }
  }
  for (unsigned i = r.chance(1, 4) ? 1 + r.below(3) : 0; i > 0; --i)
    o << (r.chance(1, 2) ? "# The end\n" : "\n");
  std::string t = o.str();
  if (r.chance(1, 4) && !t.empty())
    t.pop_back();
  return t;
}
/// Damage as a disk, an editor or an interrupted copy would do it.
static std::string damage(Rng& r, std::string t, std::string& kind)
{
  auto ls = domref::split_lines(t);
  bool eol = !t.empty() && t.back() == '\n';
  auto join = [&]()
  {
    std::string s;
    for (size_t i = 0; i < ls.size(); ++i)
      s += ls[i] + (i + 1 < ls.size() || eol ? "\n" : "");
    return s;
  };
  if (ls.empty())
    return t;
  // Prefer the data part of the file for line damage.
  auto pick = [&]() -> size_t
  {
    std::vector<size_t> data;
    for (size_t i = 0; i < ls.size(); ++i)
      if (!ls[i].empty() && (isdigit((unsigned char)ls[i][0]) || ls[i][0] == '-' || ls[i][0] == ' '))
        data.push_back(i);
    if (data.empty() || r.chance(1, 3))
      return r.below(ls.size());
    return data[r.below(data.size())];
  };
  switch (r.below(12))
  {
    case 10:
    {
      kind = "header-value";
      std::vector<size_t> h;
      for (size_t i = 0; i < ls.size(); ++i)
        if (!ls[i].empty() && isupper((unsigned char)ls[i][0]))
          h.push_back(i);
      if (h.empty())
        return t;
      auto& l = ls[h[r.below(h.size())]];
      auto w = words(l);
      const char* bad[] = {"", "x", "-1", "0", "=", "1.5", "99999999999999999999"};
      w.back() = bad[r.below(7)];
      l.clear();
      for (size_t k = 0; k < w.size(); ++k)
        l += (k ? " " : "") + w[k];
      return join();
    }
    case 0:
      kind = "truncate";
      return t.substr(0, r.below(t.size() + 1));
    case 1:
      kind = "truncate-tail";
      return t.substr(0, t.size() - std::min<size_t>(t.size(), r.below(40)));
    case 2:
      kind = "lose-line";
      ls.erase(ls.begin() + pick());
      return join();
    case 3:
    {
      kind = "repeat-line";
      size_t i = pick();
      ls.insert(ls.begin() + i, ls[i]);
      return join();
    }
    case 4:
    {
      kind = "short-line";
      auto& l = ls[pick()];
      auto w = words(l);
      if (!w.empty())
      {
        w.pop_back();
        l.clear();
        for (size_t k = 0; k < w.size(); ++k)
          l += (k ? " " : "") + w[k];
      }
      return join();
    }
    case 5:
    {
      kind = "digit-flip";
      std::vector<size_t> d;
      for (size_t i = 0; i < t.size(); ++i)
        if (isdigit((unsigned char)t[i]))
          d.push_back(i);
      if (!d.empty())
        t[d[r.below(d.size())]] = '0' + r.below(10);
      return t;
    }
    case 6:
    {
      kind = "letter-flip";
      std::vector<size_t> d;
      for (size_t i = 0; i < t.size(); ++i)
        if (!isspace((unsigned char)t[i]))
          d.push_back(i);
      if (!d.empty())
        t[d[r.below(d.size())]] = 'q' + r.below(8);
      return t;
    }
    case 7:
    {
      kind = "index-change";
      auto& l = ls[pick()];
      auto w = words(l);
      if (!w.empty())
      {
        w[r.below(w.size())] = std::to_string(r.below(30));
        l.clear();
        for (size_t k = 0; k < w.size(); ++k)
          l += (k ? " " : "") + w[k];
      }
      return join();
    }
    case 8:
    {
      kind = "copy-line";
      size_t a = pick(), b = pick();
      ls[a] = ls[b];
      return join();
    }
    case 9:
    {
      kind = "lose-block";
      size_t a = r.below(ls.size()), n = 1 + r.below(4);
      ls.erase(ls.begin() + a, ls.begin() + std::min(ls.size(), a + n));
      return join();
    }
    default:
    {
      kind = "blank-line";
      size_t a = pick();
      if (r.chance(1, 2))
        ls[a] = "";
      else
        ls.insert(ls.begin() + a, "");
      return join();
    }
  }
}
static std::vector<std::pair<std::string, std::string>> shipped(const std::string& ext)
{
  std::vector<std::pair<std::string, std::string>> v;
  std::error_code ec;
  for (auto& e : std::filesystem::directory_iterator(REPO_DIR "/domains", ec))
    if (e.path().extension() == ext && e.file_size() < 8000)
      v.push_back({e.path().filename().string(), iosim::slurp(e.path().string())});
  std::sort(v.begin(), v.end());
  return v;
}
static long header_value(const std::string& t, const std::string& key)
{
  for (auto& l : domref::split_lines(t))
  {
    auto w = words(l);
    if (w.size() > 2 && w[0] == key)
      return atol(w[2].c_str());
  }
  return -1;
}
static int variant_for(long e, long s, Rng& r)
{
  std::vector<int> c;
  for (size_t i = 0; i < VAR.size(); ++i)
    if ((long)VAR[i].e == e && (long)VAR[i].s == s)
      c.push_back((int)i);
  return c.empty() ? -1 : c[r.below(c.size())];
}

// ------------------------------------------------------------------------------------------ C01
struct C01 : Sim
{
  std::vector<std::pair<std::string, std::string>> ship = shipped(".geo");
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int vi = (int)r.below(VAR.size());
    std::string t;
    if (!ship.empty() && r.chance(1, 8))
    {
      t = r.pick(ship).second;
      int k = variant_for(header_value(t, "HyperEdge_Dim"), header_value(t, "Space_Dim"), r);
      if (k >= 0)
        vi = k;
      else
        t.clear();
    }
    if (t.empty())
      t = gen_geo(r, VAR[vi], thorough);
    std::string what = "intact";
    bool hard = false;
    unsigned m = r.below(20);
    if (m >= 6 && m < 11)
      hard = true;
    else if (m >= 11)
    {
      what.clear();
      int n = r.chance(1, 4) ? 2 : 1;
      for (int i = 0; i < n; ++i)
      {
        std::string k;
        t = damage(r, t, k);
        what += (i ? "+" : "") + k;
      }
    }
    else if (r.chance(1, 10))
      vi = (int)r.below(VAR.size());  // reader compiled for other dimensions
    p.set("variant", vi);
    p.set("what", what);
    add_text(p, t);
    iosim::gen_read_faults(r, p, 0, hard);
    return p;
  }
  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    Outcome o;
    const Variant& v = VAR[p.cfgi("variant")];
    iosim::World w(scratch, &o);
    w.load_plan(p);
    std::string t = plan_text(p), file = w.root + "/domain.geo";
    iosim::spit(file, t);
    w.add([&]() { return v.fn(file); });
    w.start(0);
    w.run();
    auto& a = w.actors[0];
    Domain ref = domref::parse_geo(t, v.e, v.s, v.f32);
    o.counters[std::string("file:") + (ref.kind == domref::GOOD ? "good" : ref.kind == domref::BAD ? "bad" : "grey")]++;
    o.counters["damage:" + p.cfg("what")]++;
    o.counters[std::string("end:") + iosim::end_name(a.end)]++;
    o.nontrivial = ref.kind == domref::BAD || !o.faults.empty() || p.cfg("what") != "intact";
    Hash st;
    st.add(ref.why);
    st.add(v.e * 10 + v.s);
    st.add(w.hard_fault);
    st.add(a.end);
    o.states.push_back(st.h);
    if (a.end == iosim::E_HANG)
      o.violate("hang", "the load did not end within its CPU budget");
    else if (a.end == iosim::E_CRASH && ref.kind != domref::GREY)
      o.violate("undiagnosed-crash", "the load died on signal " + std::to_string(WTERMSIG(a.status)) + " without a diagnostic: " + a.err.substr(0, 300));
    else if (a.end == iosim::E_RETURNED)
    {
      if (ref.kind == domref::BAD)
        o.violate("damaged-file-accepted", "file is damaged (" + ref.why + "), yet a domain was returned:\n" + a.result);
      else if (ref.kind == domref::GOOD && a.result != ref.text())
        o.violate(w.hard_fault ? "wrong-domain-after-io-error" : "wrong-domain",
                  "returned:\n" + a.result + "file holds:\n" + ref.text());
    }
    else if (ref.kind == domref::GOOD && !w.hard_fault)
      o.violate("intact-file-refused", "a complete file was refused: " + a.err.substr(0, 300) + a.result);
    if (iosim::slurp(file) != t)
      o.violate("input-modified", "the load changed the domain file");
    return o;
  }
};

// ------------------------------------------------------------------------------------------ C02 / C03
static std::string gen_pts(Rng& r, const Variant& v, bool thorough, bool small)
{
  std::ostringstream o;
  unsigned n = small ? 2 + r.below(7) : 2 + r.below(r.chance(1, 100) ? 350 : r.chance(1, 5) ? (thorough ? 120 : 50) : 14);
  // Lattice with jitter: distances stay away from epsilon unless they tie exactly on an axis.
  std::vector<std::vector<std::string>> pts;
  std::set<std::vector<double>> seen;
  int form = (int)r.below(4);
  double h = form == 3 ? 1e-4 : 1, eps = 0;
  unsigned m = (unsigned)std::ceil(std::pow((double)n, 1. / v.s)) + r.below(2);
  char b[64];
  for (unsigned i = 0, tries = 0; i < n && tries < 5000; ++tries)
  {
    std::vector<std::string> row;
    std::vector<double> val;
    for (unsigned k = 0; k < v.s; ++k)
    {
      long c = r.range(0, (int)m) - (form == 1 ? (int)m / 2 : 0);
      if (form == 0 || form == 1)
        snprintf(b, sizeof b, "%ld", c);
      else
        snprintf(b, sizeof b, form == 2 ? "%.9f" : "%.13g", h * ((double)c + 0.3 * (r.below(1000000) / 1e6)));
      row.push_back(b);
      double x = v.f32 ? (double)strtof(b, nullptr) : strtod(b, nullptr);
      val.push_back(x == 0 ? 0 : x);
    }
    if (seen.insert(val).second)
    {
      pts.push_back(row);
      ++i;
    }
  }
  const double choices[] = {1, 1.2, 1.5, 1.7, 2, 2.3, 3, 4.1};
  eps = choices[r.below(n > 100 ? 5 : 8)] * h;
  if (r.chance(1, 5))
  {
    // Distances close to epsilon, on both sides, but beyond rounding.
    const double e[] = {0.1, 0.3, 0.7, 1.1, 2.6, 1e-3, 77.7, 1};
    eps = e[r.below(8)];
    std::vector<std::vector<double>> q(1, std::vector<double>(v.s, (double)r.range(-3, 3)));
    pts.clear();
    for (unsigned i = 1; i < n; ++i)
    {
      std::vector<double> x = r.pick(q);
      double step = eps * 0.6;
      if (r.chance(1, 2))
        step = eps * (1 + (r.chance(1, 2) ? 1 : -1) * (1 + r.below(9)) * std::pow(10., v.f32 ? -(double)r.range(3, 4) : -(double)r.range(4, 11)));
      x[r.below(v.s)] += r.chance(1, 2) ? step : -step;
      q.push_back(x);
    }
    std::set<std::vector<double>> once;
    for (auto& x : q)
    {
      std::vector<std::string> row;
      std::vector<double> val;
      for (double y : x)
      {
        snprintf(b, sizeof b, "%.17g", y);
        row.push_back(b);
        val.push_back(v.f32 ? (double)strtof(b, nullptr) : y);
      }
      if (once.insert(val).second)
        pts.push_back(row);
    }
    if (pts.size() < 2)
      pts.push_back(std::vector<std::string>(v.s, "5.5"));
  }
  if (r.chance(1, 3))
    o << "# A cloud.\n\n";
  o << "Space_Dim = " << v.s << ";\n";
  snprintf(b, sizeof b, "%.6g", eps);
  o << "Epsilon   = " << b << ";" << (r.chance(1, 4) ? "  # distance" : "") << "\n";
  if (r.chance(1, 2))
    o << "\n";
  o << "POINTS:\n";
  for (auto& row : pts)
  {
    for (size_t k = 0; k < row.size(); ++k)
      o << (k ? " " : "") << row[k];
    if (r.chance(1, 12))
      o << " 0.5 7";
    o << "\n";
  }
  std::string t = o.str();
  if (r.chance(1, 4))
    t.pop_back();
  return t;
}
/// A cloud that is connected, most of the time.
static std::string good_pts(Rng& r, const Variant& v, bool thorough, bool small)
{
  std::string t;
  for (int i = 0; i < 12; ++i)
  {
    t = gen_pts(r, v, thorough, small);
    if (domref::parse_pts(t, v.s, v.f32).kind == domref::GOOD)
      return t;
  }
  return t;
}
static int variant1(Rng& r) { return (int)r.below(5); }

static std::string geo_of(const domref::Cloud& c)
{
  std::ostringstream o;
  char b[64];
  o << "Space_Dim     = " << c.points[0].size() << ";\nHyperEdge_Dim = 1;\n\nN_Points      = " << c.points.size()
    << ";\nN_HyperNodes  = " << c.points.size() << ";\nN_HyperEdges  = " << c.edges.size() << ";\n\nPOINTS:\n";
  for (auto& p : c.points)
  {
    for (double x : p)
    {
      snprintf(b, sizeof b, " %.17g ", x);
      o << b;
    }
    o << "\n";
  }
  for (const char* k : {"HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:"})
  {
    o << "\n" << k << "\n";
    for (auto& e : c.edges)
      o << e.first << " " << e.second << "\n";
  }
  return o.str();
}

struct C02 : Sim
{
  std::vector<std::pair<std::string, std::string>> ship = shipped(".pts");
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int vi = variant1(r);
    std::string t, what = "intact";
    if (!ship.empty() && r.chance(1, 20))
    {
      t = r.pick(ship).second;
      int k = variant_for(1, header_value(t, "Space_Dim"), r);
      if (k >= 0)
        vi = k;
      else
        t.clear();
    }
    if (t.empty())
      t = r.chance(4, 5) ? good_pts(r, VAR[vi], thorough, false) : gen_pts(r, VAR[vi], thorough, false);
    bool hard = false;
    unsigned m = r.below(20);
    if (m >= 7 && m < 15)
      hard = true;
    else if (m >= 15)
      t = damage(r, t, what);
    p.set("variant", vi);
    p.set("what", what);
    // Leftover graph file of an earlier load.
    const char* stale[] = {"none", "none", "other", "garbage", "empty", "prefix", "longer", "readonly"};
    p.set("stale", stale[r.below(8)]);
    p.set("staleseed", (long)r.below(1000000));
    add_text(p, t);
    iosim::gen_read_faults(r, p, 0, hard && r.chance(1, 3));
    if (hard || r.chance(1, 4))
    {
      int n = r.range(1, 2);
      for (int i = 0; i < n; ++i)
        switch (r.below(hard ? 8 : 2))
        {
          case 0:
            p.add("fault 0 write " + std::to_string(r.below(20)) + " short " + std::to_string(1 + r.below(20)));
            break;
          case 1:
            p.add("fault 0 write " + std::to_string(r.below(20)) + " fail " + std::to_string(EINTR));
            break;
          case 2:
            p.add("fault 0 openw 0 fail " + std::to_string(r.chance(1, 2) ? EACCES : EROFS));
            break;
          case 3:
            p.add("fault 0 close " + std::to_string(1 + r.below(2)) + " lose " + std::to_string(1 + r.below(60)));
            break;
          case 4:
            p.add("fault 0 rename 0 fail " + std::to_string(r.chance(1, 2) ? EIO : ENOSPC));
            break;
          case 5:
            p.add("fault 0 write " + std::to_string(r.below(30)) + " torn " + std::to_string(1 + r.below(20)));
            break;
          default:
            p.add("fault 0 write " + std::to_string(r.chance(1, 3) ? r.below(4) : r.below(40)) +
                  (r.chance(2, 3) ? " fail+ " : " fail ") + std::to_string(r.chance(3, 4) ? ENOSPC : EIO));
        }
    }
    return p;
  }
  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    Outcome o;
    const Variant& v = VAR[p.cfgi("variant")];
    iosim::World w(scratch, &o);
    w.load_plan(p);
    std::string t = plan_text(p), file = w.root + "/cloud.pts", geo = file + ".geo";
    iosim::spit(file, t);
    domref::Cloud ref = domref::parse_pts(t, v.s, v.f32);
    std::string st = p.cfg("stale", "none");
    Rng r(p.cfgi("staleseed"));
    if (st == "other" || st == "longer" || st == "prefix" || st == "readonly")
    {
      std::string q = good_pts(r, v, false, st != "longer");
      domref::Cloud oc = domref::parse_pts(q, v.s, v.f32);
      if (!oc.points.empty())
      {
        std::string g = geo_of(oc);
        if (st == "prefix")
          g = g.substr(0, r.below(g.size()));
        iosim::spit(geo, g);
      }
    }
    else if (st == "garbage")
      iosim::spit(geo, "not a domain\n");
    else if (st == "empty")
      iosim::spit(geo, "");
    w.add([&]() { return v.fn(file); });
    w.start(0);
    w.run();
    auto& a = w.actors[0];
    o.counters[std::string("cloud:") + (ref.kind == domref::GOOD ? "good" : ref.kind == domref::BAD ? "bad" : "grey")]++;
    o.counters["damage:" + p.cfg("what")]++;
    o.counters["stale:" + st]++;
    o.counters[std::string("end:") + iosim::end_name(a.end)]++;
    o.nontrivial = ref.kind == domref::BAD || !o.faults.empty() || st != "none";
    Hash h;
    h.add(ref.why);
    h.add(v.s);
    h.add(st);
    h.add(w.hard_fault);
    h.add(a.end);
    h.add(ref.edges.size());
    o.states.push_back(h.h);
    if (a.end == iosim::E_HANG)
      o.violate("hang", "the load did not end within its CPU budget");
    else if (a.end == iosim::E_CRASH && ref.kind != domref::GREY)
      o.violate("undiagnosed-crash", "the load died on signal " + std::to_string(WTERMSIG(a.status)) + " without a diagnostic: " + a.err.substr(0, 300));
    else if (a.end == iosim::E_RETURNED)
    {
      std::string d;
      if (ref.kind == domref::BAD)
        o.violate("bad-cloud-accepted", "point file must be refused (" + ref.why + "), yet a graph was returned:\n" + a.result);
      else if (ref.kind == domref::GOOD && !(d = domref::graph_differs(ref, untext(a.result))).empty())
        o.violate(w.hard_fault ? "wrong-graph-after-io-error" : "wrong-graph", d + "; returned:\n" + a.result);
    }
    else if (ref.kind == domref::GOOD && !w.hard_fault)
      o.violate("good-cloud-refused", "a valid cloud was refused: " + a.err.substr(0, 300) + a.result);
    if (iosim::slurp(file) != t)
      o.violate("input-modified", "the load changed the point file");
    return o;
  }
};

struct C03 : Sim
{
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int vi = variant1(r);
    p.set("variant", vi);
    int n = 2 + (int)r.below(thorough ? 3 : 2);
    p.set("actors", n);
    std::string t = good_pts(r, VAR[vi], false, true);
    add_text(p, t);
    const char* stale[] = {"none", "none", "none", "garbage", "same"};
    p.set("stale", stale[r.below(5)]);
    for (int i = 0; i < n; ++i)
      if (r.chance(1, 3))
      {
        const char* ops[] = {"openr", "openw", "read", "write", "write", "write", "close", "rename", "stat", "start"};
        const char* op = ops[r.below(10)];
        bool wr = std::string(op) == "write";
        p.add("fault " + std::to_string(i) + " " + op + " " + std::to_string(r.below(wr ? 30 : 3)) + " " +
              (wr && r.chance(1, 2) ? "killt " : "kill ") + std::to_string(r.below(40)));
      }
    for (int i = 0; i < n; ++i)
      if (r.chance(1, 6))
      {
        const char* ops[] = {"openw", "write", "write", "write", "close", "rename", "openr", "read"};
        std::string op = ops[r.below(8)];
        p.add("fault " + std::to_string(i) + " " + op + " " + std::to_string(r.below(op == "write" ? 30 : 2)) +
              (op == "write" && r.chance(1, 2) ? " torn " + std::to_string(1 + r.below(20)) : (op == "write" && r.chance(1, 2) ? " fail+ " : " fail ") + std::to_string(r.chance(1, 2) ? ENOSPC : EIO)));
      }
    for (int i = 0; i < n; ++i)
      if (r.chance(1, 4))
        p.add("fault " + std::to_string(i) + " read 0 short+ " + std::to_string(20 + r.below(200)));
    // Bursts of different length: long solo runs and tight alternation both matter.
    std::string s = "sched";
    int len = 40 * n;
    for (int k = 0; k < len;)
    {
      int c = (int)r.below(6), b = 1 + (int)r.below(r.chance(1, 2) ? 3 : 25);
      for (int q = 0; q < b && k < len; ++q, ++k)
        s += " " + std::to_string(c);
    }
    p.add(s);
    return p;
  }
  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    Outcome o;
    const Variant& v = VAR[p.cfgi("variant")];
    iosim::World w(scratch, &o);
    w.load_plan(p);
    std::string t = plan_text(p), file = w.root + "/cloud.pts", geo = file + ".geo";
    iosim::spit(file, t);
    domref::Cloud ref = domref::parse_pts(t, v.s, v.f32);
    if (ref.kind != domref::GOOD)
      return o;  // only reached while minimising
    if (p.cfg("stale") == "garbage")
      iosim::spit(geo, "not a domain\n");
    else if (p.cfg("stale") == "same")
      iosim::spit(geo, geo_of(ref));
    int n = (int)p.cfgi("actors");
    std::set<int> failing;  // loaders whose own disk operations fail
    for (auto& q : p.all("fault"))
      if (q.size() >= 5 && q[4] != "kill" && q[4] != "killt" && q[4] != "short+")
        failing.insert(atoi(q[1].c_str()));
    auto judge = [&](int i)
    {
      auto& a = w.actors[i];
      if (a.end != iosim::E_RETURNED)
        return;
      std::string d = domref::graph_differs(ref, untext(a.result));
      if (!d.empty())
        o.violate("torn-graph-returned", "loader " + std::to_string(i) + ": " + d + "; returned:\n" + a.result);
      Domain f = domref::parse_geo(iosim::slurp(geo), 1, v.s, v.f32);
      if (f.kind != domref::GOOD || !domref::graph_differs(ref, f).empty())
        o.violate("torn-graph-file", "after loader " + std::to_string(i) + " returned, the graph file is not complete (" + f.why + "):\n" + iosim::slurp(geo));
    };
    w.on_end = judge;
    for (int i = 0; i < n; ++i)
      w.add([&]() { return v.fn(file); });
    for (int i = 0; i < n; ++i)
      w.start(i);
    w.run();
    bool all_ok = true;
    for (int i = 0; i < n; ++i)
    {
      auto& a = w.actors[i];
      o.counters[std::string("end:") + iosim::end_name(a.end)]++;
      if (a.end == iosim::E_CRASH || a.end == iosim::E_HANG)
        o.violate("undiagnosed-crash", "loader died without diagnostic: " + a.err.substr(0, 300));
      all_ok &= a.end == iosim::E_RETURNED || a.end == iosim::E_KILLED;
      if (a.refused() && failing.count(i))
        o.counters["refused after its own disk error"]++;
      else if (a.refused())
        o.violate("concurrent-load-refused", "only other processes were killed or met disk errors, yet loader " + std::to_string(i) + " was refused: " + a.err.substr(0, 300) + a.result);
    }
    o.counters[std::string("order-switches")] += std::count_if(w.order.begin() + 1, w.order.end(), [&](const char& c) { return c != *(&c - 1); });
    o.nontrivial = true;
    Hash h;
    h.add(w.order);
    o.states.push_back(h.h);
    // Once everything has stopped, a new load succeeds.
    int k = w.add([&]() { return v.fn(file); });
    w.start(k);
    w.run();
    auto& a = w.actors[k];
    if (a.end != iosim::E_RETURNED)
      o.violate("no-recovery", "a load after all others ended did not return: " + a.err.substr(0, 300) + a.result);
    if (iosim::slurp(file) != t)
      o.violate("input-modified", "a load changed the point file");
    return o;
  }
};

int main(int argc, char** argv)
{
  C01 c1;
  C02 c2;
  C03 c3;
  int prop = sim_property();
  return sim_main(argc, argv, prop == 1 ? (Sim&)c1 : prop == 2 ? (Sim&)c2 : (Sim&)c3);
}
