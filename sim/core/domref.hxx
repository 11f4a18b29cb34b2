// Reference reading of domain (.geo) and point cloud (.pts) files, independent of the library.
// A file is GOOD (the result is fully determined), BAD (no reading of it is legitimate: it must be
// refused) or GREY (tolerant and strict readers may differ: not judged).
#pragma once
#include "simcore.hxx"

#include <cmath>

namespace domref
{
enum Kind
{
  GOOD,
  BAD,
  GREY
};
struct Domain
{
  Kind kind = GOOD;
  std::string why;
  unsigned n_edges = 0, n_nodes = 0, n_points = 0, n_props = 0;
  std::vector<std::vector<double>> points;
  std::vector<std::vector<unsigned>> nodes, faces, verts;
  std::vector<std::vector<double>> props;
  bool has_props = false;
  std::string text() const
  {
    std::ostringstream s;
    char b[64];
    s << "E " << n_edges << " N " << n_nodes << " P " << n_points << " prop " << n_props << "\n";
    auto rowd = [&](const char* t, const std::vector<std::vector<double>>& m)
    {
      s << t << " " << m.size() << "\n";
      for (auto& r : m)
      {
        for (double d : r)
        {
          snprintf(b, sizeof b, " %a", d);
          s << b;
        }
        s << "\n";
      }
    };
    auto rowu = [&](const char* t, const std::vector<std::vector<unsigned>>& m)
    {
      s << t << " " << m.size() << "\n";
      for (auto& r : m)
      {
        for (unsigned d : r)
          s << " " << d;
        s << "\n";
      }
    };
    rowd("points", points);
    rowu("nodes", nodes);
    rowu("faces", faces);
    rowu("verts", verts);
    rowd("props", props);
    return s.str();
  }
};
inline std::vector<std::string> split_lines(const std::string& t)
{
  std::vector<std::string> v;
  size_t i = 0;
  while (i < t.size())
  {
    size_t j = t.find('\n', i);
    if (j == std::string::npos)
      j = t.size();
    v.push_back(t.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
inline std::string first_word(const std::string& l)
{
  auto w = sim::words(l);
  return w.empty() ? "" : w[0];
}
/// 0: not a number at all, 1: number with junk behind it (or odd), 2: number. Plain decimal only.
inline int num(const std::string& t, bool flt, double& v)
{
  size_t i = 0;
  if (i < t.size() && (t[i] == '-' || t[i] == '+'))
    ++i;
  size_t d = 0;
  while (i < t.size() && isdigit((unsigned char)t[i]))
    ++i, ++d;
  if (flt && i < t.size() && t[i] == '.')
  {
    ++i;
    while (i < t.size() && isdigit((unsigned char)t[i]))
      ++i, ++d;
  }
  if (d == 0)
  {
    // Spellings that some readers take for numbers (inf, nan, a lone sign) are not judged.
    size_t k = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
    if (k >= t.size() || strchr("iInN.+-", t[k]) != nullptr)
      return 1;
    return 0;
  }
  if (flt && i < t.size() && (t[i] == 'e' || t[i] == 'E'))
  {
    size_t k = i + 1, dd = 0;
    if (k < t.size() && (t[k] == '-' || t[k] == '+'))
      ++k;
    while (k < t.size() && isdigit((unsigned char)t[k]))
      ++k, ++dd;
    if (dd == 0)
      return 1;
    i = k;
  }
  if (i != t.size())
    return 1;
  v = strtod(t.c_str(), nullptr);
  if (!std::isfinite(v) || d > 40)
    return 1;
  if (v != 0 && (std::fabs(v) > 1e30 || std::fabs(v) < 1e-30))
    return 1;
  if (!flt && (t[0] == '+' || t[0] == '-' || v > 4e9))
    return 1;
  if (flt && t[0] == '+')
    return 1;
  return 2;
}
template <typename T>
struct Parser
{
  std::vector<std::string> L;
  size_t cur = 0;
  Kind kind = GOOD;
  std::string why;
  std::vector<std::string> keys;
  void bad(const std::string& w)
  {
    if (kind != BAD)
      why = w;
    kind = BAD;
  }
  void grey(const std::string& w)
  {
    if (kind == GOOD)
    {
      kind = GREY;
      why = w;
    }
  }
  bool is_key(const std::string& w) const { return std::find(keys.begin(), keys.end(), w) != keys.end(); }
  /// Find the line whose first word is key; junk other than blank and comment lines on the way is grey.
  long find(const std::string& key)
  {
    for (size_t i = cur; i < L.size(); ++i)
    {
      std::string w = first_word(L[i]);
      if (w == key)
      {
        cur = i + 1;
        return (long)i;
      }
      if (!w.empty() && w[0] != '#')
        grey("junk line");
    }
    return -1;
  }
  bool anywhere(const std::string& key) const
  {
    for (auto& l : L)
      if (first_word(l) == key)
        return true;
    return false;
  }
  /// Header value; returns false if unusable.
  bool header(const std::string& key, bool flt, double& v)
  {
    if (!anywhere(key))
    {
      bad("missing " + key);
      return false;
    }
    long i = find(key);
    if (i < 0)
    {
      grey("order of " + key);
      return false;
    }
    auto w = sim::words(L[i]);
    if (w.size() < 2 || w[1] != "=")
    {
      // "=" lost or glued: only a line without any digit behind the keyword is certainly bad.
      std::string rest = L[i].substr(L[i].find(key) + key.size());
      size_t h = rest.find('#');
      if (h != std::string::npos)
        rest = rest.substr(0, h);
      bool digit = false;
      for (char c : rest)
        digit |= isdigit((unsigned char)c) != 0;
      if (!digit)
        bad("no value for " + key);
      else
        grey("header form");
      return false;
    }
    if (w.size() < 3)
    {
      bad("no value for " + key);
      return false;
    }
    std::string t = w[2];
    if (!t.empty() && t.back() == ';')
      t.pop_back();
    int k = num(t, flt, v);
    if (k == 0)
      bad("no number for " + key);
    else if (k == 1)
      grey("odd number for " + key);
    return k == 2;
  }
  /// n data lines with m numbers each, directly behind the section keyword.
  bool table(const std::string& key, size_t n, size_t m, bool flt, bool extra_ok,
             std::vector<std::vector<double>>& out)
  {
    if (!anywhere(key))
    {
      bad("missing " + key);
      return false;
    }
    long i = find(key);
    if (i < 0)
    {
      grey("order of " + key);
      return false;
    }
    // Number of lines of this section that hold anything (up to the next keyword).
    size_t filled = 0, tokens = 0;
    for (size_t j = cur; j < L.size(); ++j)
    {
      auto w = sim::words(L[j]);
      if (!w.empty() && is_key(w[0]))
        break;
      if (!w.empty() && w[0][0] != '#')
      {
        ++filled;
        tokens += w.size();
      }
    }
    out.clear();
    for (size_t k = 0; k < n; ++k)
    {
      if (cur >= L.size())
      {
        bad("section " + key + " ends early");
        return false;
      }
      auto w = sim::words(L[cur]);
      if (w.size() < m)
      {
        if ((w.empty() && filled >= n) || tokens >= n * m)
          grey("line break or blank line inside section");
        else
          bad("short line in " + key);
        return false;
      }
      std::vector<double> row(m);
      for (size_t j = 0; j < m; ++j)
      {
        int q = num(w[j], flt, row[j]);
        if (q == 0)
        {
          if (filled > n || (w[0][0] == '#' && filled >= n))
            grey("unreadable line with lines to spare");
          else
            bad("not a number in " + key);
          return false;
        }
        if (q == 1)
        {
          grey("odd number in " + key);
          return false;
        }
      }
      if (w.size() > m && !extra_ok && w[m][0] != '#')
        grey("extra tokens");
      out.push_back(row);
      ++cur;
    }
    return true;
  }
};
template <typename T>
inline bool unique_rows(std::vector<std::vector<T>> v)
{
  std::sort(v.begin(), v.end());
  return std::adjacent_find(v.begin(), v.end()) == v.end();
}
inline double as_scalar(double v, bool flt32, const std::string&) { return flt32 ? (double)(float)v : v; }

/// Reference reading of a domain file. float32: coordinates are stored in single precision.
inline Domain parse_geo(const std::string& text, unsigned edge_dim, unsigned space_dim, bool float32)
{
  Domain d;
  Parser<int> p;
  p.keys = {"Space_Dim", "HyperEdge_Dim", "N_Points", "N_HyperNodes", "N_HyperEdges", "POINTS:", "HYPERNODES_OF_HYPEREDGES:", "TYPES_OF_HYPERFACES:", "POINTS_OF_HYPEREDGES:", "HYPEREDGE_PROPERTIES:"};
  p.L = split_lines(text);
  for (auto& k : p.keys)
  {
    int c = 0;
    for (auto& l : p.L)
      c += first_word(l) == k;
    if (c > 1)
      p.grey("repeated keyword");
    if (c == 0 && k != "HYPEREDGE_PROPERTIES:")
      p.bad("missing " + k);
  }
  for (char c : text)
    if ((unsigned char)c > 126 || (c < 32 && c != '\n' && c != ' ' && c != '\t'))
      p.grey("odd bytes");
  auto done = [&]()
  {
    d.kind = p.kind;
    d.why = p.why;
    return d;
  };
  if (p.kind == BAD)
    return done();
  double v;
  double sd, ed, np, nn, ne;
  bool ok = p.header("Space_Dim", false, sd);
  if (ok && sd != space_dim)
    p.bad("Space_Dim");
  ok = ok && p.header("HyperEdge_Dim", false, ed);
  if (ok && ed != edge_dim)
    p.bad("HyperEdge_Dim");
  ok = ok && p.header("N_Points", false, np);
  if (ok && np == 0)
    p.bad("N_Points");
  ok = ok && p.header("N_HyperNodes", false, nn);
  if (ok && nn == 0)
    p.bad("N_HyperNodes");
  ok = ok && p.header("N_HyperEdges", false, ne);
  if (ok && ne == 0)
    p.bad("N_HyperEdges");
  if (!ok || p.kind == BAD)
    return done();
  d.n_points = (unsigned)np;
  d.n_nodes = (unsigned)nn;
  d.n_edges = (unsigned)ne;
  std::vector<std::vector<double>> t;
  if (!p.table("POINTS:", d.n_points, space_dim, true, false, t))
    return done();
  d.points = t;
  if (float32)
    for (auto& r : d.points)
      for (auto& x : r)
        x = (double)(float)x;
  auto toU = [](const std::vector<std::vector<double>>& m)
  {
    std::vector<std::vector<unsigned>> r;
    for (auto& a : m)
    {
      r.emplace_back();
      for (double x : a)
        r.back().push_back((unsigned)x);
    }
    return r;
  };
  if (!p.table("HYPERNODES_OF_HYPEREDGES:", d.n_edges, 2 * edge_dim, false, false, t))
    return done();
  d.nodes = toU(t);
  if (!p.table("TYPES_OF_HYPERFACES:", d.n_edges, 2 * edge_dim, false, false, t))
    return done();
  d.faces = toU(t);
  if (!p.table("POINTS_OF_HYPEREDGES:", d.n_edges, 1u << edge_dim, false, false, t))
    return done();
  d.verts = toU(t);
  if (p.anywhere("HYPEREDGE_PROPERTIES:"))
  {
    long i = p.find("HYPEREDGE_PROPERTIES:");
    if (i < 0)
    {
      p.grey("order of properties");
      return done();
    }
    auto w = sim::words(p.L[i]);
    if (w.size() < 2)
    {
      p.bad("no number of properties");
      return done();
    }
    int q = num(w[1], false, v);
    if (q == 0)
      p.bad("number of properties");
    if (q == 1 || v < 1)
      p.grey("number of properties");
    if (q != 2 || v < 1)
      return done();
    d.n_props = (unsigned)v;
    d.has_props = true;
    --p.cur;
    if (!p.table("HYPEREDGE_PROPERTIES:", d.n_edges, d.n_props, true, false, t))
      return done();
    d.props = t;
    if (float32)
      for (auto& r : d.props)
        for (auto& x : r)
          x = (double)(float)x;
  }
  for (size_t i = p.cur; i < p.L.size(); ++i)
  {
    std::string w = first_word(p.L[i]);
    if (!w.empty() && w[0] != '#')
      p.grey("trailing lines");
  }
  for (auto* m : {&d.nodes, &d.verts})
    for (auto& r : *m)
    {
      auto s = r;
      std::sort(s.begin(), s.end());
      if (std::adjacent_find(s.begin(), s.end()) != s.end())
        p.bad("repeated index in hyperedge");
      for (unsigned x : r)
        if (x >= (m == &d.nodes ? d.n_nodes : d.n_points))
          p.bad("index out of range");
    }
  if (!unique_rows(d.points))
    p.bad("repeated point");
  if (!unique_rows(d.nodes))
    p.bad("repeated hyperedge");
  if (!unique_rows(d.verts))
    p.bad("repeated hyperedge points");
  return done();
}

struct Cloud
{
  Kind kind = GOOD;
  std::string why;
  double eps = 0;
  std::vector<std::vector<double>> points;
  std::set<std::pair<int, int>> edges;  // i < j
};
inline Cloud parse_pts(const std::string& text, unsigned dim, bool float32)
{
  Cloud c;
  Parser<int> p;
  p.keys = {"Space_Dim", "Epsilon", "POINTS:"};
  p.L = split_lines(text);
  auto done = [&]()
  {
    c.kind = p.kind;
    c.why = p.why;
    return c;
  };
  for (auto& k : p.keys)
  {
    int n = 0;
    for (auto& l : p.L)
      n += first_word(l) == k;
    if (n > 1)
      p.grey("repeated keyword");
    if (n == 0)
      p.bad("missing " + k);
  }
  for (char ch : text)
    if ((unsigned char)ch > 126 || (ch < 32 && ch != '\n' && ch != ' ' && ch != '\t'))
      p.grey("odd bytes");
  if (p.kind == BAD)
    return done();
  double sd, eps;
  bool ok = p.header("Space_Dim", false, sd);
  if (ok && sd != dim)
    p.bad("Space_Dim");
  ok = ok && p.header("Epsilon", true, eps);
  if (ok && eps <= 0)
    p.bad("Epsilon");
  if (!ok || p.kind == BAD)
    return done();
  c.eps = float32 ? (double)(float)eps : eps;
  if (p.find("POINTS:") < 0)
  {
    p.grey("order");
    return done();
  }
  size_t n = p.L.size() - p.cur;
  if (n == 0)
  {
    p.bad("no points");
    return done();
  }
  if (p.L[p.cur - 1].size() == 0)
    p.grey("?");
  for (size_t k = p.cur; k < p.L.size(); ++k)
  {
    auto w = sim::words(p.L[k]);
    if (w.empty())
    {
      p.grey("blank line");
      return done();
    }
    if (w[0][0] == '#')
    {
      p.grey("comment among points");
      return done();
    }
    if (w.size() < dim)
    {
      p.bad("short point");
      return done();
    }
    std::vector<double> row(dim);
    for (unsigned j = 0; j < dim; ++j)
    {
      int q = num(w[j], true, row[j]);
      if (q == 0)
        p.bad("not a number");
      else if (q == 1)
        p.grey("odd number");
      if (q != 2)
        return done();
      if (float32)
        row[j] = (double)(float)row[j];
    }
    c.points.push_back(row);
  }
  if (!unique_rows(c.points))
  {
    p.bad("repeated point");
    return done();
  }
  std::sort(c.points.begin(), c.points.end());
  int m = (int)c.points.size();
  if (m == 1)
    p.grey("single point");
  std::vector<int> comp(m);
  bool ambiguous = false;
  for (int i = 0; i < m; ++i)
    comp[i] = i;
  std::function<int(int)> root = [&](int i) { return comp[i] == i ? i : comp[i] = root(comp[i]); };
  for (int i = 0; i < m; ++i)
    for (int j = i + 1; j < m; ++j)
    {
      long double s = 0;
      for (unsigned k = 0; k < dim; ++k)
      {
        long double x = (long double)c.points[i][k] - (long double)c.points[j][k];
        s += x * x;
      }
      long double dist = std::sqrt(s), e = c.eps;
      bool near = std::fabs((double)(dist - e)) <= (float32 ? 1e-5 : 1e-12) * (double)e;
      bool edge;
      if (near)
      {
        // Judge ties only where all arithmetic is exact: small multiples of 1/8.
        bool exact = (double)e * 8 == std::floor((double)e * 8) && (double)e < 100;
        for (unsigned k = 0; k < dim; ++k)
          for (double x : {c.points[i][k], c.points[j][k]})
            exact &= x * 8 == std::floor(x * 8) && std::fabs(x) < 100;
        if (exact && s == e * e)
          edge = true;
        else
        {
          p.grey("distance too close to epsilon");
          ambiguous = true;
          edge = dist < e;
        }
      }
      else
        edge = dist < e;
      if (edge)
      {
        c.edges.insert({i, j});
        comp[root(i)] = root(j);
      }
    }
  for (int i = 1; i < m; ++i)
    if (root(i) != root(0) && !ambiguous)
    {
      p.bad("not connected");
      break;
    }
  return done();
}
/// Does the loaded domain equal the cloud's neighbourhood graph? Empty string if so.
inline std::string graph_differs(const Cloud& c, const Domain& d)
{
  if (d.n_points != c.points.size() || d.points.size() != c.points.size())
    return "number of points";
  if (d.n_nodes != c.points.size())
    return "number of hypernodes";
  if (d.n_edges != c.edges.size() || d.nodes.size() != c.edges.size() || d.verts.size() != c.edges.size() || d.faces.size() != c.edges.size())
    return "number of hyperedges is " + std::to_string(d.n_edges) + ", expected " + std::to_string(c.edges.size());
  std::map<std::vector<double>, int> idx;
  for (size_t i = 0; i < c.points.size(); ++i)
    idx[c.points[i]] = (int)i;
  std::vector<int> to(d.points.size());
  std::set<int> seen;
  for (size_t i = 0; i < d.points.size(); ++i)
  {
    auto it = idx.find(d.points[i]);
    if (it == idx.end())
    {
      char b[200];
      snprintf(b, sizeof b, "point %zu (%.17g, ...) is not a point of the file", i, d.points[i][0]);
      return b;
    }
    to[i] = it->second;
    if (!seen.insert(it->second).second)
      return "point listed twice";
  }
  std::set<std::pair<int, int>> got;
  for (size_t e = 0; e < d.nodes.size(); ++e)
  {
    if (d.nodes[e] != d.verts[e])
      return "hypernodes and points of a hyperedge disagree";
    unsigned a = d.verts[e][0], b = d.verts[e][1];
    if (a >= to.size() || b >= to.size())
      return "index out of range";
    int x = to[a], y = to[b];
    if (x > y)
      std::swap(x, y);
    if (!c.edges.count({x, y}))
      return "edge between points that are not neighbours";
    if (!got.insert({x, y}).second)
      return "edge listed twice";
  }
  if (got.size() != c.edges.size())
    return "missing edges";
  return "";
}
}  // namespace domref
