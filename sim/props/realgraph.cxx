// Real hypergraphs for C09-C12 (own translation unit, built in parallel with loops.cxx).
#ifdef NO_REALGRAPH
#include "core/alloc.hxx"
#include "core/realgraph.hxx"
namespace mock
{
const Shape& any_shape(int shape) { return shapes()[shape]; }
bool real_available() { return false; }
bool reads_file(int) { return false; }
std::unique_ptr<IProblem> make_real(int, int, uint64_t, unsigned, long, int) { abort(); }
Level real_level(int, uint64_t, unsigned) { abort(); }
}  // namespace mock
#else
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "core/alloc.hxx"
#include <HyperHDG/hy_assert.hxx>
// The library composes the text of an assertion even if it holds, which takes most of the time here.
#undef hy_assert
#define hy_assert(Expr, Msg)                                       \
  {                                                                \
    if (!(Expr))                                                   \
    {                                                              \
      std::cerr << "Assert failed:  " << Msg << std::endl << #Expr \
                << " in " << __FILE__ << ":" << __LINE__ << "\n"; \
      abort();                                                     \
    }                                                              \
  }                                                                \
  static_assert(true, "")
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include "core/realgraph.hxx"

#ifndef REPO_DIR
#define REPO_DIR "/repo"
#endif

namespace mock
{
namespace
{
template <unsigned ed, unsigned sd>
struct CubicGraph
{
  using Topo = ::Topology::Cubic<ed, sd>;
  using Geom = ::Geometry::UnitCube<ed, sd>;
  using Node = ::NodeDescriptor::Cubic<ed, sd>;
  static constexpr bool real = true, file = false;
  static SmallVec<sd, unsigned int> topo_arg(uint64_t seed, unsigned)
  {
    SmallVec<sd, unsigned int> n;
    for (unsigned d = 0; d < sd; ++d)
      n[d] = 1 + (unsigned)(hsh(seed, d, 51) % (ed == 1 ? 4 : hsh(seed, 52) % 6 == d ? 2 : 1));
    return n;
  }
};
template <unsigned ed, unsigned sd>
struct FileGraph
{
  using Topo = ::Topology::File<ed, sd>;
  using Geom = ::Geometry::File<ed, sd>;
  using Node = ::NodeDescriptor::File<ed, sd>;
  static constexpr bool real = true, file = true;
  static std::string topo_arg(uint64_t seed, unsigned)
  {
    allocsim::Pause pause;
    if (ed == 1 && hsh(seed, 53) % 8 == 0)
    {
      static const char* shipped[] = {"simplex_1_2.geo", "injection_test.geo"};
      return std::string(REPO_DIR) + "/domains/" + shipped[hsh(seed, 54) % 2];
    }
    std::string name = real_dir + "/real_" + std::to_string(ed) + "_" + std::to_string(seed) + ".geo";
    Level l = make_level(seed, ed, 0);
    if (l.edges.size() > (ed == 1 ? 12u : 6u))
      l.edges.resize(ed == 1 ? 12 : 6);
    std::set<std::vector<unsigned>> known;
    std::vector<std::vector<unsigned>> edges, types;
    std::map<unsigned, unsigned> number;
    for (unsigned e = 0; e < l.edges.size(); ++e)
      if (known.insert(l.edges[e]).second)
      {
        edges.push_back({});
        for (unsigned n : l.edges[e])
          edges.back().push_back(number.emplace(n, (unsigned)number.size()).first->second);
        types.push_back(l.types[e]);
      }
    bool own_points = ed > 1 || hsh(seed, 55) % 2;
    std::vector<std::array<double, sd>> points;
    std::vector<std::vector<unsigned>> of_edge;
    if (!own_points)
      for (unsigned i = 0; i < number.size(); ++i)
      {
        std::array<double, sd> p{};
        p[0] = i;
        p[1] = (double)(hsh(seed, i, 56) % 16) / 4;
        points.push_back(p);
      }
    for (unsigned e = 0; e < edges.size(); ++e)
    {
      of_edge.push_back({});
      if (!own_points)
      {
        of_edge.back() = edges[e];
        continue;
      }
      for (unsigned k = 0; k < (1u << ed); ++k)
      {
        std::array<double, sd> p{};
        for (unsigned d = 0; d < sd; ++d)
          p[d] = d == 0 ? 8. * e : (double)(hsh(seed, e, d, 57) % 33) - 16;
        for (unsigned d = 0; d < ed; ++d)
          if ((k >> d) & 1u)
          {
            p[d] += 1 + (double)(hsh(seed, e, d, 58) % 4);
            p[sd - 1] += (double)(hsh(seed, e, d, 59) % 3);
          }
        of_edge.back().push_back((unsigned)points.size());
        points.push_back(p);
      }
    }
    std::ofstream f(name);
    f << "Space_Dim = " << sd << ";\nHyperEdge_Dim = " << ed << ";\nN_Points = " << points.size() << ";\nN_HyperNodes = " << number.size() << ";\nN_HyperEdges = " << edges.size() << ";\n\nPOINTS:\n";
    for (auto& p : points)
    {
      for (double x : p)
        f << x << " ";
      f << "\n";
    }
    auto table = [&](const char* title, const std::vector<std::vector<unsigned>>& t)
    {
      f << "\n" << title << ":\n";
      for (auto& row : t)
      {
        for (unsigned x : row)
          f << x << " ";
        f << "\n";
      }
    };
    table("HYPERNODES_OF_HYPEREDGES", edges);
    table("TYPES_OF_HYPERFACES", types);
    table("POINTS_OF_HYPEREDGES", of_edge);
    f.close();
    return name;
  }
};
template <class G, unsigned ed, unsigned sd>
struct Structure
{
  typedef std::vector<long> Pos;
  typename G::Topo& t;
  typename G::Geom& g;
  typename G::Node& n;
  unsigned sub;
  static Pos pos(const Point<sd, double>& p)
  {
    Pos r;
    for (unsigned d = 0; d < sd; ++d)
      r.push_back(std::lround(p[d] * 1e5));
    return r;
  }
  Pos face(unsigned e, unsigned i) const { return pos(Point<sd, double>(g[e].face_barycenter(i))); }
  /// What must be true of every refined hypergraph, whatever the numbering; empty if it is.
  std::string problem() const
  {
    unsigned ne = t.n_hyEdges(), nn = t.n_hyNodes(), per = 1;
    for (unsigned d = 0; d < ed; ++d)
      per *= sub;
    if (ne % per)
      return "number of hyperedges is no multiple of the subdivision";
    std::vector<char> used(nn, 0);
    std::map<Pos, unsigned> where, where_edge;
    std::map<unsigned, Pos> at;
    double area = 0;
    for (unsigned e = 0; e < ne; ++e)
    {
      if (G::file && e % per == 0)
      {
        where.clear();
        where_edge.clear();
        at.clear();
      }
      auto topo = t[e];
      auto geom = g[e];
      auto node = n[e];
      auto idx = topo.get_hyNode_indices();
      SmallVec<1, float> half;
      half[0] = 0.5f;
      if (!where_edge.emplace(pos(geom.template lexicographic<1>(0, half)), e).second)
        return "two hyperedges cover the same place";
      area += geom.area();
      for (unsigned i = 0; i < 2 * ed; ++i)
      {
        if (idx[i] >= nn)
          return "a hypernode index is out of range";
        used[idx[i]] = 1;
        Pos p = face(e, i);
        auto w = where.emplace(p, idx[i]);
        if (w.first->second != idx[i])
          return "one face carries two hypernodes";
        auto a = at.emplace(idx[i], p);
        if (a.first->second != p)
          return "one hypernode lies at two places";
        if constexpr (!G::file)
        {
          unsigned normal = 0;
          Pos opposite = face(e, i ^ 1u);
          for (unsigned d = 0; d < sd; ++d)
            if (opposite[d] != p[d])
              normal = d;
          auto k = t.n_elements();
          double c = (double)p[normal] * 1e-5 * k[normal];
          bool inside = std::fabs(c - std::lround(c)) > 1e-3;
          unsigned type = 0, pow3 = 1;
          for (unsigned d = 0; d < sd && !inside; ++d, pow3 *= 3)
            type += p[d] == 0 ? pow3 : p[d] == 100000 ? 2 * pow3 : 0;
          if (node[i] != type)
            return "a face has type " + std::to_string(node[i]) + " instead of " + std::to_string(type);
        }
      }
    }
    for (char u : used)
      if (!u)
        return "a hypernode belongs to no hyperedge";
    if constexpr (!G::file)
    {
      double want = 0;
      auto k = t.n_elements();
      for (unsigned m = 0; m < (1u << sd); ++m)
        if (__builtin_popcount(m) == (int)ed)
        {
          double c = 1;
          for (unsigned d = 0; d < sd; ++d)
            c *= (m >> d) & 1u ? 1. : k[d] + 1.;
          want += c;
        }
      if (std::fabs(area - want) > 1e-6 * want)
        return "the hyperedges cover an area of " + std::to_string(area) + " instead of " + std::to_string(want);
    }
    return "";
  }
};
template <class G, unsigned ed, unsigned sd>
Level level_of(typename G::Topo& t, typename G::Geom& g, typename G::Node& n)
{
  Level l;
  l.n_nodes = t.n_hyNodes();
  Data none;
  struct Edge
  {
    typename G::Topo::value_type topology;
    typename G::Geom::value_type geometry;
    typename G::Node::value_type node_descriptor;
  };
  for (unsigned e = 0; e < t.n_hyEdges(); ++e)
  {
    Edge x{t[e], g[e], n[e]};
    auto idx = x.topology.get_hyNode_indices();
    l.edges.push_back({});
    l.types.push_back({});
    for (unsigned i = 0; i < 2 * ed; ++i)
    {
      l.edges.back().push_back(idx[i]);
      l.types.back().push_back(x.node_descriptor[i]);
    }
    l.keys.push_back(hyperedge_key<ed>(x));
  }
  return l;
}
template <class G, unsigned ed, unsigned sd>
Level fresh(uint64_t seed, unsigned level)
{
  allocsim::Pause pause;
  typename G::Topo t(G::topo_arg(seed, 0));
  typename G::Geom g(t);
  typename G::Node n(t);
  if (level > 0)
  {
    t.set_refinement(level + 1);
    g.set_refinement(level + 1);
    n.set_refinement(level + 1);
  }
  Level l = level_of<G, ed, sd>(t, g, n);
  l.problem = Structure<G, ed, sd>{t, g, n, level + 1}.problem();
  // Parts made from a topology that is already refined, and copies, must describe the same hypergraph.
  typename G::Topo t2(t);
  typename G::Geom g2(t2);
  typename G::Node n2(t2);
  if (l.problem.empty() && level_of<G, ed, sd>(t2, g2, n2).keys != l.keys)
    l.problem = "geometry or node types made from a refined topology differ";
  return l;
}
template <template <class, class, class, class, typename, typename> class P, int K>
std::unique_ptr<IProblem> make_real_k(int shape, uint64_t seed, unsigned level, long coef, int ctor)
{
  switch (shape - first_real_shape)
  {
    case 1: return std::make_unique<Problem<P, K, 2, 3, 1, 2, 1, double, true, CubicGraph<2, 3>>>(seed, level, coef, ctor);
    case 2: return std::make_unique<Problem<P, K, 3, 3, 1, 1, 1, double, true, CubicGraph<3, 3>>>(seed, level, coef, ctor);
    case 3: return std::make_unique<Problem<P, K, 1, 2, 1, 1, 1, double, true, FileGraph<1, 2>>>(seed, level, coef, ctor);
    case 4: return std::make_unique<Problem<P, K, 2, 3, 3, 1, 1, double, true, FileGraph<2, 3>>>(seed, level, coef, ctor);
    default: return std::make_unique<Problem<P, K, 1, 2, 2, 1, 1, double, true, CubicGraph<1, 2>>>(seed, level, coef, ctor);
  }
}
}  // namespace
const Shape& any_shape(int shape)
{
  static const std::vector<Shape> real = {
    {1, 2, 2, 1, 1, false, true}, {2, 3, 1, 2, 1, false, true}, {3, 3, 1, 1, 1, false, true}, {1, 2, 1, 1, 1, false, true}, {2, 3, 3, 1, 1, false, true}};
  return shape >= first_real_shape ? real[shape - first_real_shape] : shapes()[shape];
}
bool real_available() { return true; }
bool reads_file(int shape) { return shape >= first_real_shape + 3; }
std::unique_ptr<IProblem> make_real(int kind, int shape, uint64_t seed, unsigned level, long coef, int ctor)
{
  switch (kind)
  {
    case ELLIPTIC: return make_real_k<GlobalLoop::Elliptic, ELLIPTIC>(shape, seed, level, coef, ctor);
    case PARABOLIC: return make_real_k<GlobalLoop::Parabolic, PARABOLIC>(shape, seed, level, coef, ctor);
    case NONLINEAR: return make_real_k<GlobalLoop::NonlinearEigenvalue, NONLINEAR>(shape, seed, level, coef, ctor);
    case MASSAPPROX: return make_real_k<GlobalLoop::MassApproxEigenvalue, MASSAPPROX>(shape, seed, level, coef, ctor);
    default: return make_real_k<GlobalLoop::ShiftedInverseEigenvalue, SHIFTED>(shape, seed, level, coef, ctor);
  }
}
Level real_level(int shape, uint64_t seed, unsigned level)
{
  switch (shape - first_real_shape)
  {
    case 1: return fresh<CubicGraph<2, 3>, 2, 3>(seed, level);
    case 2: return fresh<CubicGraph<3, 3>, 3, 3>(seed, level);
    case 3: return fresh<FileGraph<1, 2>, 1, 2>(seed, level);
    case 4: return fresh<FileGraph<2, 3>, 2, 3>(seed, level);
    default: return fresh<CubicGraph<1, 2>, 1, 2>(seed, level);
  }
}
}  // namespace mock
#endif
