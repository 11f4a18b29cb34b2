// Simulated surroundings of the real global loops, hypergraph and plot code: topologies, geometries,
// node descriptors and local solvers with integer-exact arithmetic, plus the reference model.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

#include "core/simcore.hxx"

namespace mock
{
using sim::mix64;
inline uint64_t hmix(uint64_t a, uint64_t b) { return mix64(a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull); }
template <typename... T>
inline uint64_t hsh(T... v)
{
  uint64_t h = 77;
  ((h = hmix(h, (uint64_t)v)), ...);
  return h;
}
inline uint64_t tbits(double t)
{
  if (t == 0)
    t = 0;
  uint64_t u;
  memcpy(&u, &t, 8);
  return u;
}

// ------------------------------------------------------------------------------ fault points
struct SimFault : std::runtime_error
{
  SimFault() : std::runtime_error("simulated local solver failure") {}
};
inline thread_local long throw_at = -1;  // local solver call (since armed) that throws
inline long solver_calls = 0;
inline thread_local long refine_throw_at = -1;  // component of set_refinement that throws (0 topology, 1 geometry, 2 nodes)
inline long live_objects = 0;      // simulated objects alive
inline void (*outside_hook)(bool) = nullptr;
struct Outside  // marks code that is not part of the library
{
  Outside()
  {
    if (outside_hook)
      outside_hook(true);
  }
  ~Outside()
  {
    if (outside_hook)
      outside_hook(false);
  }
};
inline void solver_call()
{
  ++solver_calls;
  if (throw_at >= 0 && throw_at-- == 0)
    throw SimFault();
}
inline thread_local std::vector<uint64_t>* data_log = nullptr;  // hyperedges (index or key) whose data was stored, in order
inline void stored(uint64_t edge)
{
  if (data_log)
  {
    allocsim::Pause p;
    data_log->push_back(edge);
  }
}
inline thread_local std::string confusion;  // set when the library mixes up hyperedges
struct Counted
{
  Counted() { ++live_objects; }
  Counted(const Counted&) { ++live_objects; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --live_objects; }
};

// ------------------------------------------------------------------------------ graphs
struct Level
{
  unsigned n_nodes = 0;
  std::vector<std::vector<unsigned>> edges;
  std::vector<std::vector<unsigned>> types;  // per edge and face
  std::vector<uint64_t> keys;                // real hypergraphs: hash of all parts of a hyperedge
  std::string problem;                       // real hypergraphs: what is wrong with it
};
inline Level make_level(uint64_t seed, unsigned edge_dim, unsigned level)
{
  Outside outside;
  Level l;
  sim::Rng r(hsh(seed, edge_dim, level, 5));
  unsigned nf = 2 * edge_dim;
  unsigned ne = 1 + (unsigned)r.below(3 + 2 * level + (r.chance(1, 6) ? 8 : 0));
  if (hsh(seed, 6) % 30 == 0)
    ne = 1 + (unsigned)r.below(hsh(seed, 6) % 300 == 0 ? 1300 : 150);
  l.n_nodes = nf + (unsigned)r.below(1 + ne * (1 + r.below(2)));
  // Sometimes another number of hyperedges for the same number of hypernodes, and vice versa.
  std::vector<unsigned> type_of(l.n_nodes);
  for (auto& t : type_of)
    t = r.chance(1, 3) ? 1 : (unsigned)(2 * r.below(2));
  for (unsigned e = 0; e < ne; ++e)
  {
    std::vector<unsigned> all(l.n_nodes);
    for (unsigned i = 0; i < l.n_nodes; ++i)
      all[i] = i;
    for (unsigned i = 0; i < nf; ++i)
      std::swap(all[i], all[i + r.below(l.n_nodes - i)]);
    all.resize(nf);
    l.edges.push_back(all);
    std::vector<unsigned> t;
    for (unsigned n : all)
      t.push_back(r.chance(1, 8) ? 0 : type_of[n]);
    l.types.push_back(t);
  }
  return l;
}

template <unsigned ed, unsigned sd>
class Topology : Counted
{
  uint64_t seed_;
  unsigned level_ = 0;
  Level l_;

 public:
  struct Spec
  {
    uint64_t seed;
    unsigned level;
  };
  struct Edge
  {
    unsigned index, level;
    std::vector<unsigned> nodes;
    SmallVec<2 * ed, unsigned int> get_hyNode_indices() const
    {
      Outside outside;
      SmallVec<2 * ed, unsigned int> r;
      for (unsigned i = 0; i < 2 * ed; ++i)
        r[i] = nodes[i];
      return r;
    }
  };
  typedef Edge value_type;
  typedef Spec constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return ed; }
  static constexpr unsigned int space_dim() { return sd; }
  Topology(const Spec& s) : seed_(s.seed), level_(s.level), l_(make_level(s.seed, ed, s.level)) {}
  const value_type operator[](const unsigned int i) const
  {
    Outside outside;
    if (i >= l_.edges.size())
    {
      confusion = "hyperedge index out of range";
      return Edge{0, level_, l_.edges[0]};
    }
    return Edge{i, level_, l_.edges[i]};
  }
  unsigned int n_hyEdges() const { return (unsigned)l_.edges.size(); }
  unsigned int n_hyNodes() const { return l_.n_nodes; }
  unsigned int get_refinement() const { return level_; }
  void set_refinement(unsigned int level)
  {
    if (refine_throw_at == 0)
      throw SimFault();
    Level n = make_level(seed_, ed, level);
    l_ = n;
    level_ = level;
  }
  uint64_t seed() const { return seed_; }
};

template <unsigned ed, unsigned sd>
class Geometry : Counted
{
  uint64_t seed_;
  unsigned level_;

 public:
  typedef typename Topology<ed, sd>::Spec constructor_value_type;
  struct Edge
  {
    uint64_t seed;
    unsigned index, level;
    double base(unsigned d) const { return (double)(hsh(seed, level, index, d, 11) % 801) - 400.; }
    template <unsigned n, typename vec>
    Point<sd, float> lexicographic(unsigned int pt, const vec& s) const
    {
      Outside outside;
      Point<sd, float> p;
      for (unsigned d = 0; d < sd; ++d)
      {
        p[d] = (float)base(d);
        if (d < ed)
        {
          p[d] += 16 * s[pt % n];
          pt /= n;
        }
      }
      return p;
    }
    template <unsigned n, typename vec>
    Point<sd, float> boundary_lexicographic(unsigned int pt, unsigned int face, float bscale, const vec& s) const
    {
      Outside outside;
      Point<sd, float> p;
      for (unsigned d = 0; d < sd; ++d)
      {
        p[d] = (float)base(d);
        if (d == face / 2)
          p[d] += 16 * (0.5f + ((float)(face % 2) - 0.5f) * bscale);
        else if (d < ed)
        {
          p[d] += 16 * s[pt % n];
          pt /= n;
        }
      }
      return p;
    }
  };
  typedef Edge value_type;
  static constexpr unsigned int hyEdge_dim() { return ed; }
  static constexpr unsigned int space_dim() { return sd; }
  Geometry(const constructor_value_type& s) : seed_(s.seed), level_(s.level) {}
  Geometry(const Topology<ed, sd>& t) : seed_(t.seed()), level_(t.get_refinement()) {}
  const value_type operator[](const unsigned int i) const { return Edge{seed_, i, level_}; }
  void set_refinement(unsigned int level)
  {
    if (refine_throw_at == 1)
      throw SimFault();
    level_ = level;
  }
  unsigned int get_refinement() const { return level_; }
};

template <unsigned ed, unsigned sd>
class Nodes : Counted
{
  uint64_t seed_;
  unsigned level_;
  Level l_;

 public:
  typedef typename Topology<ed, sd>::Spec constructor_value_type;
  struct Edge
  {
    unsigned index, level;
    std::vector<unsigned> types;
    unsigned operator[](unsigned i) const { return types[i]; }
  };
  typedef Edge value_type;
  Nodes(const Topology<ed, sd>& t) : seed_(t.seed()), level_(t.get_refinement()), l_(make_level(t.seed(), ed, t.get_refinement())) {}
  const value_type operator[](const unsigned int i) const
  {
    return Edge{i, level_, i < l_.types.size() ? l_.types[i] : std::vector<unsigned>(2 * ed, 0)};
  }
  void set_refinement(unsigned int level)
  {
    if (refine_throw_at == 2)
      throw SimFault();
    l_ = make_level(seed_, ed, level);
    level_ = level;
  }
  unsigned int get_refinement() const { return level_; }
};

// ------------------------------------------------------------------------------ local arithmetic
/// Everything a local contribution may depend on; shared by the simulated solver and the model.
struct Ctx
{
  uint64_t seed;    // of the graph, or key of a real hyperedge (0 if the solver is not given the hyperedge)
  unsigned level, edge;
  uint64_t data;    // hyperedge data
  long coef;        // construction argument of the local solver
  /// What may enter values that all hyperedges of a hypernode have to agree upon.
  Ctx node(bool simulated) const { return simulated ? *this : Ctx{0, 0, 0, 0, coef}; }
};
template <unsigned ed, typename edge_t>
uint64_t hyperedge_key(const edge_t& e)
{
  uint64_t h = 41;
  auto nodes = e.topology.get_hyNode_indices();
  for (unsigned i = 0; i < 2 * ed; ++i)
    h = hsh(h, nodes[i], e.node_descriptor[i]);
  SmallVec<2, float> corners;
  corners[0] = 0;
  corners[1] = 1;
  for (unsigned k = 0; k < (1u << ed); ++k)
  {
    auto p = e.geometry.template lexicographic<2>(k, corners);
    for (unsigned d = 0; d < p.size(); ++d)
      h = hsh(h, tbits((double)p[d]));
  }
  auto g = e.geometry;
  if constexpr (requires { g.extra_data(); })
    if (g.has_extra_data())
      for (auto x : g.extra_data())
        h = hsh(h, tbits((double)x));
  return h | 1;
}
inline long kfun(const Ctx& c, unsigned kind, unsigned n, unsigned d, unsigned m, unsigned e, double time)
{
  return (long)(hsh(c.seed, c.level, c.edge, c.data, c.coef, kind, n, d, m, e, tbits(time)) % 7) - 3;
}
inline uint64_t data_step(const Ctx& c, const std::vector<double>& dofs, double time)
{
  uint64_t h = hsh(c.data, c.edge, c.seed, c.level, c.coef, tbits(time), 33);
  for (double x : dofs)
    h = hmix(h, tbits(x));
  return h;
}
inline uint64_t data_init(const Ctx& c, double time) { return hsh(c.edge, c.seed, c.level, c.coef, tbits(time), 34); }
inline double init_val(const Ctx& c, unsigned node, unsigned d, double time, double in)
{
  return (double)(hsh(c.seed, c.level, c.coef, node, d, tbits(time), 35) % 19) - 9 + 3 * in;
}
inline double plot_val(const Ctx& c, const std::vector<double>& dofs, const std::vector<float>& absc, unsigned d, unsigned corner, double time)
{
  uint64_t h = hsh(c.seed, c.level, c.edge, c.data, c.coef, d, corner, tbits(time), 36);
  for (double x : dofs)
    h = hmix(h, tbits(x));
  for (float x : absc)
    h = hmix(h, tbits(x));
  double v = (double)(h % 1997) - 998;
  // Three decimal digits of any magnitude.
  static const double pow10[] = {1e-30, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e30};
  uint64_t k = (h >> 32) % 33;
  return k < 11 ? v * pow10[k] : v;
}

struct Data
{
  uint64_t hist = 0;
  long updates = 0, inits = 0;
  std::vector<long> payload = std::vector<long>(3, 0);
};

template <unsigned ed, unsigned nd, unsigned sysdim, unsigned nodesys, typename scalar, bool with_edge>
class Solver : Counted
{
  long coef_ = 0;
  using dofs_t = std::array<std::array<scalar, nd>, 2 * ed>;
  Ctx ctx() const { return Ctx{0, 0, 0, 0, coef_}; }
  template <typename edge_t>
  Ctx ctx(const edge_t& e) const
  {
    Outside outside;
    if constexpr (!requires { e.topology.index; })
    {
      allocsim::Pause pause;
      return Ctx{hyperedge_key<ed>(e), 0, 0, e.data.hist, coef_};
    }
    else
    {
    if (e.topology.index != e.geometry.index || e.topology.index != e.node_descriptor.index)
      confusion = "the parts of one hyperedge belong to different hyperedges";
    if (e.topology.level != e.geometry.level || e.topology.level != e.node_descriptor.level)
      confusion = "the parts of one hyperedge belong to different refinement levels";
    return Ctx{e.geometry.seed, e.geometry.level, e.topology.index, e.data.hist, coef_};
    }
  }
  static std::vector<double> flat(const dofs_t& d)
  {
    std::vector<double> r;
    for (auto& a : d)
      for (auto x : a)
        r.push_back((double)x);
    return r;
  }
  dofs_t& apply(const Ctx& c, unsigned kind, const dofs_t& o, dofs_t& w, double time) const
  {
    Outside outside;
    solver_call();
    for (unsigned n = 0; n < 2 * ed; ++n)
      for (unsigned d = 0; d < nd; ++d)
        for (unsigned m = 0; m < 2 * ed; ++m)
          for (unsigned e = 0; e < nd; ++e)
            w[n][d] += (scalar)kfun(c, kind, n, d, m, e, time) * o[m][e];
    return w;
  }
  dofs_t& residual(const Ctx& c, const dofs_t& o, dofs_t& w, double time) const
  {
    apply(c, 1, o, w, time);
    for (unsigned n = 0; n < 2 * ed; ++n)
      for (unsigned d = 0; d < nd; ++d)
        w[n][d] += (scalar)kfun(c, 2, n, d, 0, 0, time);
    return w;
  }

 public:
  typedef Data data_type;
  typedef long constructor_value_type;
  struct error_def
  {
    typedef std::array<scalar, 2> error_t;
    static error_t initial_error() { return error_t{(scalar)1, (scalar)-2}; }
    static error_t sum_error(const error_t& a, const error_t& b) { return error_t{a[0] + b[0], a[1] + b[1]}; }
    static error_t postprocess_error(const error_t& a) { return error_t{a[0] * 2, a[1] * 4}; }
  };
  Solver(const long& c = 0) : coef_(c) {}
  static constexpr unsigned int hyEdge_dim() { return ed; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return sysdim; }
  static constexpr unsigned int node_system_dimension() { return nodesys; }

#define MOCK_APPLY(name, kind)                                                        \
  template <typename edge_t>                                                          \
  dofs_t& name(dofs_t& o, dofs_t& w, edge_t& h, const scalar time) const requires(with_edge) \
  {                                                                                   \
    return apply(ctx(h), kind, o, w, time);                                           \
  }                                                                                   \
  dofs_t& name(dofs_t& o, dofs_t& w, const scalar time) const requires(!with_edge)    \
  {                                                                                   \
    return apply(ctx(), kind, o, w, time);                                            \
  }
  MOCK_APPLY(trace_to_flux, 0)
  MOCK_APPLY(trace_to_mass_flux, 3)
#undef MOCK_APPLY
  template <typename edge_t>
  dofs_t& residual_flux(dofs_t& o, dofs_t& w, edge_t& h, const scalar time) const requires(with_edge)
  {
    return residual(ctx(h), o, w, time);
  }
  dofs_t& residual_flux(dofs_t& o, dofs_t& w, const scalar time) const requires(!with_edge)
  {
    return residual(ctx(), o, w, time);
  }
  template <typename edge_t>
  dofs_t& jacobian_of_trace_to_flux(dofs_t& o, dofs_t& w, const scalar eig, dofs_t& v, const scalar eigv, edge_t& h) const requires(with_edge)
  {
    apply(ctx(h), 4, o, w, eig);
    return apply(ctx(h), 5, v, w, eigv);
  }
  dofs_t& jacobian_of_trace_to_flux(dofs_t& o, dofs_t& w, const scalar eig, dofs_t& v, const scalar eigv) const requires(!with_edge)
  {
    apply(ctx(), 4, o, w, eig);
    return apply(ctx(), 5, v, w, eigv);
  }
  template <typename edge_t>
  typename error_def::error_t errors(dofs_t& o, edge_t& h, const scalar time) const requires(with_edge)
  {
    return err(ctx(h), o, time);
  }
  typename error_def::error_t errors(dofs_t& o, const scalar time) const requires(!with_edge) { return err(ctx(), o, time); }
  typename error_def::error_t err(const Ctx& c, const dofs_t& o, double time) const
  {
    Outside outside;
    solver_call();
    typename error_def::error_t r{0, 0};
    for (unsigned m = 0; m < 2 * ed; ++m)
      for (unsigned e = 0; e < nd; ++e)
      {
        r[0] += (scalar)kfun(c, 6, 0, 0, m, e, time) * o[m][e];
        r[1] += (scalar)kfun(c, 7, 0, 0, m, e, time) * o[m][e] + 1;
      }
    return r;
  }
  template <typename edge_t>
  void set_data(dofs_t& o, edge_t& h, const scalar time) const requires(with_edge)
  {
    Outside outside;
    solver_call();
    Ctx c = ctx(h);
    h.data.hist = data_step(c, flat(o), time);
    ++h.data.updates;
    stored(requires { h.topology.index; } ? c.edge : c.seed);
  }
  void set_data(dofs_t& o, const scalar time) const requires(!with_edge)
  {
    Outside outside;
    solver_call();
    stored(data_step(ctx(), flat(o), time));
  }
  template <typename edge_t>
  dofs_t& make_initial(dofs_t& o, edge_t& h, const scalar time) const requires(with_edge)
  {
    Outside outside;
    solver_call();
    Ctx c = ctx(h);
    for (unsigned n = 0; n < 2 * ed; ++n)
      for (unsigned d = 0; d < nd; ++d)
        o[n][d] = (scalar)init_val(c.node(requires { h.topology.index; }), h.topology.get_hyNode_indices()[n], d, time, o[n][d]);
    h.data.hist = data_init(c, time);
    ++h.data.inits;
    stored(requires { h.topology.index; } ? c.edge : c.seed);
    return o;
  }
  dofs_t& make_initial(dofs_t& o, const scalar time) const requires(!with_edge)
  {
    solver_call();
    for (unsigned n = 0; n < 2 * ed; ++n)
      for (unsigned d = 0; d < nd; ++d)
        o[n][d] = (scalar)init_val(ctx(), 0, 0, time, o[n][d]);
    return o;
  }
  template <typename edge_t>
  std::array<unsigned int, 2 * ed> node_types(edge_t& h) const
  {
    Outside outside;
    solver_call();
    ctx(h);
    std::array<unsigned int, 2 * ed> r;
    for (unsigned i = 0; i < 2 * ed; ++i)
      r[i] = h.node_descriptor[i];
    return r;
  }
  template <size_t na, typename edge_t>
  std::array<std::array<scalar, Hypercube<ed>::pow(na)>, sysdim> bulk_values(const std::array<float, na>& a, const dofs_t& o, edge_t& h, const scalar time) const requires(with_edge)
  {
    return bulk<na>(ctx(h), a, o, time);
  }
  template <size_t na>
  std::array<std::array<scalar, Hypercube<ed>::pow(na)>, sysdim> bulk_values(const std::array<float, na>& a, const dofs_t& o, const scalar time) const requires(!with_edge)
  {
    return bulk<na>(ctx(), a, o, time);
  }
  template <size_t na>
  std::array<std::array<scalar, Hypercube<ed>::pow(na)>, sysdim> bulk(const Ctx& c, const std::array<float, na>& a, const dofs_t& o, double time) const
  {
    Outside outside;
    solver_call();
    std::array<std::array<scalar, Hypercube<ed>::pow(na)>, sysdim> r;
    for (unsigned d = 0; d < sysdim; ++d)
      for (unsigned k = 0; k < r[d].size(); ++k)
        r[d][k] = (scalar)plot_val(c, flat(o), std::vector<float>(a.begin(), a.end()), d, k, time);
    return r;
  }
};

// ------------------------------------------------------------------------------ uniform access
enum Kind
{
  ELLIPTIC,
  PARABOLIC,
  NONLINEAR,
  MASSAPPROX,
  SHIFTED,
  N_KINDS
};
enum Fn
{
  F_FLUX,
  F_RESIDUAL,
  F_MASS,
  F_JACOBIAN,
  F_ERRORS,
  F_MAT,
  F_INITIAL,
  F_SETDATA,
  F_DIRICHLET,
  F_N
};
inline const char* kind_name(int k)
{
  static const char* n[] = {"elliptic", "parabolic", "nonlinear_eigenvalue", "mass_approx_eigenvalue", "shifted_inverse_eigenvalue"};
  return n[k];
}
inline const char* fn_name(int f)
{
  static const char* n[] = {"trace_to_flux", "residual_flux", "trace_to_mass_flux", "jacobian_of_trace_to_flux", "errors", "trace_to_flux_mat", "make_initial", "set_data", "dirichlet_indices"};
  return n[f];
}
inline bool has(int kind, int fn)
{
  switch (fn)
  {
    case F_FLUX: return true;
    case F_RESIDUAL: return kind == ELLIPTIC || kind == PARABOLIC;
    case F_MASS: return kind == MASSAPPROX;
    case F_JACOBIAN: return kind == NONLINEAR;
    case F_ERRORS: return kind == ELLIPTIC || kind == PARABOLIC;
    case F_MAT: return kind == ELLIPTIC;
    case F_INITIAL: return kind == PARABOLIC || kind == NONLINEAR;
    case F_SETDATA: return kind == PARABOLIC;
    case F_DIRICHLET: return kind == MASSAPPROX || kind == SHIFTED;
  }
  return false;
}
typedef std::vector<double> Vec;
struct Result
{
  Vec v;                          // vector or matrix values
  std::vector<unsigned> r, c;     // matrix rows and columns
};
struct Shape  // static configuration
{
  unsigned ed, sd, nd, sysdim, nodesys;
  bool f32, with_edge;
};
struct IProblem
{
  Shape sh;
  int kind;
  virtual ~IProblem() {}
  virtual unsigned size() = 0;
  virtual Vec zero() = 0;
  virtual Result call(int fn, const Vec& x, double t, const Vec& x2, double t2) = 0;
  virtual void read_dirichlet(const std::vector<unsigned>&) = 0;
  virtual std::string option(const std::string& o, const std::string& v) = 0;
  virtual void plot_solution(const Vec& x, double t) = 0;
  virtual unsigned get_refinement() = 0;
  virtual void set_refinement(unsigned l) = 0;
};
/// Where topology, geometry and node types come from.
template <unsigned ed, unsigned sd>
struct SimulatedGraph
{
  using Topo = Topology<ed, sd>;
  using Geom = Geometry<ed, sd>;
  using Node = Nodes<ed, sd>;
  static constexpr bool real = false;
  static typename Topo::Spec topo_arg(uint64_t seed, unsigned level) { return typename Topo::Spec{seed, level}; }
};
template <template <class, class, class, class, typename, typename> class P, int K, unsigned ed, unsigned sd, unsigned nd, unsigned sysdim, unsigned nodesys, typename scalar, bool we, class G = SimulatedGraph<ed, sd>>
struct Problem : IProblem
{
  using Topo = typename G::Topo;
  using Geom = typename G::Geom;
  using Node = typename G::Node;
  using Sol = Solver<ed, nd, sysdim, nodesys, scalar, we>;
  using LV = std::vector<scalar>;
  using Prob = P<Topo, Geom, Node, Sol, LV, unsigned int>;
  Prob p;
  static LV in(const Vec& x) { return LV(x.begin(), x.end()); }
  static Vec out(const LV& x) { return Vec(x.begin(), x.end()); }
  static Prob construct(uint64_t seed, unsigned level, long coef, int ctor)
  {
    auto a = G::topo_arg(seed, level);
    if constexpr (std::is_same_v<typename Topo::constructor_value_type, typename Geom::constructor_value_type>)
      if (ctor == 0)
        return Prob(a, a, coef);
    if (ctor != 2)
      return Prob(a, coef);
    return Prob(a);
  }
  Problem(uint64_t seed, unsigned level, long coef, int ctor) : p(construct(seed, level, coef, ctor))
  {
    sh = Shape{ed, sd, nd, sysdim, nodesys, sizeof(scalar) == 4, we};
    kind = K;
    if (G::real && level > 0)
      p.set_refinement(level + 1);
  }
  unsigned size() override { return p.size_of_system(); }
  Vec zero() override
  {
    if constexpr (K == ELLIPTIC || K == PARABOLIC)
      return out(p.zero_vector());
    return Vec(p.size_of_system(), 0.);
  }
  Result call(int fn, const Vec& x, double t, const Vec& x2, double t2) override
  {
    Result r;
    LV a = in(x), b = in(x2);
    const LV a0 = a, b0 = b;
    auto check = [&]()
    {
      if (a != a0 || b != b0)
        confusion = "an argument was modified";
    };
    // Time 0 is also the default.
    bool dflt = t == 0 && !std::signbit(t) && !x.empty() && ((long)x[0] & 1);
#define MOCK_CALL(f) (dflt ? p.f(a) : p.f(a, (scalar)t))
    if (fn == F_FLUX)
      r.v = out(MOCK_CALL(trace_to_flux));
    if constexpr (K == ELLIPTIC || K == PARABOLIC)
    {
      if (fn == F_RESIDUAL)
        r.v = out(MOCK_CALL(residual_flux));
      if (fn == F_ERRORS)
        r.v = out(MOCK_CALL(errors));
    }
    if constexpr (K == ELLIPTIC)
      if (fn == F_MAT)
      {
        auto m = dflt ? p.trace_to_flux_mat() : p.trace_to_flux_mat((scalar)t);
        r.v = out(m.get_values());
        r.r = m.get_rows();
        r.c = m.get_cols();
      }
    if constexpr (K == MASSAPPROX)
      if (fn == F_MASS)
        r.v = out(MOCK_CALL(trace_to_mass_flux));
    if constexpr (K == NONLINEAR)
      if (fn == F_JACOBIAN)
        r.v = out(p.jacobian_of_trace_to_flux(a, (scalar)t, b, (scalar)t2));
    if constexpr (K == NONLINEAR || K == PARABOLIC)
      if (fn == F_INITIAL)
        r.v = out(MOCK_CALL(make_initial));
    if constexpr (K == PARABOLIC)
      if (fn == F_SETDATA)
        MOCK_CALL(set_data);
#undef MOCK_CALL
    if constexpr (K == MASSAPPROX || K == SHIFTED)
      if (fn == F_DIRICHLET)
        r.r = p.dirichlet_indices();
    check();
    return r;
  }
  void read_dirichlet(const std::vector<unsigned>& i) override
  {
    if constexpr (K == ELLIPTIC)
      p.read_dirichlet_indices(i);
  }
  std::string option(const std::string& o, const std::string& v) override { return p.plot_option(o, v); }
  void plot_solution(const Vec& x, double t) override
  {
    LV a = in(x);
    const LV a0 = a;
    if (t == 0 && !std::signbit(t) && !x.empty() && ((long)x[0] & 1))
      p.plot_solution(a);
    else
      p.plot_solution(a, (scalar)t);
    if (a != a0)
      confusion = "an argument was modified";
  }
  unsigned get_refinement() override { return p.get_refinement() - G::real; }
  void set_refinement(unsigned l) override { p.set_refinement(l + G::real); }
};
inline const std::vector<Shape>& shapes()
{
  static const std::vector<Shape> s = {
    {1, 2, 1, 1, 1, false, true}, {2, 3, 2, 4, 1, false, true}, {3, 3, 1, 1, 1, false, true},
    {1, 3, 3, 1, 3, true, true},  {2, 2, 1, 2, 3, false, false}};
  return s;
}
template <template <class, class, class, class, typename, typename> class P, int K>
std::unique_ptr<IProblem> make_k(int shape, uint64_t seed, unsigned level, long coef, int ctor)
{
  switch (shape)
  {
#ifndef MOCK_FEW_SHAPES
    case 1: return std::make_unique<Problem<P, K, 2, 3, 2, 4, 1, double, true>>(seed, level, coef, ctor);
    case 2: return std::make_unique<Problem<P, K, 3, 3, 1, 1, 1, double, true>>(seed, level, coef, ctor);
    case 4: return std::make_unique<Problem<P, K, 2, 2, 1, 2, 3, double, false>>(seed, level, coef, ctor);
#endif
    case 3: return std::make_unique<Problem<P, K, 1, 3, 3, 1, 3, float, true>>(seed, level, coef, ctor);
    default: return std::make_unique<Problem<P, K, 1, 2, 1, 1, 1, double, true>>(seed, level, coef, ctor);
  }
}
/// ctor: 0 all arguments, 1 without geometry, 2 without geometry and local solver (coef must be 0).
inline std::unique_ptr<IProblem> make(int kind, int shape, uint64_t seed, unsigned level, long coef, int ctor)
{
  switch (kind)
  {
    case ELLIPTIC: return make_k<GlobalLoop::Elliptic, ELLIPTIC>(shape, seed, level, coef, ctor);
    case PARABOLIC: return make_k<GlobalLoop::Parabolic, PARABOLIC>(shape, seed, level, coef, ctor);
    case NONLINEAR: return make_k<GlobalLoop::NonlinearEigenvalue, NONLINEAR>(shape, seed, level, coef, ctor);
    case MASSAPPROX: return make_k<GlobalLoop::MassApproxEigenvalue, MASSAPPROX>(shape, seed, level, coef, ctor);
    default: return make_k<GlobalLoop::ShiftedInverseEigenvalue, SHIFTED>(shape, seed, level, coef, ctor);
  }
}

// ------------------------------------------------------------------------------ reference model
struct Model
{
  Shape sh;
  int kind;
  uint64_t seed;
  unsigned level;
  long coef;
  Level l;
  std::vector<uint64_t> data;
  std::vector<unsigned> prescribed;  // given by the user (elliptic)
  Level (*real_level)(int, uint64_t, unsigned) = nullptr;
  int shape = -1;
  Model(int kind_, const Shape& s, uint64_t seed_, unsigned lev, long coef_, Level (*real)(int, uint64_t, unsigned) = nullptr, int shape_ = -1)
  : sh(s), kind(kind_), seed(seed_), level(lev), coef(coef_), real_level(real), shape(shape_)
  {
    reset();
  }
  /// Index of the hyperedge the simulated solver named.
  unsigned edge_of(uint64_t key) const
  {
    if (l.keys.empty())
      return (unsigned)key;
    for (unsigned e = 0; e < l.keys.size(); ++e)
      if (l.keys[e] == key)
        return e;
    return ~0u;
  }
  void reset()
  {
    l = real_level ? real_level(shape, seed, level) : make_level(seed, sh.ed, level);
    data.assign(l.edges.size(), 0);
  }
  void refine(unsigned lev)
  {
    level = lev;
    reset();
  }
  unsigned size() const { return l.n_nodes * sh.nd; }
  Ctx ctx(unsigned e) const
  {
    if (!sh.with_edge)
      return Ctx{0, 0, 0, 0, coef};
    if (!l.keys.empty())
      return Ctx{l.keys[e], 0, 0, data[e], coef};
    return Ctx{seed, level, e, data[e], coef};
  }
  Vec gather(unsigned e, const Vec& x) const
  {
    Vec r;
    for (unsigned n : l.edges[e])
      for (unsigned d = 0; d < sh.nd; ++d)
        r.push_back(x[n * sh.nd + d]);
    return r;
  }
  void apply(unsigned kind_, const Vec& x, double t, Vec& y) const
  {
    for (unsigned e = 0; e < l.edges.size(); ++e)
      for (unsigned n = 0; n < 2 * sh.ed; ++n)
        for (unsigned d = 0; d < sh.nd; ++d)
          for (unsigned m = 0; m < 2 * sh.ed; ++m)
            for (unsigned f = 0; f < sh.nd; ++f)
              y[l.edges[e][n] * sh.nd + d] += (double)kfun(ctx(e), kind_, n, d, m, f, t) * x[l.edges[e][m] * sh.nd + f];
  }
  Vec expect(int fn, const Vec& x, double t, const Vec& x2, double t2) const
  {
    Vec y(size(), 0.);
    switch (fn)
    {
      case F_FLUX:
        apply(0, x, t, y);
        break;
      case F_RESIDUAL:
        apply(1, x, t, y);
        for (unsigned e = 0; e < l.edges.size(); ++e)
          for (unsigned n = 0; n < 2 * sh.ed; ++n)
            for (unsigned d = 0; d < sh.nd; ++d)
              y[l.edges[e][n] * sh.nd + d] += (double)kfun(ctx(e), 2, n, d, 0, 0, t);
        break;
      case F_MASS:
        apply(3, x, t, y);
        break;
      case F_JACOBIAN:
        apply(4, x, t, y);
        apply(5, x2, t2, y);
        break;
      case F_ERRORS:
      {
        Vec r{1, -2};
        for (unsigned e = 0; e < l.edges.size(); ++e)
          for (unsigned m = 0; m < 2 * sh.ed; ++m)
            for (unsigned f = 0; f < sh.nd; ++f)
            {
              r[0] += (double)kfun(ctx(e), 6, 0, 0, m, f, t) * x[l.edges[e][m] * sh.nd + f];
              r[1] += (double)kfun(ctx(e), 7, 0, 0, m, f, t) * x[l.edges[e][m] * sh.nd + f] + 1;
            }
        r[0] *= 2;
        r[1] *= 4;
        return r;
      }
      case F_INITIAL:
        for (unsigned e = 0; e < l.edges.size(); ++e)
          for (unsigned n : l.edges[e])
            for (unsigned d = 0; d < sh.nd; ++d)
              y[n * sh.nd + d] = init_val(ctx(e).node(l.keys.empty()), sh.with_edge ? n : 0, sh.with_edge ? d : 0, t, kind == PARABOLIC ? 0 : x[n * sh.nd + d]);
        return y;
    }
    if (kind == ELLIPTIC && (fn == F_FLUX || fn == F_RESIDUAL))
      for (unsigned i : prescribed)
        if (i < y.size())
          y[i] = 0;
    return y;
  }
  /// Dense matrix of the flux operator, row major.
  Vec matrix(double t) const
  {
    unsigned n = size();
    Vec a((size_t)n * n, 0.);
    for (unsigned e = 0; e < l.edges.size(); ++e)
      for (unsigned k = 0; k < 2 * sh.ed; ++k)
        for (unsigned d = 0; d < sh.nd; ++d)
          for (unsigned m = 0; m < 2 * sh.ed; ++m)
            for (unsigned f = 0; f < sh.nd; ++f)
              a[(size_t)(l.edges[e][k] * sh.nd + d) * n + l.edges[e][m] * sh.nd + f] += (double)kfun(ctx(e), 0, k, d, m, f, t);
    return a;
  }
  std::vector<unsigned> dirichlet() const
  {
    std::set<unsigned> s;
    for (unsigned e = 0; e < l.edges.size(); ++e)
      for (unsigned i = 0; i < 2 * sh.ed; ++i)
        if (l.types[e][i] == 1)
          for (unsigned d = 0; d < sh.nd; ++d)
            s.insert(l.edges[e][i] * sh.nd + d);
    return std::vector<unsigned>(s.begin(), s.end());
  }
  /// only: hyperedges updated before the call failed, or null for all.
  void set_data(const Vec& x, double t, const std::set<unsigned>* only = nullptr)
  {
    if (!sh.with_edge)
      return;
    for (unsigned e = 0; e < l.edges.size(); ++e)
      if (!only || only->count(e))
        data[e] = data_step(ctx(e), gather(e, x), t);
  }
  void init_data(double t, const std::set<unsigned>* only = nullptr)
  {
    if (!sh.with_edge)
      return;
    for (unsigned e = 0; e < l.edges.size(); ++e)
      if (!only || only->count(e))
        data[e] = data_init(ctx(e), t);
  }
};
/// Power of two by which all entries of a vector are scaled (sums stay exact).
inline int vec_exp(uint64_t seed, bool f32)
{
  unsigned c = (unsigned)(hsh(seed, 95) % 10), q = (unsigned)(hsh(seed, 96) % 100);
  if (f32)
    return c < 7 ? 0 : (int)(q % 9) - 4;
  return c < 7 ? 0 : c == 7 ? -(int)(30 + q % 9) : c == 8 ? (int)(q % 21) - 10 : (int)(q % 21);
}
inline Vec make_vec(uint64_t seed, unsigned n, int exp = 0)
{
  Vec v(n, 0.);
  unsigned cls = (unsigned)(hsh(seed, 92) % 8);  // full, mostly zero, one entry, zero
  double s = std::ldexp(1., exp);
  for (unsigned i = 0; i < n; ++i)
    if (cls < 5 || (cls == 5 && hsh(seed, i, 93) % 4 == 0) || (cls == 6 && i == hsh(seed, 94) % n))
      v[i] = s * ((double)(hsh(seed, i, 91) % 19) - 9);
  return v;
}
inline double make_time(sim::Rng& r) { return (double)r.range(-80, 800) / (r.chance(1, 3) ? 1 : 8); }
inline std::string show(const Vec& v)
{
  std::ostringstream s;
  for (double x : v)
    s << " " << x;
  return s.str();
}
}  // namespace mock
