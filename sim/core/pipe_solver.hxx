// C15: the library's problem objects with its own local solvers behind the simulator's interface.
// Included by one translation unit per family of solvers (their headers define the same names).
#pragma once
#include "core/pipe.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <tpp/quadrature/tensorial.hxx>
#include <tpp/shape_function/shape_function.hxx>

namespace pipe_sim
{
template <unsigned sd, typename F = double>
struct Params
{
  typedef std::array<unsigned int, 26U> Types;
  static constexpr Types dirichlet_nodes{1,  2,  3,  4,  5,  6,  7,  8,  9,  10, 11, 12, 13,
                                         14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26};
  static constexpr Types dirichlet_laplacian_nodes = dirichlet_nodes;
  static constexpr std::array<unsigned int, 0U> neumann_nodes{}, neumann_laplacian_nodes{}, outflow_nodes{};
  static constexpr std::array<unsigned int, 0U> boundary_nodes{};
  typedef Point<sd, F> X;
  static F inverse_diffusion_coeff(const X& x, const F t = 0.) { tick(); return 1. / k_of(*cur, x, t); }
  static F diffusion_coeff(const X& x, const F t = 0.) { tick(); return k_of(*cur, x, t); }
  static F inverse_bilaplacian_coefficient(const X& x, const F t = 0.) { tick(); return 1. / k_of(*cur, x, t); }
  static F reaction_rate(const X&, const F t = 0.) { tick(); return cur->react * (1 + cur->kt * t); }
  static SmallVec<sd, F> advective_velocity(const X&, const F t = 0.) { tick(); return velo(t); }
  static SmallVec<sd, F> velocity(const X&, const F t = 0.) { tick(); return velo(t); }
  static SmallVec<sd, F> velo(const F t)
  {
    SmallVec<sd, F> v;
    for (unsigned d = 0; d < sd; ++d)
      v[d] = cur->vel[d] * (1 + cur->kt * t);
    return v;
  }
  static F right_hand_side(const X& x, const F t = 0.) { tick(); return f_of(*cur, x, t); }
  static F dirichlet_value(const X& x, const F t = 0.) { tick(); return u_of(*cur, x, t); }
  static F dirichlet_laplace_value(const X& x, const F t = 0.) { tick(); return -k_of(*cur, x, t) * lap_of(*cur, x); }
  static F neumann_value(const X&, const F = 0.) { return 0.; }
  static F initial(const X& x, const F t = 0.) { tick(); return u_of(*cur, x, t); }
  static F initial_laplace(const X& x, const F t = 0.) { tick(); return -k_of(*cur, x, t) * lap_of(*cur, x); }
  static F analytic_result(const X& x, const F t = 0.) { tick(); return (cur->kind == 5 ? 0. : u_of(*cur, x, t)) + cur->shift; }
};

template <unsigned ed, unsigned sd>
struct CubicMesh
{
  static constexpr unsigned hyEdge_dim = ed, space_dim = sd;
  using Topo = Topology::Cubic<ed, sd>;
  using Geom = Geometry::UnitCube<ed, sd>;
  using Node = NodeDescriptor::Cubic<ed, sd>;
  static typename Topo::constructor_value_type arg(const Spec& s)
  {
    typename Topo::constructor_value_type n;
    for (unsigned d = 0; d < sd; ++d)
      n[d] = s.n[d];
    return n;
  }
};
template <unsigned ed, unsigned sd>
struct FileMesh
{
  static constexpr unsigned hyEdge_dim = ed, space_dim = sd;
  using Topo = Topology::File<ed, sd>;
  using Geom = Geometry::File<ed, sd>;
  using Node = NodeDescriptor::File<ed, sd>;
  static std::string arg(const Spec& s) { return s.file; }
};

template <typename Loop, typename LS>
struct CompBase : IComp
{
  unsigned primal() override { return LS::system_dimension() - 1; }
  std::unique_ptr<Loop> w;
  Vec zero() override { return Vec(w->size_of_system(), 0.); }
  Vec flux(const Vec& x, double t) override { return w->trace_to_flux(x, t); }
  void plot(const Vec& x, double t) override { w->plot_solution(x, t); }
  std::string plot_option(const std::string& o, const std::string& v) override { return w->plot_option(o, v); }
  void refine(unsigned l) override { w->set_refinement(l); }
  unsigned level() override { return w->get_refinement(); }
};
template <typename M, typename LS>
struct EllipticComp : CompBase<GlobalLoop::Elliptic<typename M::Topo, typename M::Geom, typename M::Node, LS>, LS>
{
  using Loop = GlobalLoop::Elliptic<typename M::Topo, typename M::Geom, typename M::Node, LS>;
  explicit EllipticComp(const Spec& s) { this->w = std::make_unique<Loop>(M::arg(s), s.tau); }
  Vec residual(const Vec& x, double t) override { return this->w->residual_flux(x, t); }
  std::vector<double> errors(const Vec& x, double t) override { return this->w->errors(x, t); }
  void matrix(double t, std::vector<unsigned>& r, std::vector<unsigned>& c, Vec& v) override
  {
    auto m = this->w->trace_to_flux_mat(t);
    r = m.get_rows();
    c = m.get_cols();
    v = m.get_values();
  }
  void dirichlet(const std::vector<unsigned>& i) override { this->w->read_dirichlet_indices(i); }
  Vec solve_cg(const Vec& b, double tol) override { return SparseLA::conjugate_gradient(b, *this->w, 4 * b.size() + 50, tol); }
};
template <typename M, typename LS>
struct ParabolicComp : CompBase<GlobalLoop::Parabolic<typename M::Topo, typename M::Geom, typename M::Node, LS>, LS>
{
  using Loop = GlobalLoop::Parabolic<typename M::Topo, typename M::Geom, typename M::Node, LS>;
  explicit ParabolicComp(const Spec& s) { this->w = std::make_unique<Loop>(M::arg(s), std::vector<double>{s.tau, s.theta, s.dt}); }
  Vec residual(const Vec& x, double t) override { return this->w->residual_flux(x, t); }
  std::vector<double> errors(const Vec& x, double t) override { return this->w->errors(x, t); }
  Vec initial(const Vec& x, double t) override { return this->w->make_initial(x, t); }
  void set_data(const Vec& x, double t) override { this->w->set_data(x, t); }
  Vec solve_cg(const Vec& b, double tol) override { return SparseLA::conjugate_gradient(b, *this->w, 4 * b.size() + 50, tol); }
};
template <typename M, typename LS>
struct EigenComp : CompBase<GlobalLoop::NonlinearEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>, LS>
{
  using Loop = GlobalLoop::NonlinearEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>;
  explicit EigenComp(const Spec& s) { this->w = std::make_unique<Loop>(M::arg(s), s.tau); }
  Vec initial(const Vec& x, double t) override { return this->w->make_initial(x, t); }
  Vec jacobian(const Vec& x, double e, const Vec& at, double ea) override { return this->w->jacobian_of_trace_to_flux(x, e, at, ea); }
};
template <typename M, typename LS>
struct MassComp : CompBase<GlobalLoop::MassApproxEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>, LS>
{
  using Loop = GlobalLoop::MassApproxEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>;
  explicit MassComp(const Spec& s) { this->w = std::make_unique<Loop>(M::arg(s), s.tau); }
  Vec mass(const Vec& x, double t) override { return this->w->trace_to_mass_flux(x, t); }
};
template <typename M, typename LS>
struct ShiftedComp : CompBase<GlobalLoop::ShiftedInverseEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>, LS>
{
  using Loop = GlobalLoop::ShiftedInverseEigenvalue<typename M::Topo, typename M::Geom, typename M::Node, LS>;
  explicit ShiftedComp(const Spec& s) { this->w = std::make_unique<Loop>(M::arg(s), s.tau); }
};

template <typename M, typename LS, unsigned deg, unsigned blocks>
Facts facts_of(const Spec& s, double t)
{
  constexpr unsigned ed = M::hyEdge_dim, sd = M::space_dim;
  using Int = TPP::Quadrature::Tensorial<
    TPP::Quadrature::GaussLegendre<2 * deg + 2>,
    TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<deg>, ed>>, double>;
  constexpr unsigned nd = LS::n_glob_dofs_per_node();
  HDGHyperGraph<nd, typename M::Topo, typename M::Geom, typename M::Node> hg(M::arg(s));
  if (s.level != 1)
    hg.set_refinement(s.level);
  Facts f;
  f.trace.assign(hg.n_global_dofs(), 0.);
  f.trace_all = f.trace;
  f.is_dirichlet.assign(hg.n_global_dofs(), 0);
  f.dofs_per_node = nd;
  for (auto it = hg.begin(); it != hg.end(); ++it)
  {
    auto e = *it;
    ++f.n_edges;
    f.measure += std::abs(e.geometry.area());
    auto nodes = e.topology.get_hyNode_indices();
    if constexpr (ed == 1)
    {
      f.ends.push_back({(unsigned)nodes[0], (unsigned)nodes[1]});
      f.length.push_back(std::abs(e.geometry.area()));
    }
    for (unsigned face = 0; face < 2 * ed; ++face)
    {
      std::array<unsigned, nd> idx;
      hg.hyNode_factory().get_dof_indices(nodes[face], idx);
      bool dir = e.node_descriptor[face] > 0 && e.node_descriptor[face] <= 26;
      for (unsigned j = 0; j < nd; ++j)
      {
        unsigned b = j / (nd / blocks), k = j % (nd / blocks);
        double v = b == 0 ? Int::template integrate_bdrUni_psifunc<Point<sd, double>, decltype(e.geometry), Params<sd>::initial, Point<ed, double>>(k, face, e.geometry, t)
                          : Int::template integrate_bdrUni_psifunc<Point<sd, double>, decltype(e.geometry), Params<sd>::initial_laplace, Point<ed, double>>(k, face, e.geometry, t);
        f.trace_all[idx[j]] = v;
        if (dir)
          f.is_dirichlet[idx[j]] = 1;
      }
    }
  }
  for (size_t i = 0; i < f.trace.size(); ++i)
    f.trace[i] = f.is_dirichlet[i] ? 0. : f.trace_all[i];
  return f;
}
enum Loops { ELL, PAR, EIG };
template <template <typename, typename> class Comp, template <unsigned, unsigned> class Solver, typename M, unsigned deg, unsigned blocks>
bool offer(const Spec& s, int mesh, double t, std::unique_ptr<IComp>* c, Facts* f)
{
  if (s.mesh != mesh || s.deg != (int)deg)
    return false;
  using LS = Solver<M::hyEdge_dim, deg>;
  if (c)
    *c = std::make_unique<Comp<M, LS>>(s);
  if (f)
    *f = facts_of<M, LS, deg, blocks>(s, t);
  return true;
}
}  // namespace pipe_sim
#define PIPE_FAMILY(name, ...)                                                        \
  namespace pipe_sim                                                                  \
  {                                                                                   \
  static bool any_##name(const Spec& s, double t, std::unique_ptr<IComp>* c, Facts* f) \
  {                                                                                   \
    return __VA_ARGS__;                                                               \
  }                                                                                   \
  std::unique_ptr<IComp> make_##name(const Spec& s)                                   \
  {                                                                                   \
    std::unique_ptr<IComp> c;                                                         \
    any_##name(s, 0, &c, nullptr);                                                    \
    return c;                                                                         \
  }                                                                                   \
  Facts facts_##name(const Spec& s, double t)                                         \
  {                                                                                   \
    Facts f;                                                                          \
    any_##name(s, t, nullptr, &f);                                                    \
    return f;                                                                         \
  }                                                                                   \
  }
#define OFFER(Comp, Solver, Mesh, ed, sd, deg, blocks, id) offer<Comp, Solver, Mesh<ed, sd>, deg, blocks>(s, id, t, c, f)
