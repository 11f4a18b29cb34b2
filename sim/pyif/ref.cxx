// Reference: the same C++ problem object, called directly (no Python, no Cython). One library per configuration.
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include HEADER
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <cstring>
#include <memory>
#include "simparams.hxx"
typedef GlobalLoop::LOOP<Topology::TOPO, Geometry::GEOM, NodeDescriptor::NODE, LocalSolver::SOLVER> Loop;
typedef std::vector<double> Vec;
typedef std::vector<unsigned int> Ind;
struct Out
{
  Vec v;
  Ind a, b;
  std::string s;
  std::string error;
  long n;
};
static Out* out = nullptr;
struct Obj
{
  std::unique_ptr<Topology::TOPO> keep;
  std::unique_ptr<Loop> w;
};
template <typename F>
static int guarded(F&& f)  // calls may be nested in each other
{
  auto mine = std::make_unique<Out>();
  int status = 1;
  try
  {
    f(mine.get());
    status = 0;
  }
  catch (std::exception& e)
  {
    mine->error = e.what();
  }
  catch (...)
  {
    mine->error = "?";
  }
  delete out;
  out = mine.release();
  return status;
}
template <typename L, typename T, typename G, typename S>
static Obj* construct(int n_args, const char* topo, const char* geom, const unsigned* tv, int nt, const unsigned* gv, int ng, const double* ls, int nl)
{
  auto o = std::make_unique<Obj>();
  typename S::constructor_value_type l;
  if constexpr (std::is_same_v<decltype(l), std::vector<double>>)
    l.assign(ls, ls + nl);
  else
    l = nl ? ls[0] : 0.;
  if constexpr (std::is_same_v<typename T::constructor_value_type, std::string>)
  {
    std::string t = topo;
    if (n_args == 1)
      o->w = std::make_unique<L>(t);
    else if (n_args == 2)
      o->w = std::make_unique<L>(t, l);
    else
    {
      o->keep = std::make_unique<T>(std::string(geom));
      o->w = std::make_unique<L>(t, *o->keep, l);
    }
  }
  else
  {
    Ind t(tv, tv + nt), g(gv, gv + ng);
    if (n_args == 1)
      o->w = std::make_unique<L>(t);
    else if (n_args == 2)
      o->w = std::make_unique<L>(t, l);
    else
      o->w = std::make_unique<L>(t, g, l);
  }
  return o.release();
}
extern "C"
{
  void ref_clear()
  {
    delete out;
    out = nullptr;
  }
  const double* ref_vec(long* n) { *n = out->v.size(); return out->v.data(); }
  const unsigned* ref_a(long* n) { *n = out->a.size(); return out->a.data(); }
  const unsigned* ref_b(long* n) { *n = out->b.size(); return out->b.data(); }
  const char* ref_s() { return out->s.c_str(); }
  const char* ref_error() { return out->error.c_str(); }
  long ref_n() { return out->n; }
  void* ref_new(int n_args, const char* topo, const char* geom, const unsigned* tv, int nt, const unsigned* gv, int ng, const double* ls, int nl, int* status)
  {
    void* r = nullptr;
    *status = guarded([&](Out*) {
      r = construct<Loop, Topology::TOPO, Geometry::GEOM, LocalSolver::SOLVER>(n_args, topo, geom, tv, nt, gv, ng, ls, nl);
    });
    return r;
  }
  void ref_del(void* o) { delete (Obj*)o; }
  int ref_call(void* o, const char* op, const double* x, long n, int has_time, double t, const double* y, long m, double e,
               const unsigned* ix, long ni, const char* s1, const char* s2)
  {
    std::string f = op;
    auto work = [&](auto& w, Out* out) {
      Vec v(x, x + n), u(y, y + m);
      Ind i(ix, ix + ni);
#define METHOD(name)                                                \
  if constexpr (requires { w.name(v, t); })                         \
    if (f == #name)                                                 \
    {                                                               \
      if (has_time)                                                 \
        out->v = w.name(v, t);                                      \
      else                                                          \
        out->v = w.name(v);                                         \
      return;                                                       \
    }
      METHOD(trace_to_flux)
      METHOD(residual_flux)
      METHOD(trace_to_mass_flux)
      METHOD(make_initial)
      METHOD(errors)
      if constexpr (requires { w.set_data(v, t); })
        if (f == "set_data")
        {
          if (has_time)
            w.set_data(v, t);
          else
            w.set_data(v);
          return;
        }
      if constexpr (requires { w.jacobian_of_trace_to_flux(v, t, u, e); })
        if (f == "jacobian_of_trace_to_flux")
        {
          out->v = w.jacobian_of_trace_to_flux(v, t, u, e);
          return;
        }
      if constexpr (requires { w.dirichlet_indices(); })
        if (f == "dirichlet_indices")
        {
          out->a = w.dirichlet_indices();
          return;
        }
      if constexpr (requires { w.read_dirichlet_indices(i); })
        if (f == "read_dirichlet_indices")
        {
          w.read_dirichlet_indices(i);
          return;
        }
      if constexpr (requires { w.zero_vector(); })
        if (f == "zero_vector")
        {
          out->v = w.zero_vector();
          return;
        }
      if constexpr (requires { w.trace_to_flux_mat(); })
        if (f == "sparse_stiff_mat")
        {
          auto a = w.trace_to_flux_mat();
          out->a = a.get_cols();
          out->b = a.get_rows();
          out->v = a.get_values();
          return;
        }
      if (f == "plot_solution")
      {
        if (has_time)
          w.plot_solution(v, t);
        else
          w.plot_solution(v);
      }
      else if (f == "plot_option")
        out->s = w.plot_option(s1, s2);
      else if (f == "get_refinement")
        out->n = w.get_refinement();
      else if (f == "set_refinement")
        w.set_refinement((unsigned)ni), out->n = ni;
      else if (f == "size_of_system")
        out->n = w.size_of_system();
      else
        abort();
    };
    return guarded([&](Out* mine) { work(*((Obj*)o)->w, mine); });
  }
}
