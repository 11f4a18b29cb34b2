// C15: complete computations with the library's own local solvers. Data of the simulated PDE problems and
// the interface between the simulator (props/pipe.cxx) and the translation units of the solvers.
#pragma once
#include <array>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace pipe_sim
{
struct DataError : std::runtime_error
{
  DataError() : std::runtime_error("problem data not available") {}
};
/// u = c0 + a.x + sum m_k x_i x_j + q |x|^2 + s (x^3 or x^2 y) + t (b0 + b.x) + c2 t^2 and everything that follows from it.
struct Prob
{
  double c0 = 0, a[3] = {0, 0, 0}, m[3] = {0, 0, 0}, q = 0, b0 = 0, b[3] = {0, 0, 0}, c2 = 0, s = 0;
  double k = 1;                                // coefficient of diffusion (or of the bilaplacian)
  double vel[3] = {0, 0, 0}, react = 0;        // advection, reaction
  int ed = 1, sd = 1;
  int kind = 0;                                // 0 elliptic, 1 parabolic, 2 bilaplacian, 3 parabolic bilaplacian, 4 advection-reaction, 5 network
  double shift = 0;                            // added to the analytic solution when errors are measured
  double f = 0;                                // right-hand side of a network
  double kt = 0, kx = 0, qx = 0;               // coefficient k (1 + kt t) / (1 + kx x_0); qx x_0^2 in u makes its flux constant
};
extern thread_local const Prob* cur;   // data of the computation that is being called
extern thread_local long throw_at;     // evaluation of data that fails; < 0: none
extern thread_local long evaluations;
extern thread_local long nest_at;      // evaluation of data during which another computation is called; < 0: none
void nested();
inline void tick()
{
  ++evaluations;
  if (nest_at >= 0 && nest_at-- == 0)
    nested();
  if (throw_at >= 0 && throw_at-- == 0)
    throw DataError();
}
template <typename P>
double k_of(const Prob& p, const P& x, double t)
{
  return p.k * (1 + p.kt * t) / (1 + p.kx * x[0]);
}
template <typename P>
double u_of(const Prob& p, const P& x, double t)
{
  double s = p.c0 + t * p.b0 + p.c2 * t * t + p.qx * x[0] * x[0];
  if (p.s != 0)
    s += p.s * x[0] * x[0] * x[p.sd > 1 ? 1 : 0];
  for (int d = 0; d < p.sd; ++d)
    s += (p.a[d] + t * p.b[d]) * x[d] + p.q * x[d] * x[d];
  for (int d = 0, n = 0; d < p.sd; ++d)
    for (int e = d + 1; e < p.sd; ++e, ++n)
      s += p.m[n] * x[d] * x[e];
  return s;
}
template <typename P>
double ut_of(const Prob& p, const P& x, double t)
{
  double s = p.b0 + 2 * p.c2 * t;
  for (int d = 0; d < p.sd; ++d)
    s += p.b[d] * x[d];
  return s;
}
template <typename P>
double du_of(const Prob& p, const P& x, double t, int dir)
{
  double s = p.a[dir] + t * p.b[dir] + 2 * p.q * x[dir];
  if (p.s != 0)
    s += p.sd == 1 ? 3 * p.s * x[0] * x[0] : dir == 0 ? 2 * p.s * x[0] * x[1] : dir == 1 ? p.s * x[0] * x[0] : 0.;
  for (int d = 0, n = 0; d < p.sd; ++d)
    for (int e = d + 1; e < p.sd; ++e, ++n)
      s += d == dir ? p.m[n] * x[e] : e == dir ? p.m[n] * x[d] : 0.;
  return s;
}
template <typename P>
double lap_of(const Prob& p, const P& x)
{
  return 2 * p.q * p.ed + (p.s == 0 ? 0. : p.sd == 1 ? 6 * p.s * x[0] : 2 * p.s * x[1]);
}
template <typename P>
double f_of(const Prob& p, const P& x, double t)
{
  if (p.kind == 5)
    return p.f;
  double lap = p.kx != 0 ? 0. : lap_of(p, x), k = p.kx != 0 ? 0. : k_of(p, x, t);
  switch (p.kind)
  {
    case 0: return -k * lap;
    case 1: return -k * lap + ut_of(p, x, t);
    case 2: return 0;  // the laplacian is linear
    case 3: return ut_of(p, x, t);
    case 4:
    {
      double s = -k * lap + p.react * (1 + p.kt * t) * u_of(p, x, t);
      for (int d = 0; d < p.sd; ++d)
        s += k * p.vel[d] * (1 + p.kt * t) * du_of(p, x, t, d);
      return s;
    }
  }
  return 0;
}

struct Spec
{
  int family = 0, mesh = 0, deg = 1, loop = 0;
  std::vector<unsigned> n;  // elements per direction (cubic)
  std::string file;
  double tau = 1, theta = 1, dt = 1;
  unsigned level = 1;
};
typedef std::vector<double> Vec;
struct Unsupported : std::logic_error
{
  Unsupported() : std::logic_error("unsupported") {}
};
struct IComp
{
  virtual ~IComp() {}
  virtual Vec zero() = 0;
  virtual Vec flux(const Vec& x, double t) = 0;
  virtual Vec residual(const Vec&, double) { throw Unsupported(); }
  virtual std::vector<double> errors(const Vec&, double) { throw Unsupported(); }
  virtual Vec initial(const Vec&, double) { throw Unsupported(); }
  virtual void set_data(const Vec&, double) { throw Unsupported(); }
  /// matrix as (row, column, value)
  virtual void matrix(double, std::vector<unsigned>&, std::vector<unsigned>&, Vec&) { throw Unsupported(); }
  virtual Vec jacobian(const Vec&, double, const Vec&, double) { throw Unsupported(); }
  virtual Vec mass(const Vec&, double) { throw Unsupported(); }
  virtual Vec solve_cg(const Vec&, double) { throw Unsupported(); }
  virtual void dirichlet(const std::vector<unsigned>&) { throw Unsupported(); }
  virtual void plot(const Vec& x, double t) = 0;
  virtual std::string plot_option(const std::string& o, const std::string& v) = 0;
  virtual void refine(unsigned level) = 0;
  virtual unsigned level() = 0;
  virtual unsigned primal() = 0;  // component of plotted values that is the solution itself
};
/// What the harness itself knows of the discretised problem (from fresh hypergraphs).
struct Facts
{
  Vec trace;                    // coefficients of the solution on the hypernodes, 0 at Dirichlet dofs
  Vec trace_all;                // the same without the zeros
  std::vector<char> is_dirichlet;
  double measure = 0;           // of the whole domain
  unsigned n_edges = 0, dofs_per_node = 0;
  // one-dimensional hyperedges: ends and lengths
  std::vector<std::array<unsigned, 2>> ends;
  Vec length;
};
}  // namespace pipe_sim
