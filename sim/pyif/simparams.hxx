#pragma once
// Problem data of the simulated configurations: every value comes from the simulator, which may fail, or call back.
#include <HyperHDG/dense_la.hxx>
#include <array>
extern "C" double sim_data(int tag, const double* x, int dim, double t);
template <unsigned int sd, typename F = double>
struct SimParams
{
  static constexpr std::array<unsigned int, 3U> dirichlet_nodes{1, 2, 3};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{}, boundary_nodes{}, outflow_nodes{};
  typedef Point<sd, F> X;
  static F ask(int tag, const X& x, const F t)
  {
    double y[sd];
    for (unsigned int d = 0; d < sd; ++d)
      y[d] = x[d];
    return (F)sim_data(tag, y, (int)sd, (double)t);
  }
  static F inverse_diffusion_coeff(const X& x, const F t = 0.) { return 1. + .5 * ask(0, x, t); }
  static F diffusion_coeff(const X& x, const F t = 0.) { return 1. + .5 * ask(1, x, t); }
  static F right_hand_side(const X& x, const F t = 0.) { return ask(2, x, t); }
  static F dirichlet_value(const X& x, const F t = 0.) { return ask(3, x, t); }
  static F neumann_value(const X& x, const F t = 0.) { return ask(4, x, t); }
  static F initial(const X& x, const F t = 0.) { return ask(5, x, t); }
  static F analytic_result(const X& x, const F t = 0.) { return ask(6, x, t); }
};
