// Stand-in for the shape functions of the submodule "tensor_product_polynomials", which is not part of the
// checkout here: orthonormal Legendre polynomials on [0,1] and their tensor products, with the interface the
// local solvers use.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>

namespace TPP
{
namespace ShapeType
{
template <unsigned int poly_deg>
struct Legendre
{
  static constexpr unsigned int degree() { return poly_deg; }
  static constexpr unsigned int n_fun() { return poly_deg + 1; }
  static double value(unsigned int n, double x)
  {
    double y = 2 * x - 1, a = 1, b = y;
    if (n == 0)
      return 1;
    for (unsigned int k = 1; k < n; ++k)
    {
      double c = ((2 * k + 1) * y * b - k * a) / (k + 1);
      a = b;
      b = c;
    }
    return b * std::sqrt(2. * n + 1);
  }
  static double derivative(unsigned int n, double x)
  {
    // P'_{k+1} = P'_{k-1} + (2k+1) P_k, and 2 from the scaling to [0,1].
    double y = 2 * x - 1, a = 1, b = y, da = 0, db = 1;
    if (n == 0)
      return 0;
    for (unsigned int k = 1; k < n; ++k)
    {
      double c = ((2 * k + 1) * y * b - k * a) / (k + 1), dc = da + (2 * k + 1) * b;
      a = b;
      b = c;
      da = db;
      db = dc;
    }
    return 2 * db * std::sqrt(2. * n + 1);
  }
};
template <typename shape_t, unsigned int dimT>
struct Tensorial
{
  typedef shape_t one_d;
  static constexpr unsigned int dim() { return dimT; }
  static constexpr unsigned int n_fun()
  {
    unsigned int n = 1;
    for (unsigned int d = 0; d < dimT; ++d)
      n *= shape_t::n_fun();
    return n;
  }
  static std::array<unsigned int, dimT> split(unsigned int index)
  {
    std::array<unsigned int, dimT> r{};
    for (unsigned int d = 0; d < dimT; ++d)
    {
      r[d] = index % shape_t::n_fun();
      index /= shape_t::n_fun();
    }
    return r;
  }
};
}  // namespace ShapeType

template <typename shape_t>
struct ShapeFunction
{
  typedef shape_t shape_fun_t;
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int n_fun() { return shape_t::n_fun(); }
  template <typename float_t, typename coeffs_t, typename point_t>
  static float_t lin_comb_fct_val(const coeffs_t& coeffs, const point_t& pt)
  {
    double sum = 0;
    for (unsigned int i = 0; i < n_fun(); ++i)
    {
      auto s = shape_t::split(i);
      double v = (double)coeffs[i];
      for (unsigned int d = 0; d < dim(); ++d)
        v *= shape_t::one_d::value(s[d], (double)pt[d]);
      sum += v;
    }
    return (float_t)sum;
  }
};
}  // namespace TPP
