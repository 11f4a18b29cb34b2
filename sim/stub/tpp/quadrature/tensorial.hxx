// Stand-in for the tensorial quadrature of the submodule "tensor_product_polynomials", which is not part of the
// checkout here. Same interface and meaning of each integral as the local solvers expect: `vol`/`bdr` integrals are over
// the physical hyperedge/face, `volUni`/`bdrUni` over the reference one, gradients and vectors are in the coordinate
// system of the hyperedge (the columns of the orthogonal factor of its map).
#pragma once
#include <HyperHDG/dense_la.hxx>
#include <tpp/shape_function/shape_function.hxx>

#include <array>
#include <cmath>

namespace TPP
{
namespace Quadrature
{
template <unsigned int quad_deg>
struct GaussLegendre
{
  static constexpr unsigned int n_points() { return quad_deg / 2 + 1; }
  struct Rule
  {
    std::array<double, n_points()> x, w;
    Rule()
    {
      const unsigned int n = n_points();
      for (unsigned int i = 0; i < n; ++i)
      {
        double y = -std::cos(M_PI * (i + .75) / (n + .5)), dp = 1;
        for (int it = 0; it < 60; ++it)
        {
          double a = 1, b = y;
          for (unsigned int k = 1; k < n; ++k)
          {
            double c = ((2 * k + 1) * y * b - k * a) / (k + 1);
            a = b;
            b = c;
          }
          dp = n * (a - y * b) / (1 - y * y);
          double step = b / dp;
          y -= step;
          if (std::abs(step) < 1e-17)
            break;
        }
        x[i] = (y + 1) / 2;
        w[i] = 1 / ((1 - y * y) * dp * dp);
      }
    }
  };
  inline static const Rule rule{};
};

template <typename quadrature_t, typename shape_t, typename return_t>
struct Tensorial
{
  typedef shape_t shape_fun_t;
  typedef quadrature_t quad_t;
  static constexpr unsigned int dim() { return shape_t::dim(); }

 private:
  static constexpr unsigned int D = shape_t::dim();
  typedef typename shape_t::shape_fun_t tens_t;
  typedef typename tens_t::one_d one_d;
  static constexpr unsigned int N1 = one_d::n_fun(), Q1 = quadrature_t::n_points();
  static constexpr unsigned int ipow(unsigned int b, unsigned int e)
  {
    unsigned int r = 1;
    while (e--)
      r *= b;
    return r;
  }
  static constexpr unsigned int NQ = ipow(Q1, D), NQF = ipow(Q1, D - 1);
  // One-dimensional values at the quadrature points and at both ends.
  struct Table
  {
    double v[N1][Q1 + 2], dv[N1][Q1 + 2], x[Q1 + 2], w[Q1 + 2];
    Table()
    {
      const typename quadrature_t::Rule rule;  // not the static one: no order of initialisation between templates
      for (unsigned int q = 0; q < Q1 + 2; ++q)
      {
        x[q] = q < Q1 ? rule.x[q] : (double)(q - Q1);
        w[q] = q < Q1 ? rule.w[q] : 1.;
        for (unsigned int n = 0; n < N1; ++n)
        {
          v[n][q] = one_d::value(n, x[q]);
          dv[n][q] = one_d::derivative(n, x[q]);
        }
      }
    }
  };
  inline static const Table tab{};
  // A quadrature point: one-dimensional point numbers per direction.
  struct Pt
  {
    std::array<unsigned int, D> q;
    double w;
  };
  static Pt vol_pt(unsigned int k)
  {
    Pt p{{}, 1.};
    for (unsigned int d = 0; d < D; ++d)
    {
      p.q[d] = k % Q1;
      p.w *= tab.w[p.q[d]];
      k /= Q1;
    }
    return p;
  }
  static Pt bdr_pt(unsigned int k, unsigned int face)
  {
    Pt p{{}, 1.};
    for (unsigned int d = 0; d < D; ++d)
      if (d == face / 2)
        p.q[d] = Q1 + face % 2;
      else
      {
        p.q[d] = k % Q1;
        p.w *= tab.w[p.q[d]];
        k /= Q1;
      }
    return p;
  }
  static double phi(unsigned int i, const Pt& p)
  {
    double r = 1;
    for (unsigned int d = 0; d < D; ++d)
    {
      r *= tab.v[i % N1][p.q[d]];
      i /= N1;
    }
    return r;
  }
  static double dphi(unsigned int i, const Pt& p, unsigned int dir)
  {
    double r = 1;
    for (unsigned int d = 0; d < D; ++d)
    {
      r *= d == dir ? tab.dv[i % N1][p.q[d]] : tab.v[i % N1][p.q[d]];
      i /= N1;
    }
    return r;
  }
  static double psi(unsigned int i, const Pt& p, unsigned int face)
  {
    double r = 1;
    for (unsigned int d = 0; d < D; ++d)
      if (d != face / 2)
      {
        r *= tab.v[i % N1][p.q[d]];
        i /= N1;
      }
    return r;
  }
  // Gradient in the hyperedge's orthonormal system: R^{-T} times the reference gradient (R is upper triangular).
  template <typename geom_t>
  static std::array<double, D> grad(unsigned int i, const Pt& p, const geom_t& geom)
  {
    auto r = geom.mat_r();
    std::array<double, D> g;
    for (unsigned int d = 0; d < D; ++d)
    {
      double s = dphi(i, p, d);
      for (unsigned int k = 0; k < d; ++k)
        s -= (double)r(k, d) * g[k];
      g[d] = s / (double)r(d, d);
    }
    return g;
  }
  template <typename point_t, typename geom_t>
  static auto phys(const Pt& p, geom_t& geom)
  {
    typedef typename point_t::value_type f_t;
    SmallVec<D, f_t> x;
    for (unsigned int d = 0; d < D; ++d)
      x[d] = (f_t)tab.x[p.q[d]];
    const geom_t& cgeom = geom;
    point_t y = cgeom.template map_ref_to_phys<1>(x);
    return y;
  }
  template <typename fun_t>
  static return_t vol(fun_t f)
  {
    double s = 0;
    for (unsigned int k = 0; k < NQ; ++k)
    {
      Pt p = vol_pt(k);
      s += p.w * (double)f(p);
    }
    return (return_t)s;
  }
  template <typename fun_t>
  static return_t bdr(unsigned int face, fun_t f)
  {
    double s = 0;
    for (unsigned int k = 0; k < NQF; ++k)
    {
      Pt p = bdr_pt(k, face);
      s += p.w * (double)f(p);
    }
    return (return_t)s;
  }
  template <typename geom_t>
  static double vol_size(geom_t& geom) { return std::abs((double)geom.area()); }
  template <typename geom_t>
  static double face_size(geom_t& geom, unsigned int face) { return std::abs((double)geom.face_area(face)); }
  template <auto fun, typename point_t, typename geom_t>
  static double at(const Pt& p, geom_t& geom, return_t time)
  {
    return (double)fun(phys<point_t>(p, geom), time);
  }
  // Normal component (outward) of a vector field of the surrounding space.
  template <auto fun, typename point_t, typename geom_t>
  static double normal_component(const Pt& p, unsigned int face, geom_t& geom, return_t time)
  {
    auto v = fun(phys<point_t>(p, geom), time);
    auto n = geom.inner_normal(face);
    double s = 0;
    for (unsigned int d = 0; d < n.size(); ++d)
      s += (double)v[d] * (double)n[d];
    return s;
  }
  // Component of a vector field along a direction of the hyperedge's orthonormal system.
  template <auto fun, typename point_t, typename geom_t>
  static double tangential(const Pt& p, unsigned int dir, geom_t& geom, return_t time)
  {
    auto v = fun(phys<point_t>(p, geom), time);
    auto q = geom.mat_q();
    double s = 0;
    for (unsigned int d = 0; d < v.size(); ++d)
      s += (double)v[d] * (double)q(d, dir);
    return s;
  }

 public:
  // --- reference element ---
  static return_t integrate_vol_phiphi(unsigned int i, unsigned int j)
  {
    return vol([&](const Pt& p) { return phi(i, p) * phi(j, p); });
  }
  static return_t integrate_vol_Dphiphi(unsigned int i, unsigned int j, unsigned int dir)
  {
    return vol([&](const Pt& p) { return dphi(i, p, dir) * phi(j, p); });
  }
  static return_t integrate_bdr_phiphi(unsigned int i, unsigned int j, unsigned int face)
  {
    return bdr(face, [&](const Pt& p) { return phi(i, p) * phi(j, p); });
  }
  static return_t integrate_bdr_phipsi(unsigned int i, unsigned int j, unsigned int face)
  {
    return bdr(face, [&](const Pt& p) { return phi(i, p) * psi(j, p, face); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_volUni_phifunc(unsigned int i, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) { return phi(i, p) * at<fun, point_t>(p, geom, time); });
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_bdrUni_psifunc(unsigned int i, unsigned int face, geom_t& geom, return_t time = 0.)
  {
    return bdr(face, [&](const Pt& p) { return psi(i, p, face) * at<fun, point_t>(p, geom, time); });
  }
  // --- physical element ---
  template <typename geom_t>
  static return_t integrate_vol_phiphi(unsigned int i, unsigned int j, geom_t& geom)
  {
    return vol([&](const Pt& p) { return phi(i, p) * phi(j, p); }) * vol_size(geom);
  }
  template <typename geom_t, typename float_t, std::size_t n>
  static return_t integrate_vol_phiphi(const std::array<float_t, n>& is, const std::array<float_t, n>& js, geom_t& geom)
  {
    return vol([&](const Pt& p) {
             double a = 0, b = 0;
             for (unsigned int k = 0; k < n; ++k)
             {
               a += is[k] * phi(k, p);
               b += js[k] * phi(k, p);
             }
             return a * b;
           }) *
           vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_phifunc(unsigned int i, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) { return phi(i, p) * at<fun, point_t>(p, geom, time); }) * vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_derphifunc(unsigned int i, unsigned int dim_der, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) { return grad(i, p, geom)[dim_der] * at<fun, point_t>(p, geom, time); }) *
           vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_phiphifunc(unsigned int i, unsigned int j, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) { return phi(i, p) * phi(j, p) * at<fun, point_t>(p, geom, time); }) *
           vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_phiphivecfunc(unsigned int i,
                                              unsigned int j,
                                              unsigned int dir,
                                              geom_t& geom,
                                              return_t time = 0.)
  {
    return vol([&](const Pt& p) { return phi(i, p) * phi(j, p) * tangential<fun, point_t>(p, dir, geom, time); }) *
           vol_size(geom);
  }
  template <typename vec_t, typename geom_t>
  static vec_t integrate_vol_nablaphiphi(unsigned int i, unsigned int j, geom_t& geom)
  {
    vec_t r;
    for (unsigned int d = 0; d < D; ++d)
      r[d] = vol([&](const Pt& p) { return grad(i, p, geom)[d] * phi(j, p); }) * vol_size(geom);
    return r;
  }
  // Gradients of one degree against functions of another one.
  template <typename vec_t, typename geom_t, unsigned int deg_i, unsigned int deg_j>
  static vec_t integrate_vol_nablaphiphi(unsigned int i, unsigned int j, geom_t& geom)
  {
    static_assert(deg_i + 1 == N1, "stub: first degree is the rule's own");
    auto other = [&](const Pt& p) {
      double r = 1;
      unsigned int k = j;
      for (unsigned int d = 0; d < D; ++d)
      {
        r *= ShapeType::Legendre<deg_j>::value(k % (deg_j + 1), tab.x[p.q[d]]);
        k /= deg_j + 1;
      }
      return r;
    };
    vec_t r;
    for (unsigned int d = 0; d < D; ++d)
      r[d] = vol([&](const Pt& p) { return grad(i, p, geom)[d] * other(p); }) * vol_size(geom);
    return r;
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_nablaphiphivecfunc(unsigned int i, unsigned int j, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) {
             auto g = grad(i, p, geom);
             double s = 0;
             for (unsigned int d = 0; d < D; ++d)
               s += g[d] * tangential<fun, point_t>(p, d, geom, time);
             return s * phi(j, p);
           }) *
           vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_vol_nablaphinablaphifunc(unsigned int i, unsigned int j, geom_t& geom, return_t time = 0.)
  {
    return vol([&](const Pt& p) {
             auto a = grad(i, p, geom), b = grad(j, p, geom);
             double s = 0;
             for (unsigned int d = 0; d < D; ++d)
               s += a[d] * b[d];
             return s * at<fun, point_t>(p, geom, time);
           }) *
           vol_size(geom);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t, std::size_t n>
  static return_t integrate_vol_diffsquare_discana(const std::array<return_t, n>& coeffs,
                                                   geom_t& geom,
                                                   return_t time = 0.)
  {
    return vol([&](const Pt& p) {
             double s = -at<fun, point_t>(p, geom, time);
             for (unsigned int k = 0; k < n; ++k)
               s += (double)coeffs[k] * phi(k, p);
             return s * s;
           }) *
           vol_size(geom);
  }
  // --- physical faces ---
  template <typename geom_t>
  static return_t integrate_bdr_phiphi(unsigned int i, unsigned int j, unsigned int face, geom_t& geom)
  {
    return bdr(face, [&](const Pt& p) { return phi(i, p) * phi(j, p); }) * face_size(geom, face);
  }
  template <typename geom_t>
  static return_t integrate_bdr_phipsi(unsigned int i, unsigned int j, unsigned int face, geom_t& geom)
  {
    return bdr(face, [&](const Pt& p) { return phi(i, p) * psi(j, p, face); }) * face_size(geom, face);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_bdr_phifunc(unsigned int i, unsigned int face, geom_t& geom, return_t time = 0.)
  {
    return bdr(face, [&](const Pt& p) { return phi(i, p) * at<fun, point_t>(p, geom, time); }) *
           face_size(geom, face);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_bdr_nablaphiphinufunc(unsigned int i,
                                                  unsigned int j,
                                                  unsigned int face,
                                                  geom_t& geom,
                                                  return_t time = 0.)
  {
    return bdr(face, [&](const Pt& p) {
             return normal_derivative(i, p, face, geom) * phi(j, p) * at<fun, point_t>(p, geom, time);
           }) *
           face_size(geom, face);
  }
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>
  static return_t integrate_bdr_nablaphipsinufunc(unsigned int i,
                                                  unsigned int j,
                                                  unsigned int face,
                                                  geom_t& geom,
                                                  return_t time = 0.)
  {
    return bdr(face, [&](const Pt& p) {
             return normal_derivative(i, p, face, geom) * psi(j, p, face) * at<fun, point_t>(p, geom, time);
           }) *
           face_size(geom, face);
  }

 private:
  template <typename geom_t>
  static double normal_derivative(unsigned int i, const Pt& p, unsigned int face, geom_t& geom)
  {
    auto g = grad(i, p, geom);
    auto n = geom.local_normal(face);
    double s = 0;
    for (unsigned int d = 0; d < D; ++d)
      s += g[d] * (double)n[d];
    return s;
  }
  // First factor `a`, second `b` (0: phi, 1: psi); wind: 0 all, 1 where the field leaves (outflow), -1 where it enters;
  // times the normal component or not.
  template <int a, int b, int wind, bool times_normal, auto fun, typename point_t, typename geom_t>
  static return_t winded(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, return_t time)
  {
    return bdr(face, [&](const Pt& p) {
             double vn = normal_component<fun, point_t>(p, face, geom, time);
             if ((wind > 0 && vn <= 0) || (wind < 0 && vn > 0))
               return 0.;
             double x = a ? psi(i, p, face) : phi(i, p), y = b ? psi(j, p, face) : phi(j, p);
             return x * y * (times_normal ? vn : 1.);
           }) *
           face_size(geom, face);
  }

 public:
#define TPP_WINDED(name, a, b, wind, nu)                                                                            \
  template <typename point_t, typename geom_t, auto fun, typename vec_t = point_t>                                  \
  static return_t name(unsigned int i, unsigned int j, unsigned int face, geom_t& geom, return_t time = 0.)         \
  {                                                                                                                 \
    return winded<a, b, wind, nu, fun, point_t>(i, j, face, geom, time);                                            \
  }
  TPP_WINDED(integrate_bdr_phiphi_cutwind, 0, 0, 1, false)
  TPP_WINDED(integrate_bdr_psiphi_cutwind, 1, 0, 1, false)
  TPP_WINDED(integrate_bdr_phipsi_cutdownwind, 0, 1, -1, false)
  TPP_WINDED(integrate_bdr_psipsi_cutdownwind, 1, 1, -1, false)
  TPP_WINDED(integrate_bdr_phiphinuvecfunc_cutwind, 0, 0, 1, true)
  TPP_WINDED(integrate_bdr_psiphinuvecfunc_cutwind, 1, 0, 1, true)
  TPP_WINDED(integrate_bdr_phipsinuvecfunc_cutwind, 0, 1, -1, true)
  TPP_WINDED(integrate_bdr_psipsinuvecfunc_cutwind, 1, 1, -1, true)
#undef TPP_WINDED
  template <typename point_t, typename geom_t, auto fun, auto vel, typename vec_t = point_t>
  static return_t integrate_bdr_phifuncnuvecfunc_cutwind(unsigned int i,
                                                         unsigned int face,
                                                         geom_t& geom,
                                                         return_t time = 0.)
  {
    return bdr(face, [&](const Pt& p) {
             double vn = normal_component<vel, point_t>(p, face, geom, time);
             return vn > 0 ? 0. : phi(i, p) * at<fun, point_t>(p, geom, time) * vn;
           }) *
           face_size(geom, face);
  }
};
}  // namespace Quadrature
}  // namespace TPP
