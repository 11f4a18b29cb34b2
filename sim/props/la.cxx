// C13 (conjugate gradient with misbehaving operators) and C14 (small dense solves and factorisations
// with a failing LAPACK or failing allocations).
#include "core/alloc.hxx"
#include "core/forkrun.hxx"
#include "core/lapack.hxx"
#include <array>
#include <cmath>
#include <dlfcn.h>
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/sparse_la.hxx>
using namespace sim;

// ------------------------------------------------------------------------------ C14
struct DenseOp
{
  int kind;      // 0 solve const, 1 solve in place, 2 qr const, 3 qr in place, 4 q const, 5 q in place, 6 det const, 7 det in place
  int f32, n, m;  // m: right-hand sides or columns
  uint64_t seed;
  int cls;       // matrix class
  long lap_at;   // LAPACK failure
  int info;
  int garbage;
  long alloc_at;
  bool faulty() const { return lap_at >= 0 || alloc_at >= 0; }
};
struct DenseResult
{
  bool ok = false;
  std::string ex;
  std::vector<double> v;
  std::string problem;  // clause
  std::string detail;
  long failures = 0, injected = 0, fired = 0;
};
typedef std::vector<double> DV;  // column major
static DV gen_mat(Rng& r, int n, int m, int cls)
{
  DV a((size_t)n * m);
  for (auto& x : a)
    x = r.range(-9, 9);
  int k = std::min(n, m);
  if (cls == 0)
    for (int i = 0; i < k; ++i)
      a[(size_t)i * n + i] += a[(size_t)i * n + i] < 0 ? -40 : 40;
  if (cls == 2)
  {  // a zero column or two equal rows: singular if square
    if (r.chance(1, 2) || n < 2)
    {
      int c = (int)r.below(m);
      for (int i = 0; i < n; ++i)
        a[(size_t)c * n + i] = 0;
    }
    else
      for (int j = 0; j < m; ++j)
        a[(size_t)j * n + 1] = a[(size_t)j * n];
  }
  if (cls == 3)
  {  // zeros on the diagonal, needs pivoting
    for (int i = 0; i < k; ++i)
      a[(size_t)i * n + i] = 0;
  }
  if (cls == 4)
    for (auto& x : a)
      x *= std::ldexp(1., r.range(-12, 12));
  if (cls == 5)
  {  // upper triangular (no reflections necessary)
    for (int j = 0; j < m; ++j)
      for (int i = j + 1; i < n; ++i)
        a[(size_t)j * n + i] = 0;
    for (int i = 0; i < k; ++i)
      if (a[(size_t)i * n + i] == 0)
        a[(size_t)i * n + i] = 3;
  }
  return a;
}
static double max_abs(const DV& v)
{
  double m = 0;
  for (double x : v)
    m = std::max(m, std::fabs(x));
  return m;
}
/// sqrt(det(A^T A)) in extended precision.
static long double gram_det(const DV& a, int n, int m)
{
  std::vector<long double> g((size_t)m * m, 0);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j)
      for (int k = 0; k < n; ++k)
        g[i * m + j] += (long double)a[(size_t)i * n + k] * a[(size_t)j * n + k];
  long double d = 1;
  for (int i = 0; i < m; ++i)
  {
    int p = i;
    for (int k = i + 1; k < m; ++k)
      if (std::fabs(g[k * m + i]) > std::fabs(g[p * m + i]))
        p = k;
    if (g[p * m + i] == 0)
      return 0;
    for (int j = 0; j < m; ++j)
      std::swap(g[i * m + j], g[p * m + j]);
    d *= std::fabs(g[i * m + i]);
    for (int k = i + 1; k < m; ++k)
    {
      long double f = g[k * m + i] / g[i * m + i];
      for (int j = i; j < m; ++j)
        g[k * m + j] -= f * g[i * m + j];
    }
  }
  return std::sqrt(d);
}
template <unsigned n, unsigned m, typename T>
DenseResult run_dense(const DenseOp& q)
{
  DenseResult r;
  Rng g(q.seed * 977 + 13);
  const double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
  auto bad = [&](const std::string& c, const std::string& d)
  {
    if (r.problem.empty())
    {
      r.problem = c;
      r.detail = d;
    }
  };
  auto cast = [](const DV& d)
  {
    DV e;
    for (double x : d)
      e.push_back((double)(T)x);
    return e;
  };
  auto section = [&](auto&& f)
  {
    lap::calls = lap::failures = lap::injected = 0;
    lap::fail_at = q.lap_at;
    lap::fail_info = q.info;
    lap::garbage = q.garbage;
    allocsim::fired = 0;
    long live = allocsim::live;
    try
    {
      allocsim::Section s(q.alloc_at);
      f();
      r.ok = true;
    }
    catch (const std::exception& e)
    {
      allocsim::Pause p;
      r.ex = dynamic_cast<const std::bad_alloc*>(&e) ? "bad_alloc" : "exception";
    }
    catch (...)
    {
      r.ex = "other";
    }
    lap::fail_at = -1;
    r.failures = lap::failures;
    r.injected = lap::injected;
    r.fired = allocsim::fired;
    if (allocsim::live != live)
      bad("leak", std::to_string(allocsim::live - live) + " allocation(s) leaked");
    if (r.ok && r.failures > 0)
      bad("failure-swallowed", "the library reported a failure and the call returned normally");
    if (!r.ok && r.failures == 0 && r.fired == 0)
      bad("false-failure", "the call failed although the library reported success");
  };
  if (q.kind <= 1)
  {
    DV a = cast(gen_mat(g, n, n, q.cls)), b = cast(gen_mat(g, n, m, 1));
    SmallMat<n, n, T> A;
    SmallMat<n, m, T> B;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
        A(i, j) = (T)a[(size_t)j * n + i];
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < m; ++j)
        B(i, j) = (T)b[(size_t)j * n + i];
    SmallMat<n, m, T> X;
    if (q.kind == 0)
    {
      const SmallMat<n, n, T> A0 = A;
      const SmallMat<n, m, T> B0 = B;
      section([&]() { X = B0 / A0; });
      for (unsigned i = 0; i < n * n; ++i)
        if (!(A0[i] == A[i]))
          bad("argument-modified", "matrix");
      for (unsigned i = 0; i < n * m; ++i)
        if (!(B0[i] == B[i]))
          bad("argument-modified", "right-hand side");
    }
    else
      section([&]() { X = B / A; });
    if (r.ok)
    {
      DV x;
      for (unsigned j = 0; j < m; ++j)
        for (unsigned i = 0; i < n; ++i)
          x.push_back((double)X(i, j));
      r.v = x;
      double na = max_abs(a), nb = max_abs(b);
      for (unsigned j = 0; j < m; ++j)
        for (unsigned i = 0; i < n; ++i)
        {
          long double s = -(long double)b[(size_t)j * n + i];
          double nx = 0;
          for (unsigned k = 0; k < n; ++k)
          {
            s += (long double)a[(size_t)k * n + i] * x[(size_t)j * n + k];
            nx = std::max(nx, std::fabs(x[(size_t)j * n + k]));
          }
          if (!std::isfinite((double)s))
            bad("not-finite", "the call returned normally with a non-finite solution");
          else if (std::fabs((double)s) > 400 * n * n * eps * (na * nx + nb))
            bad("wrong-solution", "residual " + std::to_string((double)s) + " of size-" + std::to_string(n) + " system");
        }
    }
  }
  else
  {
    if constexpr (m <= n)
    {
      DV a = cast(gen_mat(g, n, m, q.cls));
      SmallMat<n, m, T> A;
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < m; ++j)
          A(i, j) = (T)a[(size_t)j * n + i];
      const SmallMat<n, m, T> A0 = A;
      double na = max_abs(a), tol = 400 * n * n * eps * (na + 1e-30);
      SmallSquareMat<n, T> Q((T)3.);
      SmallSquareMat<m, T> R((T)5.);
      T det = 0;
      int k = (q.kind - 2) / 2;
      bool in_place = q.kind % 2;
      if (k == 0 && in_place)
        section([&]() { qr_decomp(A, Q, R); });
      else if (k == 0)
        section([&]() { qr_decomp(A0, Q, R); });
      else if (k == 1 && in_place)
        section([&]() { Q = qr_decomp_q(A); });
      else if (k == 1)
        section([&]() { Q = qr_decomp_q(A0); });
      else if (in_place)
        section([&]() { det = determinant(A); });
      else
        section([&]() { det = determinant(A0); });
      if (!in_place)
        for (unsigned i = 0; i < n * m; ++i)
          if (!(A0[i] == A[i]))
            bad("argument-modified", "matrix");
      if (r.ok && k <= 1)
      {
        for (unsigned i = 0; i < n * n; ++i)
          r.v.push_back((double)Q[i]);
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < n; ++j)
          {
            long double s = i == j ? -1 : 0;
            for (unsigned l = 0; l < n; ++l)
              s += (long double)Q(l, i) * (long double)Q(l, j);
            if (!(std::fabs((double)s) <= 400 * n * n * eps))
              bad("wrong-factors", "Q is not orthogonal");
          }
        // Q^T A is upper triangular in any case.
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < m; ++j)
          {
            long double s = 0;
            for (unsigned l = 0; l < n; ++l)
              s += (long double)Q(l, i) * (long double)a[(size_t)j * n + l];
            if (i > j && !(std::fabs((double)s) <= tol))
              bad("wrong-factors", "Q^T A is not upper triangular");
            if (k == 0 && i < m)
            {
              if (!(std::fabs((double)s - (double)R(i, j)) <= tol))
                bad("wrong-factors", "Q R differs from the matrix (" + std::to_string(n) + "x" + std::to_string(m) + ")");
              if (i > j && R(i, j) != 0.)
                bad("wrong-factors", "R is not upper triangular");
              if (i == j && i > 0 && R(i, i) < 0.)
                bad("wrong-factors", "R has a negative diagonal entry");
            }
          }
        if (k == 0)
          for (unsigned i = 0; i < m * m; ++i)
            r.v.push_back((double)R[i]);
      }
      if (r.ok && k == 2)
      {
        r.v.push_back((double)det);
        long double e = gram_det(a, n, m);
        double scale = std::pow(na * std::sqrt((double)n), (double)m);
        if (!(std::fabs(std::fabs((double)det) - (double)e) <= 1000 * n * n * eps * scale + 1e-9 * scale * (double)(e < 1e-3 * scale)))
          bad("wrong-determinant", "determinant " + std::to_string((double)det) + ", expected magnitude " + std::to_string((double)e));
      }
    }
  }
  return r;
}
template <unsigned n, unsigned m>
DenseResult disp3(const DenseOp& q)
{
  return q.f32 ? run_dense<n, m, float>(q) : run_dense<n, m, double>(q);
}
template <unsigned n>
DenseResult disp2(const DenseOp& q)
{
  switch (q.m)
  {
    case 1: return disp3<n, 1>(q);
    case 2: return disp3<n, 2>(q);
    case 3: return disp3<n, 3>(q);
    default: return disp3<n, 4>(q);
  }
}
static DenseResult run_op(const DenseOp& q)
{
  switch (q.n)
  {
    case 1: return disp2<1>(q);
    case 2: return disp2<2>(q);
    case 3: return disp2<3>(q);
    case 4: return disp2<4>(q);
    default: return disp2<5>(q);
  }
}
struct DenseSim : Sim
{
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int n_ops = 1 + (int)r.below(thorough ? 24 : 12);
    for (int i = 0; i < n_ops; ++i)
    {
      int kind = (int)r.below(8), n = 1 + (int)r.below(5), m = 1 + (int)r.below(4);
      if (kind >= 2)
        m = std::min(m, n);
      long lap = -1, al = -1;
      int info = 0, garb = 0;
      if (r.chance(1, 3))
      {
        lap = (long)r.below(r.chance(1, 4) ? 2 : 1);
        info = r.chance(1, 2) ? 1 + (int)r.below(n) : -1 - (int)r.below(8);
        garb = r.chance(2, 3);
      }
      else if (r.chance(1, 5))
        al = (long)r.below(3);
      char b[200];
      snprintf(b, sizeof b, "op %d %d %d %d %llu %d %ld %d %d %ld", kind, (int)r.below(2), n, m, (unsigned long long)r.below(1000000), (int)r.below(6), lap, info, garb, al);
      p.add(b);
    }
    return p;
  }
  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    return isolated(scratch, 10,
                    [&](Outcome& o)
                    {
                      std::vector<DenseOp> ops;
                      for (auto& w : p.all("op"))
                        if (w.size() >= 11)
                          ops.push_back(DenseOp{atoi(w[1].c_str()), atoi(w[2].c_str()), atoi(w[3].c_str()), atoi(w[4].c_str()), strtoull(w[5].c_str(), 0, 10), atoi(w[6].c_str()), atol(w[7].c_str()), atoi(w[8].c_str()), atoi(w[9].c_str()), atol(w[10].c_str())});
                      static const char* names[] = {"solve", "solve-in-place", "qr", "qr-in-place", "qr_q", "qr_q-in-place", "det", "det-in-place"};
                      allocsim::poison = true;
                      std::vector<DenseResult> first;
                      auto one = [&](size_t i, const DenseOp& q)
                      {
                        DenseResult r = run_op(q);
                        ++o.steps;
                        std::string what = std::string(names[q.kind]) + " #" + std::to_string(i) + " (" + std::to_string(q.n) + "," + std::to_string(q.m) + (q.f32 ? ",float" : ",double") + ")";
                        if (!r.problem.empty())
                          o.violate(r.problem, what + ": " + r.detail);
                        if (r.injected)
                          ++o.faults[std::string("lapack-failure/") + (q.info > 0 ? "positive" : "negative")];
                        if (r.fired)
                          ++o.faults["allocation-fails"];
                        if (r.failures > r.injected)
                          ++o.faults["lapack-failure/real-singular"];
                        ++o.counters[std::string(names[q.kind]) + (r.ok ? "/ok" : "/exception")];
                        o.nontrivial |= r.failures > 0 || r.fired > 0;
                        o.trace.add(what + (r.ok ? "R" : r.ex));
                        for (double x : r.v)
                        {
                          uint64_t u;
                          memcpy(&u, &x, 8);
                          o.trace.add(u);
                        }
                        Hash h;
                        h.add(std::string(names[q.kind]) + (r.ok ? "R" : r.ex));
                        h.add((uint64_t)(q.n * 100 + q.m * 10 + q.f32));
                        h.add((uint64_t)q.cls);
                        h.add((uint64_t)(r.injected ? q.info + 100 : 0));
                        o.states.push_back(h.h);
                        return r;
                      };
                      for (size_t i = 0; i < ops.size(); ++i)
                        first.push_back(one(i, ops[i]));
                      // Once faults stop: every call again, in reverse order; history must not matter.
                      for (size_t j = ops.size(); j-- > 0;)
                      {
                        DenseOp q = ops[j];
                        q.lap_at = q.alloc_at = -1;
                        DenseResult r = one(j, q);
                        if (first[j].ok && !ops[j].faulty() && (first[j].ok != r.ok || first[j].v.size() != r.v.size() || (r.v.size() && memcmp(first[j].v.data(), r.v.data(), 8 * r.v.size()))))
                          o.violate("history-matters", "repeating " + std::string(names[q.kind]) + " #" + std::to_string(j) + " gave another result");
                      }
                    });
  }
};

// ------------------------------------------------------------------------------ C13
struct OpFault : std::runtime_error
{
  OpFault() : std::runtime_error("operator failure") {}
};
struct CgOp
{
  int f32, n;
  uint64_t seed;
  int cls;      // operator class
  int tol_e;    // tolerance 10^-tol_e times ..., 99: default arguments
  int maxit;    // 0: default
  int fault;    // 0 none, 1 nan, 2 inf, 3 throws, 4 one entry nan
  int at;       // application
  int times;    // 1 once, 0 from then on
  long alloc_at;
  int rhs;      // 0 random, 1 zero, 2 contains nan, 3 unit vector
};
template <typename T>
struct Oper
{
  int n;
  std::vector<T> a;
  long applied = 0, hits = 0;
  const CgOp* q = nullptr;
  std::vector<T> trace_to_flux(const std::vector<T>& x)
  {
    long k = applied++;
    if ((int)x.size() != n)
      throw std::length_error("wrong vector size");
    std::vector<T> y(n, (T)0);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        y[i] += a[(size_t)i * n + j] * x[j];
    if (q && q->fault && (k == q->at || (!q->times && k > q->at)))
    {
      ++hits;
      allocsim::Pause p;
      if (q->fault == 3)
        throw OpFault();
      T v = q->fault == 2 ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
      if (q->fault == 4)
        y[n / 2] = v;
      else
        for (auto& u : y)
          u = v;
    }
    return y;
  }
};
struct CgResult
{
  bool ok = false;
  std::string ex;
  std::vector<double> v;
  std::string problem, detail;
  long applied = 0, hits = 0, fired = 0;
};
template <typename T>
CgResult run_cg(const CgOp& q)
{
  CgResult r;
  Rng g(q.seed * 31 + 7);
  int n = q.n;
  auto bad = [&](const std::string& c, const std::string& d)
  {
    if (r.problem.empty())
    {
      r.problem = c;
      r.detail = d;
    }
  };
  Oper<T> A;
  A.n = n;
  A.a.assign((size_t)n * n, 0);
  A.q = &q;
  int distinct = n;
  switch (q.cls)
  {
    case 0:  // positive diagonal with few distinct values
    case 1:  // indefinite diagonal
    {
      distinct = 1 + (int)g.below(std::min(4, n));
      std::vector<int> d(distinct);
      for (int i = 0; i < distinct; ++i)
        d[i] = (i == 0 ? 0 : d[i - 1]) + 1 + (int)g.below(3);
      for (int i = 0; i < n; ++i)
        A.a[(size_t)i * n + i] = (T)(d[g.below(distinct)] * (q.cls == 1 && g.chance(1, 2) ? -1 : 1));
      break;
    }
    case 2:  // dense symmetric positive definite: I + v v^T, two distinct eigenvalues
    {
      std::vector<int> v(n);
      for (auto& x : v)
        x = g.range(-2, 2);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          A.a[(size_t)i * n + j] = (T)(v[i] * v[j] + (i == j ? 1 : 0));
      distinct = 2;
      break;
    }
    case 3:  // singular: diagonal with zeros
      for (int i = 0; i < n; ++i)
        A.a[(size_t)i * n + i] = (T)(g.chance(1, 3) ? 0 : 1 + (int)g.below(4));
      break;
    case 4:  // zero operator
      break;
    case 5:  // skew or unsymmetric
      for (auto& x : A.a)
        x = (T)g.range(-3, 3);
      break;
    case 7:  // positive definite with many distinct eigenvalues
      for (int i = 0; i < n; ++i)
      {
        A.a[(size_t)i * n + i] = (T)(g.chance(1, 2) ? 3 : 2.25);
        if (i > 0)
          A.a[(size_t)i * n + i - 1] = A.a[(size_t)(i - 1) * n + i] = (T)-1;
      }
      break;
    default:  // negative definite
      for (int i = 0; i < n; ++i)
        A.a[(size_t)i * n + i] = (T)(-1 - (int)g.below(3));
      distinct = 3;
  }
  std::vector<T> b(n, (T)0);
  if (q.rhs == 3)
    b[g.below(n)] = (T)g.range(1, 9);
  else if (q.rhs != 1)
    for (auto& x : b)
      x = (T)g.range(-9, 9) * (T)(q.rhs == 4 ? 1e-5 : q.rhs == 5 ? 4096 : 1);
  if (q.rhs == 2)
    b[g.below(n)] = std::numeric_limits<T>::quiet_NaN();
  const std::vector<T> b0 = b;
  double nb = 0, na = 0;
  for (T x : b)
    nb += (double)x * (double)x;
  nb = std::sqrt(nb);
  for (T x : A.a)
    na = std::max(na, std::fabs((double)x));
  double rowsum = 0;
  for (int i = 0; i < n; ++i)
  {
    double t = 0;
    for (int j = 0; j < n; ++j)
      t += std::fabs((double)A.a[(size_t)i * n + j]);
    rowsum = std::max(rowsum, t);
  }
  T tol = (T)std::pow(10., -q.tol_e / 2.);
  bool defaults = q.tol_e == 99;
  if (defaults)
    tol = (T)1e-9;
  const double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
  int limit = q.maxit && !defaults ? q.maxit : n;
  std::vector<T> x;
  long live = allocsim::live;
  allocsim::fired = 0;
  try
  {
    std::vector<T> y;
    {
      allocsim::Section s(q.alloc_at);
      y = defaults ? SparseLA::conjugate_gradient(b, A) : SparseLA::conjugate_gradient(b, A, (unsigned)q.maxit, tol);
    }
    r.ok = true;
    for (T u : y)
      r.v.push_back((double)u);
    if (allocsim::live - (long)(y.capacity() > 0) - (long)(r.v.capacity() > 0) != live)
      bad("leak", "the solver leaked " + std::to_string(allocsim::live - live) + " allocations");
  }
  catch (const SparseLA::SolveException&)
  {
    r.ex = "no-convergence";
  }
  catch (const OpFault&)
  {
    r.ex = "operator";
  }
  catch (const std::bad_alloc&)
  {
    r.ex = "bad_alloc";
  }
  catch (const std::length_error&)
  {
    r.ex = "size";
    bad("wrong-argument", "the operator was given a vector of the wrong size");
  }
  r.fired = allocsim::fired;
  r.applied = A.applied;
  r.hits = A.hits;
  if (!r.ok)
  {
    allocsim::Pause p;
    if (allocsim::live != live)
      bad("leak", "a failed solve leaked " + std::to_string(allocsim::live - live) + " allocations");
  }
  if (memcmp(b.data(), b0.data(), sizeof(T) * n) != 0)
    bad("argument-modified", "the right-hand side was modified");
  if (r.applied > limit)
    bad("too-many-applications", std::to_string(r.applied) + " operator applications, allowed are " + std::to_string(limit));
  if (r.ex == "operator" && (q.fault != 3 || !r.hits))
    bad("wrong-exception", "unexpected operator error");
  if (q.fault == 3 && r.hits && r.ex != "operator")
    bad("error-lost", "the operator failed, but the solver " + (r.ok ? std::string("returned") : "reported " + r.ex));
  if (r.ex == "bad_alloc" && !r.fired)
    bad("wrong-exception", "unexpected memory error");
  // Reference iteration: largest iterate, to bound the rounding of the recurrence.
  double big = 0;
  bool ref_converged = false;
  {
    using L = long double;
    std::vector<L> X(n, 0), R(b0.begin(), b0.end()), D = R;
    L rr = 0;
    const L goal = (L)tol * (L)tol / 4;
    for (L u : R)
      rr += u * u;
    ref_converged = rr < goal;
    for (int k = 0; k < limit && !ref_converged; ++k)
    {
      std::vector<L> Z(n, 0);
      L dz = 0;
      for (int i = 0; i < n; ++i)
      {
        for (int j = 0; j < n; ++j)
          Z[i] += A.a[(size_t)i * n + j] * D[j];
        dz += D[i] * Z[i];
      }
      L al = rr / dz, old = rr;
      rr = 0;
      for (int i = 0; i < n; ++i)
      {
        X[i] += al * D[i];
        R[i] -= al * Z[i];
        rr += R[i] * R[i];
        if (std::isfinite((double)X[i]))
          big = std::max(big, std::fabs((double)X[i]));
        else
          big = 1e300;
      }
      for (int i = 0; i < n; ++i)
        D[i] = R[i] + rr / old * D[i];
      ref_converged = rr < goal;
    }
  }
  // Definite systems: the known bound of the attainable accuracy; otherwise iterates may be huge on the way.
  bool definite = q.cls == 0 || q.cls == 2 || q.cls == 6 || q.cls == 7;
  double slack = 200 * eps * (limit + 1) * n * (na * big * n + nb);
  if (definite)
    slack = std::min(slack, 30 * eps * (r.applied + 1 + n) * (rowsum * big * std::sqrt((double)n) + nb));
  if (r.ok)
  {
    if ((int)r.v.size() != n)
      bad("wrong-size", "solution has the wrong size");
    else
    {
      long double s = 0;
      for (int i = 0; i < n; ++i)
      {
        long double e = -(long double)b0[i];
        for (int j = 0; j < n; ++j)
          e += (long double)A.a[(size_t)i * n + j] * (long double)r.v[j];
        s += e * e;
      }
      double res = (double)std::sqrt(s);
      if (!std::isfinite(res))
      {
        if (q.rhs != 2 || true)
          bad("not-finite", "the solver returned a non-finite solution");
      }
      else if (res > (double)tol * (1 + 1e-3) + slack)
        bad("not-converged", "the solver returned a vector with residual " + std::to_string(res) + ", tolerance " + std::to_string((double)tol) + " (n=" + std::to_string(n) + ", class " + std::to_string(q.cls) + ")");
    }
  }
  // Progress: a definite system for which the allowed iterations suffice in exact arithmetic is solved.
  if (!r.ok && r.hits == 0 && r.fired == 0 && definite && q.rhs != 2 && (double)tol > 1e4 * eps * n * (nb + 1) * 10 && ref_converged)
    bad("no-progress", "a well-conditioned definite system was not solved (n=" + std::to_string(n) + ", " + r.ex + ")");
  return r;
}
struct CgSim : Sim
{
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    int n_ops = 1 + (int)r.below(thorough ? 16 : 8);
    for (int i = 0; i < n_ops; ++i)
    {
      int n = 1 + (int)r.below(r.chance(1, 30) ? 120 : r.chance(1, 4) ? 16 : 7);
      int fault = 0, at = 0, times = 1;
      long al = -1;
      if (r.chance(1, 3))
      {
        fault = 1 + (int)r.below(4);
        at = (int)r.below(r.chance(1, 2) ? 2 : 6);
        times = r.chance(2, 3);
      }
      else if (r.chance(1, 6))
        al = (long)r.below(12);
      int rhs[] = {0, 0, 0, 0, 1, 2, 3, 4, 5};
      char b[200];
      snprintf(b, sizeof b, "op %d %d %llu %d %d %d %d %d %d %ld %d", (int)r.below(2), n, (unsigned long long)r.below(1000000), r.chance(1, 2) ? (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 2 : 7) : (int)r.below(8),
               r.chance(1, 6) ? 99 : (int)r.below(15), r.chance(1, 3) ? 0 : 1 + (int)r.below(2 * n + 4), fault, at, times, al, rhs[r.below(9)]);
      p.add(b);
    }
    return p;
  }
  Outcome execute(const Plan& p, const std::string& scratch) override
  {
    return isolated(scratch, 10,
                    [&](Outcome& o)
                    {
                      std::vector<CgOp> ops;
                      for (auto& w : p.all("op"))
                        if (w.size() >= 12)
                          ops.push_back(CgOp{atoi(w[1].c_str()), atoi(w[2].c_str()), strtoull(w[3].c_str(), 0, 10), atoi(w[4].c_str()), atoi(w[5].c_str()), atoi(w[6].c_str()), atoi(w[7].c_str()), atoi(w[8].c_str()), atoi(w[9].c_str()), atol(w[10].c_str()), atoi(w[11].c_str())});
                      allocsim::poison = true;
                      static const char* fn[] = {"", "operator-nan", "operator-inf", "operator-throws", "operator-entry-nan"};
                      auto one = [&](size_t i, const CgOp& q)
                      {
                        CgResult r = q.f32 ? run_cg<float>(q) : run_cg<double>(q);
                        o.steps += (uint64_t)r.applied + 1;
                        if (!r.problem.empty())
                          o.violate(r.problem, "solve #" + std::to_string(i) + ": " + r.detail);
                        if (r.hits)
                          ++o.faults[fn[q.fault]];
                        if (r.fired)
                          ++o.faults["allocation-fails"];
                        if (q.rhs == 2)
                          ++o.faults["rhs-nan"];
                        o.nontrivial |= r.hits || r.fired || !r.ok;
                        ++o.counters[r.ok ? "solved" : r.ex];
                        o.trace.add(r.ok ? "R" : r.ex);
                        o.trace.add((uint64_t)r.applied);
                        for (double x : r.v)
                        {
                          uint64_t u;
                          memcpy(&u, &x, 8);
                          o.trace.add(u);
                        }
                        Hash h;
                        h.add(r.ok ? "R" : r.ex);
                        h.add((uint64_t)(q.n * 1000 + q.cls * 100 + q.f32 * 10 + q.rhs));
                        h.add((uint64_t)(r.hits ? q.fault : 0) * 100 + (uint64_t)r.applied);
                        o.states.push_back(h.h);
                        return r;
                      };
                      std::vector<CgResult> first;
                      for (size_t i = 0; i < ops.size(); ++i)
                        first.push_back(one(i, ops[i]));
                      for (size_t j = ops.size(); j-- > 0;)
                      {
                        CgOp q = ops[j];
                        bool faulty = q.fault || q.alloc_at >= 0;
                        q.fault = 0;
                        q.alloc_at = -1;
                        CgResult r = one(j, q);
                        if (!faulty && (first[j].ok != r.ok || first[j].ex != r.ex || first[j].v.size() != r.v.size() || (r.v.size() && memcmp(first[j].v.data(), r.v.data(), 8 * r.v.size()))))
                          o.violate("history-matters", "repeating solve #" + std::to_string(j) + " gave another result");
                      }
                      // Vector kernels, exactly.
                      Rng g(ops.empty() ? 1 : ops[0].seed);
                      int n = 1 + (int)g.below(9);
                      std::vector<double> a(n), b(n), c(n, 7.);
                      double s = 0, f1 = g.range(-4, 4), f2 = g.range(-4, 4), f3 = g.range(-4, 4);
                      for (int i = 0; i < n; ++i)
                      {
                        a[i] = g.range(-9, 9);
                        b[i] = g.range(-9, 9);
                        s += a[i] * b[i];
                      }
                      if (SparseLA::inner_product(a, b) != s)
                        o.violate("kernel", "inner product is wrong");
                      std::vector<double> d = SparseLA::linear_combination(f1, a, f2, b);
                      SparseLA::linear_combination(f1, a, f2, b, c);
                      std::vector<double> e = a;
                      SparseLA::linear_combination(f1, e, f3, b, e);  // result is an argument
                      double nn = 0;
                      for (int i = 0; i < n; ++i)
                      {
                        nn += a[i] * a[i];
                        if (d[i] != f1 * a[i] + f2 * b[i] || c[i] != d[i] || e[i] != f1 * a[i] + f3 * b[i])
                          o.violate("kernel", "linear combination is wrong");
                      }
                      if (std::fabs(SparseLA::norm_2(a) - std::sqrt(nn)) > 1e-12 * nn)
                        o.violate("kernel", "norm is wrong");
                    });
  }
};

int main(int argc, char** argv)
{
  CgSim c;
  DenseSim d;
  return sim_main(argc, argv, sim_property() == 13 ? (Sim&)c : (Sim&)d);
}
