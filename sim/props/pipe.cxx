// C15: complete computations with the library's own local solvers. One run schedules one to three computations
// (set-up, refinement, initial values, right-hand sides, solves, time steps, errors, plots), at call granularity
// and nested in each other, lets LAPACK, allocations and evaluations of problem data fail, and compares what
// comes out with the solution that is known exactly.
#include "core/alloc.hxx"
#include "core/forkrun.hxx"
#include "core/lapack.hxx"
#include "core/pipe.hxx"
#include <cmath>
#include <optional>
using namespace sim;

namespace pipe_sim
{
thread_local const Prob* cur = nullptr;
thread_local long throw_at = -1, evaluations = 0, nest_at = -1;
static std::function<void()> nested_call;
void nested()
{
  allocsim::Pause pause;
  if (nested_call)
    nested_call();
}
#define DECLARE(n)                             \
  std::unique_ptr<IComp> make_##n(const Spec&); \
  Facts facts_##n(const Spec&, double);
DECLARE(diffusion)
DECLARE(diffusion_uniform)
DECLARE(parabolic)
DECLARE(bilaplacian)
DECLARE(bilaplacian_uniform)
DECLARE(biparabolic)
DECLARE(advection)
DECLARE(ip)
DECLARE(pp)
DECLARE(eigs)
DECLARE(bieigs)
DECLARE(mass)
DECLARE(bimass)
DECLARE(shifted)
DECLARE(advection_net)
DECLARE(advection_mass)
#undef DECLARE
enum Kind { ELLIPTIC, UNIFORM, TIME, EIGEN, SHIFTED, MASS };
struct Family
{
  const char* name;
  std::unique_ptr<IComp> (*make)(const Spec&);
  Facts (*facts)(const Spec&, double);
  Kind kind;
  int data;        // Prob::kind
  bool symmetric;  // and definite: conjugate gradients
  unsigned blocks;
  std::vector<std::pair<int, int>> meshes;  // mesh, degree
};
static const std::vector<Family>& families()
{
  static const std::vector<Family> f = {
    {"Diffusion", make_diffusion, facts_diffusion, ELLIPTIC, 0, true, 1, {{0, 1}, {0, 3}, {1, 2}, {2, 2}, {3, 2}, {4, 1}, {5, 2}, {6, 2}}},
    {"DiffusionUniform", make_diffusion_uniform, facts_diffusion_uniform, UNIFORM, 0, true, 1, {{1, 1}, {2, 1}, {3, 1}}},
    {"DiffusionParab", make_parabolic, facts_parabolic, TIME, 1, true, 1, {{0, 3}, {1, 2}, {2, 2}, {3, 2}, {5, 2}}},
    {"Bilaplacian", make_bilaplacian, facts_bilaplacian, ELLIPTIC, 2, false, 2, {{0, 3}, {1, 2}, {2, 2}, {3, 2}}},
    {"BilaplacianUniform", make_bilaplacian_uniform, facts_bilaplacian_uniform, UNIFORM, 2, false, 2, {{1, 1}, {2, 1}}},
    {"BilaplacianParab", make_biparabolic, facts_biparabolic, TIME, 3, false, 2, {{0, 3}, {1, 2}, {2, 2}}},
    {"DiffusionAdvectionReaction", make_advection, facts_advection, ELLIPTIC, 4, false, 1, {{0, 3}, {2, 2}}},
    {"DiffusionIP", make_ip, facts_ip, ELLIPTIC, 0, false, 1, {{0, 3}, {1, 2}, {2, 2}, {3, 2}}},
    {"DiffusionPostprocess", make_pp, facts_pp, ELLIPTIC, 0, true, 1, {{0, 2}, {1, 2}, {2, 2}}},
    {"DiffusionEigs", make_eigs, facts_eigs, EIGEN, 0, false, 1, {{0, 3}, {1, 2}, {2, 2}, {5, 2}}},
    {"BilaplacianEigs", make_bieigs, facts_bieigs, EIGEN, 2, false, 2, {{0, 3}, {1, 2}, {2, 2}}},
    {"Diffusion (mass)", make_mass, facts_mass, MASS, 0, true, 1, {{0, 3}, {1, 2}, {2, 1}, {2, 2}, {6, 2}}},
    {"Bilaplacian (mass)", make_bimass, facts_bimass, MASS, 2, false, 2, {{0, 3}, {1, 2}, {2, 2}}},
    {"DiffusionEigs (shifted)", make_shifted, facts_shifted, SHIFTED, 0, true, 1, {{0, 3}, {2, 2}, {5, 2}}},
    {"DiffusionAdvectionReaction (diffusion only)", make_advection_net, facts_advection_net, ELLIPTIC, 0, true, 1, {{1, 2}, {6, 2}}},
    {"DiffusionAdvectionReaction (mass)", make_advection_mass, facts_advection_mass, MASS, 0, true, 1, {{0, 3}, {6, 2}}}};
  return f;
}
static const int mesh_dims[7][2] = {{1, 1}, {1, 2}, {2, 2}, {2, 3}, {3, 3}, {1, 2}, {1, 3}};

static uint64_t hh(uint64_t a, uint64_t b, uint64_t c = 0) { return mix64(mix64(a * 31 + b) * 131 + c); }
/// -2 .. 2 in steps of 1/8, never 0
static double dy(uint64_t seed, uint64_t i)
{
  int v = (int)(hh(seed, i, 7) % 32) - 16;
  return (v >= 0 ? v + 1 : v) / 8.;
}
static double norm(const Vec& v)
{
  double s = 0;
  for (double x : v)
    s = std::max(s, std::isfinite(x) ? std::abs(x) : 1e300);
  return s;
}
static std::string num(double x)
{
  char b[40];
  snprintf(b, sizeof b, "%.12g", x);
  return b;
}

/// Solves the dense system; false if it is singular to working precision.
static bool dense_solve(std::vector<Vec> a, Vec b, Vec& x)
{
  size_t n = b.size();
  double big = 0;
  for (auto& r : a)
    big = std::max(big, norm(r));
  for (size_t k = 0; k < n; ++k)
  {
    size_t piv = k;
    for (size_t i = k; i < n; ++i)
      if (std::abs(a[i][k]) > std::abs(a[piv][k]))
        piv = i;
    if (!(std::abs(a[piv][k]) > 1e-11 * big))
      return false;
    std::swap(a[k], a[piv]);
    std::swap(b[k], b[piv]);
    for (size_t i = k + 1; i < n; ++i)
    {
      double f = a[i][k] / a[k][k];
      if (f == 0)
        continue;
      for (size_t j = k; j < n; ++j)
        a[i][j] -= f * a[k][j];
      b[i] -= f * b[k];
    }
  }
  x.assign(n, 0.);
  for (size_t k = n; k-- > 0;)
  {
    double s = b[k];
    for (size_t j = k + 1; j < n; ++j)
      s -= a[k][j] * x[j];
    x[k] = s / a[k][k];
  }
  return true;
}

struct Fault
{
  int kind = 0;  // 0 none, 1 LAPACK, 2 allocation, 3 data, 4 other computation called in between
  long at = 0;
  int call = 0;  // which library call of the operation
  int other = 0;
  uint64_t seed = 0;
};
struct Failed
{
  std::string what;
};
struct Violation
{
  std::string clause, detail;
};

struct World;
struct Computation
{
  World& world;
  int id;
  Spec spec;
  const Family& fam;
  Prob prob;
  uint64_t seed;
  std::unique_ptr<IComp> c;
  double t0 = 0, t = 0;
  bool started = false, pending = false, solved = false;
  int steps = 0;
  Vec x;            // solution at time t
  Facts facts;      // of time t
  unsigned level = 1;
  Computation(World& w, int i, const Spec& s, uint64_t sd) : world(w), id(i), spec(s), fam(families()[s.family]), seed(sd) {}
};
struct World
{
  Outcome& o;
  std::string scratch;
  std::vector<std::unique_ptr<Computation>> comps;
  Fault fault;
  int call_no = 0;
  bool inside = false;
  int plots = 0;
  explicit World(Outcome& out, const std::string& s) : o(out), scratch(s) {}

  std::string name(const Computation& k) { return std::string(k.fam.name) + " on mesh " + std::to_string(k.spec.mesh) + " (degree " + std::to_string(k.spec.deg) + ", level " + std::to_string(k.level) + ")"; }
  void bad(const Computation& k, const std::string& clause, const std::string& d) { throw Violation{clause, name(k) + ": " + d}; }

  /// One call of the library, with the fault of the operation if this is the one.
  template <typename F>
  auto lib(Computation& k, F f)
  {
    const Prob* was = cur;
    cur = &k.prob;
    bool mine = !inside && fault.kind && call_no++ == fault.call;
    long lap0 = lap::injected, al0 = allocsim::fired;
    bool outer = !inside;
    try
    {
      struct Keep  // nested calls leave the fault of the outer one alone
      {
        const Prob* p;
        long a = throw_at, b = nest_at, l = lap::fail_at;
        bool outer;
        ~Keep()
        {
          cur = p;
          throw_at = outer ? -1 : a;
          nest_at = outer ? -1 : b;
          lap::fail_at = outer ? -1 : l;
        }
      } keep{was, throw_at, nest_at, lap::fail_at, outer};
      if (!outer)
        throw_at = nest_at = lap::fail_at = -1;
      if (mine && fault.kind == 1)
      {
        lap::fail_at = fault.at;
        lap::fail_info = (fault.seed & 1) ? 1 : -3;
        lap::garbage = fault.seed & 2;
      }
      if (mine && fault.kind == 3)
        throw_at = fault.at;
      if (mine && fault.kind == 4)
      {
        nest_at = fault.at;
        nested_call = [this]() {
          ++o.faults["other computation runs in the middle of a call"];
          inside = true;
          struct Out { bool& i; ~Out() { i = false; } } out{inside};
          disturb(*comps[fault.other], fault.seed);
        };
      }
      allocsim::Section section(mine && fault.kind == 2 ? fault.at : -1);
      return f();
    }
    catch (const Violation&)
    {
      throw;
    }
    catch (const DataError&)
    {
      if (!(mine && fault.kind == 3))
        throw Violation{"unexpected-exception", name(k) + ": data error without an injected one"};
      ++o.faults["problem data fail"];
      throw Failed{"data"};
    }
    catch (const std::bad_alloc&)
    {
      if (allocsim::fired == al0)
        throw Violation{"unexpected-exception", name(k) + ": std::bad_alloc although no allocation failed"};
      ++o.faults["allocation fails"];
      throw Failed{"allocation"};
    }
    catch (const std::exception& e)
    {
      if (lap::injected == lap0 && allocsim::fired == al0)
        throw Violation{"unexpected-exception", name(k) + ": " + e.what()};
      ++o.faults["LAPACK call fails"];
      throw Failed{e.what()};
    }
  }
  Facts facts(Computation& k, double t)
  {
    const Prob* was = cur;
    cur = &k.prob;
    Spec s = k.spec;
    s.level = k.level;
    Facts f = k.fam.facts(s, t);
    cur = was;
    return f;
  }
  // Coefficients of the solution of a network: the graph Laplacian with the lengths of the hyperedges.
  void network_reference(Computation& k, Facts& f)
  {
    size_t n = f.trace.size();
    std::vector<Vec> a(n, Vec(n, 0.));
    Vec b(n, 0.);
    for (size_t e = 0; e < f.ends.size(); ++e)
      for (int s = 0; s < 2; ++s)
      {
        unsigned i = f.ends[e][s], j = f.ends[e][1 - s];
        a[i][i] += k.prob.k * (1 + k.prob.kt * k.t) / f.length[e];
        a[i][j] -= k.prob.k * (1 + k.prob.kt * k.t) / f.length[e];
        b[i] += k.prob.f * f.length[e] / 2;
      }
    for (size_t i = 0; i < n; ++i)
      if (f.is_dirichlet[i])
      {
        a[i].assign(n, 0.);
        a[i][i] = 1;
        b[i] = f.trace_all[i];
      }
    Vec u;
    if (!dense_solve(a, b, u))
    {
      fprintf(stderr, "harness: network without Dirichlet node\n");
      _exit(97);
    }
    f.trace_all = u;
    for (size_t i = 0; i < n; ++i)
      f.trace[i] = f.is_dirichlet[i] ? 0. : u[i];
  }
  void build(Computation& k)
  {
    make_data(k);
    k.c = lib(k, [&] { return k.fam.make(k.spec); });
    if (!k.c)
    {
      fprintf(stderr, "harness: no such configuration\n");
      _exit(97);
    }
    k.level = 1;
    if (k.spec.level != 1)
    {
      lib(k, [&] { k.c->refine(k.spec.level); return 0; });
      k.level = k.spec.level;
    }
    fresh(k);
  }
  void fresh(Computation& k)
  {
    k.started = k.fam.kind != TIME;
    k.pending = k.solved = false;
    k.steps = 0;
    k.t = k.t0;
    k.facts = facts(k, k.t);
    if (k.prob.kind == 5)
      network_reference(k, k.facts);
    if (k.spec.mesh < 5)
    {
      // The unit cube, its faces or its lines.
      double want = 0;
      if (k.prob.ed == k.prob.sd)
        want = 1;
      else if (k.prob.ed == 1 && k.prob.sd == 2)
        want = (k.spec.n[0] + 1.) + (k.spec.n[1] + 1.);
      else
        want = (k.spec.n[0] + 1.) + (k.spec.n[1] + 1.) + (k.spec.n[2] + 1.);
      if (!(std::abs(want - k.facts.measure) <= 1e-9 * want))
        bad(k, "measure", "the domain has measure " + num(k.facts.measure) + " instead of " + num(want));
    }
    if (k.facts.trace.size() != k.c->zero().size())
      bad(k, "size", "system has " + std::to_string(k.c->zero().size()) + " unknowns instead of " + std::to_string(k.facts.trace.size()));
  }
  void make_data(Computation& k)
  {
    Prob& p = k.prob;
    p = Prob();
    p.ed = mesh_dims[k.spec.mesh][0];
    p.sd = mesh_dims[k.spec.mesh][1];
    p.kind = k.fam.data;
    uint64_t s = k.seed;
    k.t0 = (double)(hh(s, 1) % 3) / 2;
    p.c0 = dy(s, 2);
    static const double ks[] = {1, 2, .5, 1.5};
    p.k = ks[hh(s, 3) % 4];
    for (int d = 0; d < p.sd; ++d)
    {
      p.a[d] = dy(s, 10 + d);
      p.b[d] = dy(s, 20 + d);
      p.vel[d] = k.fam.data == 4 ? dy(s, 30 + d) / 2 : 0.;
    }
    for (int d = 0; d < p.sd * (p.sd - 1) / 2; ++d)
      p.m[d] = dy(s, 40 + d);
    p.b0 = dy(s, 4);
    p.react = k.fam.data == 4 ? std::abs(dy(s, 5)) : 0.;
    if (k.spec.deg > 1)
      p.q = dy(s, 6);
    if (p.ed == p.sd && k.spec.deg >= (p.sd == 1 ? 3 : 2))
      p.s = dy(s, 7);
    if (k.spec.theta == .5 && p.kind == 1)
      p.c2 = dy(s, 8);
    if (k.fam.kind == UNIFORM)
    {
      p.q = p.s = 0;
      p.k = 1;
    }
    if ((k.fam.kind == ELLIPTIC || k.fam.kind == TIME) && hh(s, 50) % 2)
      p.kt = .5 * (double)(1 + hh(s, 51) % 3);
    if ((p.kind == 0 || p.kind == 1) && (k.fam.kind == ELLIPTIC || k.fam.kind == TIME) && k.spec.deg >= 2 && k.spec.mesh < 5 && hh(s, 52) % 3 == 0)
    {
      p.kx = .5 * (double)(1 + hh(s, 53) % 3);
      for (int d = 0; d < 3; ++d)
        p.m[d] = p.b[d] = p.a[d] = 0;
      p.q = p.s = 0;
      p.a[0] = dy(s, 10);
      p.qx = p.a[0] * p.kx / 2;
    }
    if (k.spec.mesh >= 5)
    {
      for (int d = 0; d < 3; ++d)
        p.m[d] = 0;
      p.q = 0;
      if (p.kind == 0)
      {
        p.kind = 5;
        p.f = dy(s, 9);
      }
      else
        for (int d = 0; d < 3; ++d)
          p.a[d] = p.b[d] = 0;
    }
  }
  Vec random_vec(Computation& k, uint64_t s, bool everywhere = false)
  {
    Vec v = k.c->zero();
    for (size_t i = 0; i < v.size(); ++i)
      v[i] = !everywhere && k.facts.is_dirichlet[i] && k.fam.kind != UNIFORM ? 0. : dy(s, 100 + i);
    return v;
  }
  void close_to(Computation& k, const Vec& a, const Vec& b, double tol, const std::string& clause, const std::string& what)
  {
    if (a.size() != b.size())
      bad(k, clause, what + ": sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()));
    double scale = 1 + std::max(norm(a), norm(b));
    for (size_t i = 0; i < a.size(); ++i)
      if (!(std::abs(a[i] - b[i]) <= tol * scale))
        bad(k, clause, what + ": entry " + std::to_string(i) + " is " + num(a[i]) + " instead of " + num(b[i]));
  }
  void record(const Vec& v)
  {
    if (!inside)
      o.trace.bytes(v.data(), v.size() * sizeof(double));
  }
  // ---------------------------------------------------------------------------- operations
  Vec solve(Computation& k, double t)
  {
    if (k.fam.kind == UNIFORM)
    {
      // Prescribed values are part of the vector; solve for the others.
      Vec b = k.c->zero();
      Vec xd = k.facts.trace_all;
      for (size_t i = 0; i < b.size(); ++i)
        if (!k.facts.is_dirichlet[i])
          xd[i] = 0;
      b = lib(k, [&] { return k.c->flux(xd, t); });
      Vec y = dense(k, b, t);
      for (size_t i = 0; i < y.size(); ++i)
        y[i] += xd[i];
      return y;
    }
    Vec b = lib(k, [&] { return k.c->residual(k.c->zero(), t); });
    record(b);
    if (k.fam.symmetric && k.prob.kt == 0)  // conjugate_gradient applies the operator of time 0
    {
      for (double& v : b)
        v = -v;
      double scale = 1 + norm(b);
      return lib(k, [&] { return k.c->solve_cg(b, 1e-11 * scale); });
    }
    return dense(k, b, t);
  }
  Vec dense(Computation& k, const Vec& b, double t)
  {
    std::vector<size_t> fr;
    for (size_t i = 0; i < b.size(); ++i)
      if (!k.facts.is_dirichlet[i])
        fr.push_back(i);
    std::vector<Vec> a(fr.size(), Vec(fr.size()));
    Vec r(fr.size());
    for (size_t j = 0; j < fr.size(); ++j)
    {
      Vec e = k.c->zero();
      e[fr[j]] = 1;
      Vec col = lib(k, [&] { return k.c->flux(e, t); });
      for (size_t i = 0; i < fr.size(); ++i)
        a[i][j] = col[fr[i]];
      r[j] = -b[fr[j]];
    }
    Vec y, full(b.size(), 0.);
    if (!dense_solve(a, r, y))
      bad(k, "singular", "the system has no unique solution");
    for (size_t j = 0; j < fr.size(); ++j)
      full[fr[j]] = y[j];
    return full;
  }
  const Vec& exact(const Computation& k) { return k.fam.kind == UNIFORM ? k.facts.trace_all : k.facts.trace; }
  static constexpr double tol = 2e-7;
  /// An evaluation whose result nobody uses: must not disturb anything.
  void disturb(Computation& k, uint64_t s)
  {
    Vec v = random_vec(k, s, hh(s, 1) % 2);
    double t = (double)(hh(s, 2) % 5) / 4;
    switch (hh(s, 3) % 4)
    {
      case 0: lib(k, [&] { return k.c->flux(v, t); }); break;
      case 1:
        if (k.fam.kind == ELLIPTIC || (k.fam.kind == TIME && k.started))
          lib(k, [&] { return k.c->residual(v, t); });
        break;
      case 2:
        if (k.fam.kind == ELLIPTIC || (k.fam.kind == TIME && k.started))
          lib(k, [&] { return k.c->errors(v, t); });
        break;
      case 3:
        if (k.fam.kind == ELLIPTIC && k.facts.trace.size() < 60)
          lib(k, [&] {
            std::vector<unsigned> r, c;
            Vec w;
            k.c->matrix(t, r, c, w);
            return 0;
          });
        break;
    }
  }
  /// Far below the first eigenvalue of every hyperedge.
  double eig_of(const Computation& k, uint64_t s)
  {
    double e = std::abs(dy(s, 4)) / 4, l = 1;
    for (double x : k.facts.length)
      l = std::max(l, x);
    return std::min(e, 2 * k.prob.k / (l * l));
  }
  double param_of(const Computation& k, uint64_t s)
  {
    if (k.fam.kind == EIGEN || k.fam.kind == SHIFTED)
      return eig_of(k, s);
    return k.t + (k.fam.kind == TIME && !k.pending ? k.spec.dt : 0.);
  }
  bool ready(const Computation& k, bool need_solution)
  {
    if (!k.started)
      return false;
    if (!need_solution)
      return true;
    if (k.fam.kind == TIME)
      return k.prob.kind == 3 ? k.pending : !k.pending && (k.steps > 0 || k.solved);
    return k.solved;
  }
  void start(Computation& k)
  {
    k.started = false;
    Vec v = lib(k, [&] { return k.c->initial(k.c->zero(), k.t0); });
    k.t = k.t0;
    k.facts = facts(k, k.t);
    close_to(k, v, k.facts.trace, tol, "initial-values", "coefficients of the initial value");
    record(v);
    k.x = v;
    k.started = true;
    k.pending = false;
    k.solved = true;
    k.steps = 0;
  }
  void run(Computation& k, const std::string& op, uint64_t s)
  {
    if (op == "build")
      return build(k);
    if (!k.c)
      return;
    if (op == "start")
    {
      if (k.fam.kind == TIME)
        start(k);
      else if (k.fam.kind == EIGEN)
      {
        Vec v = lib(k, [&] { return k.c->initial(k.c->zero(), k.t0); });
        close_to(k, v, facts(k, k.t0).trace, tol, "initial-values", "coefficients of the initial value");
      }
      return;
    }
    if (op == "solve")
    {
      if ((k.fam.kind != ELLIPTIC && k.fam.kind != UNIFORM) || !k.started)
        return;
      Vec v = solve(k, k.t);
      close_to(k, v, exact(k), tol, "solution", "coefficients of the solution");
      record(v);
      k.x = v;
      k.solved = true;
      ++o.counters["solves"];
      return;
    }
    if (op == "advance")
    {
      if (k.fam.kind != TIME || !k.started || k.pending)
        return;
      double t = k.t + k.spec.dt;
      Facts was = k.facts;
      k.facts = facts(k, t);
      try
      {
        Vec v = solve(k, t);
        close_to(k, v, k.facts.trace, tol, "solution", "coefficients of the solution at time " + num(t));
        record(v);
        k.x = v;
        k.pending = true;
        k.t = t;
        ++o.counters["solves"];
      }
      catch (...)
      {
        if (!k.pending)
          k.facts = was;
        throw;
      }
      return;
    }
    if (op == "commit")
    {
      if (k.fam.kind != TIME || !k.pending)
        return;
      k.started = false;  // a failed call leaves no time step to go on from
      lib(k, [&] { k.c->set_data(k.x, k.t); return 0; });
      k.started = true;
      k.pending = false;
      ++k.steps;
      ++o.counters["time steps"];
      return;
    }
    if (op == "errors")
    {
      if (!ready(k, true) || (k.fam.kind != ELLIPTIC && k.fam.kind != TIME))
        return;
      k.prob.shift = hh(s, 1) % 3 == 0 ? 0. : dy(s, 2);
      std::vector<double> e;
      try
      {
        e = lib(k, [&] { return k.c->errors(k.x, k.t); });
      }
      catch (...)
      {
        k.prob.shift = 0;
        throw;
      }
      double shift = k.prob.shift, want = std::abs(shift) * std::sqrt(k.facts.measure);
      k.prob.shift = 0;
      if (k.prob.kind == 5)
      {
        // Distance of the piecewise quadratic solution from the constant, by Simpson-exact integration.
        double sum = 0;
        static const double gx[] = {-0.774596669241483377, 0, 0.774596669241483377}, gw[] = {5. / 9, 8. / 9, 5. / 9};
        for (size_t i = 0; i < k.facts.ends.size(); ++i)
          for (int g = 0; g < 3; ++g)
          {
            double xi = (1 + gx[g]) / 2, l = k.facts.length[i];
            double u = (1 - xi) * k.facts.trace_all[k.facts.ends[i][0]] + xi * k.facts.trace_all[k.facts.ends[i][1]] + k.prob.f / (2 * k.prob.k * (1 + k.prob.kt * k.t)) * l * l * xi * (1 - xi);
            sum += gw[g] / 2 * l * (u - shift) * (u - shift);
          }
        want = std::sqrt(sum);
      }
      record(e);
      if (e.size() != 1 || !(std::abs(e[0] - want) <= 1e-6 * (1 + want + norm(k.facts.trace_all))))
        bad(k, "errors", "measured error is " + (e.empty() ? std::string("missing") : num(e[0])) + " instead of " + num(want));
      return;
    }
    if (op == "affine")
    {
      if (!ready(k, false))
        return;
      Vec v = random_vec(k, s), w = random_vec(k, s + 1);
      double t = param_of(k, s), a = dy(s, 3);
      Vec fv = lib(k, [&] { return k.c->flux(v, t); }), fw = lib(k, [&] { return k.c->flux(w, t); });
      Vec m(v.size());
      for (size_t i = 0; i < v.size(); ++i)
        m[i] = v[i] + a * w[i];
      Vec fm = lib(k, [&] { return k.c->flux(m, t); }), sum(v.size());
      for (size_t i = 0; i < v.size(); ++i)
        sum[i] = fv[i] + a * fw[i];
      close_to(k, fm, sum, tol, "linear", "flux of v + a w");
      record(fm);
      if (k.fam.kind == ELLIPTIC || (k.fam.kind == TIME && k.prob.kind == 3) || (k.fam.kind == TIME && !k.pending))
      {
        Vec r = lib(k, [&] { return k.c->residual(v, t); }), r0 = lib(k, [&] { return k.c->residual(k.c->zero(), t); });
        for (size_t i = 0; i < v.size(); ++i)
          sum[i] = r0[i] + fv[i];
        close_to(k, r, sum, tol, "affine", "residual of v (instead of residual of 0 plus flux of v)");
      }
      if (k.fam.symmetric)
      {
        double p = 0, q = 0, n = 0;
        for (size_t i = 0; i < v.size(); ++i)
        {
          p += w[i] * fv[i];
          q += v[i] * fw[i];
          n += std::abs(w[i] * fv[i]) + std::abs(v[i] * fw[i]);
        }
        if (!(std::abs(p - q) <= tol * (1 + n)))
          bad(k, "symmetric", "w.A v = " + num(p) + " but v.A w = " + num(q));
      }
      return;
    }
    if (op == "operator")
      return operators(k, s);
    if (op == "matrix")
    {
      if (k.fam.kind != ELLIPTIC && k.fam.kind != UNIFORM)
        return;
      if (k.facts.trace.size() > 150)
        return;
      std::vector<unsigned> r, c;
      Vec w;
      lib(k, [&] { k.c->matrix(k.t, r, c, w); return 0; });
      Vec v = random_vec(k, s), y(v.size(), 0.);
      for (size_t i = 0; i < w.size(); ++i)
      {
        if (r[i] >= v.size() || c[i] >= v.size())
          bad(k, "matrix", "entry outside of the matrix");
        y[r[i]] += w[i] * v[c[i]];
      }
      close_to(k, y, lib(k, [&] { return k.c->flux(v, k.t); }), tol, "matrix", "matrix times vector (instead of flux)");
      return;
    }
    if (op == "jacobian")
    {
      if (k.fam.kind != EIGEN)
        return;
      Vec v = random_vec(k, s), at = random_vec(k, s + 1);
      double e = dy(s, 3) / 4, ea = eig_of(k, s), h = 1. / 1024;
      Vec j = lib(k, [&] { return k.c->jacobian(v, e, at, ea); }), diff(v.size());
      for (int sgn : {1, -1})
      {
        Vec m(v.size());
        for (size_t i = 0; i < v.size(); ++i)
          m[i] = at[i] + sgn * h * v[i];
        Vec f = lib(k, [&] { return k.c->flux(m, ea + sgn * h * e); });
        for (size_t i = 0; i < v.size(); ++i)
          diff[i] += sgn * f[i] / (2 * h);
      }
      record(j);
      close_to(k, j, diff, 1e-3, "jacobian", "directional derivative (instead of difference quotient)");
      return;
    }
    if (op == "twin")
    {
      // A fresh object that has seen nothing but the exact time steps must agree with this one.
      if (!ready(k, false))
        return;
      Computation tw(*this, k.id, k.spec, k.seed);
      tw.spec.level = k.level;
      Fault keep = fault;
      fault = Fault();
      build(tw);
      if (k.fam.kind == TIME)
      {
        start(tw);
        for (int i = 0; i < k.steps; ++i)
        {
          tw.t += k.spec.dt;
          tw.facts = facts(tw, tw.t);
          lib(tw, [&] { tw.c->set_data(tw.facts.trace, tw.t); return 0; });
        }
      }
      fault = keep;
      call_no = 0;
      Vec v = random_vec(k, s);
      double t = k.fam.kind == EIGEN || k.fam.kind == SHIFTED ? eig_of(k, s) : k.fam.kind == TIME ? k.t0 + (k.steps + 1) * k.spec.dt : k.t;
      Vec a = lib(k, [&] { return k.c->flux(v, t); }), b = lib(tw, [&] { return tw.c->flux(v, t); });
      close_to(k, a, b, tol, "history", "flux (instead of that of a fresh object)");
      if (k.fam.kind == ELLIPTIC || k.fam.kind == TIME)
      {
        a = lib(k, [&] { return k.c->residual(v, t); });
        b = lib(tw, [&] { return tw.c->residual(v, t); });
        close_to(k, a, b, 1e-6, "history", "residual (instead of that of a fresh object)");
      }
      if (k.fam.kind == MASS)
        close_to(k, lib(k, [&] { return k.c->mass(v, t); }), lib(tw, [&] { return tw.c->mass(v, t); }), tol, "history", "mass flux (instead of that of a fresh object)");
      ++o.counters["twins compared"];
      return;
    }
    if (op == "refine")
    {
      unsigned l = 1 + (unsigned)(s % (k.prob.ed == 1 ? 3 : 2));
      if (k.prob.ed == 3 || (k.prob.ed == 2 && k.prob.sd == 3 && k.facts.n_edges > 6))
        l = 1;
      lib(k, [&] { k.c->refine(l); return 0; });
      k.level = l;
      if (k.c->level() != l)
        bad(k, "refinement", "level is " + std::to_string(k.c->level()) + " after asking for " + std::to_string(l));
      fresh(k);
      return;
    }
    if (op == "disturb")
      return disturb(k, s);
    if (op == "plot")
      return plot(k);
    fprintf(stderr, "harness: unknown operation %s\n", op.c_str());
    _exit(97);
  }
  /// Solvers of different problems that share an operator have to agree on it: the eigenvalue problem at
  /// eigenvalue 0 is the stationary one, its derivative by the eigenvalue is the mass operator, and so on.
  void related(Computation& k, uint64_t s)
  {
    if (k.facts.trace.empty() || (k.fam.kind != EIGEN && k.fam.kind != MASS && k.fam.kind != SHIFTED))
      return;
    auto other = [&](const char* name) {
      std::unique_ptr<IComp> c;
      for (auto& f : families())
        if (std::string(f.name) == name)
          for (auto& m : f.meshes)
            if (m.first == k.spec.mesh && m.second == k.spec.deg)
            {
              c = f.make(k.spec);
              if (k.level != 1)
                c->refine(k.level);
              return c;
            }
      return c;
    };
    Fault keep = fault;
    fault = Fault();
    bool bi = k.fam.blocks == 2, shifted = k.fam.kind == SHIFTED;
    std::string own = k.fam.name;
    Vec v = random_vec(k, s);
    double e = shifted ? eig_of(k, s) : 0.;
    std::unique_ptr<IComp> c = lib(k, [&] { return other(shifted ? "DiffusionEigs" : bi ? "Bilaplacian" : "Diffusion"); });
    if (c && own.find("Advection") == std::string::npos)
    {
      Vec a = lib(k, [&] { return k.c->flux(v, shifted ? e : k.fam.kind == MASS ? k.t : 0.); }), b = lib(k, [&] { return c->flux(v, shifted ? e : k.fam.kind == MASS ? k.t : 0.); });
      record(a);
      close_to(k, a, b, tol, "related", shifted ? "flux (instead of that of the nonlinear eigenvalue problem)" : "flux (instead of that of the stationary problem)");
      ++o.counters["operators compared with those of related problems"];
    }
    if (k.fam.kind == EIGEN)
    {
      c = lib(k, [&] { return other(bi ? "Bilaplacian (mass)" : "Diffusion (mass)"); });
      if (c)
      {
        Vec a = lib(k, [&] { return k.c->jacobian(k.c->zero(), 1., v, 0.); }), b = lib(k, [&] { return c->mass(v, 0.); });
        record(a);
        close_to(k, a, b, tol, "related", "derivative by the eigenvalue (instead of the mass operator)");
        ++o.counters["mass operators compared with those of related problems"];
      }
    }
    fault = keep;
    call_no = 0;
  }
  /// On networks of intervals the operators are known for every vector: those of piecewise linear elements.
  void operators(Computation& k, uint64_t s)
  {
    related(k, s);
    bool one = !k.facts.ends.empty() && k.fam.blocks == 1 && k.fam.data != 4 && k.fam.kind != TIME && k.prob.kx == 0;
    if (!one && k.fam.kind != MASS)
      return;
    Vec v = random_vec(k, s), w = random_vec(k, s + 1);
    double t = k.fam.kind == EIGEN || k.fam.kind == SHIFTED ? 0. : k.t, co = k.prob.k * (1 + k.prob.kt * k.t);
    if (one)
    {
      Vec f = lib(k, [&] { return k.c->flux(v, t); }), a(v.size(), 0.), m(v.size(), 0.);
      for (size_t e = 0; e < k.facts.ends.size(); ++e)
        for (int d = 0; d < 2; ++d)
        {
          unsigned i = k.facts.ends[e][d], j = k.facts.ends[e][1 - d];
          double l = k.fam.kind == UNIFORM ? 1 : k.facts.length[e];  // that solver knows unit intervals only
          a[i] += co / l * (v[i] - v[j]);
          m[i] += l / 6 * (2 * v[i] + v[j]);
        }
      if (k.fam.kind != UNIFORM)
        for (size_t i = 0; i < v.size(); ++i)
          if (k.facts.is_dirichlet[i])
            a[i] = m[i] = 0;
      for (double& x : a)
        x = -x;
      record(f);
      close_to(k, f, a, tol, "operator", "flux (instead of that of piecewise linear elements)");
      if (k.fam.kind == MASS)
        close_to(k, lib(k, [&] { return k.c->mass(v, t); }), m, tol, "operator", "mass flux (instead of that of piecewise linear elements)");
      if (k.fam.kind == EIGEN)
        close_to(k, lib(k, [&] { return k.c->jacobian(k.c->zero(), 1., v, 0.); }), m, tol, "operator", "derivative by the eigenvalue (instead of mass of piecewise linear elements)");
      ++o.counters["operators compared with piecewise linear elements"];
    }
    if (k.fam.kind == MASS)
    {
      Vec a = lib(k, [&] { return k.c->mass(v, t); }), b = lib(k, [&] { return k.c->mass(w, t); });
      double p = 0, q = 0, n = 0;
      for (size_t i = 0; i < v.size(); ++i)
      {
        p += w[i] * a[i];
        q += v[i] * b[i];
        n += std::abs(w[i] * a[i]) + std::abs(v[i] * b[i]);
      }
      record(a);
      if (k.fam.symmetric && !(std::abs(p - q) <= tol * (1 + n)))
        bad(k, "symmetric", "w.M v = " + num(p) + " but v.M w = " + num(q));
    }
  }
  void plot(Computation& k)
  {
    // Plots of time dependent problems solve the local problems of the time step that has not been stored yet.
    if ((k.fam.kind == TIME ? !k.started || !k.pending : !ready(k, true)) || k.prob.kind == 5 || k.fam.kind == EIGEN || k.fam.kind == SHIFTED || k.fam.kind == MASS)
      return;
    std::string dir = scratch + "/plots", file = "p" + std::to_string(plots++);
    lib(k, [&] {
      k.c->plot_option("outputDir", dir);
      k.c->plot_option("fileName", file);
      k.c->plot_option("printFileNumber", "false");
      k.c->plot_option("scale", "1");
      return 0;
    });
    lib(k, [&] { k.c->plot(k.x, k.t); return 0; });
    std::ifstream in(dir + "/" + file + ".vtu");
    std::stringstream ss;
    ss << in.rdbuf();
    std::string text = ss.str();
    auto numbers = [&](const std::string& tag, unsigned& comps) {
      std::vector<double> v;
      size_t i = text.find(tag);
      if (i == std::string::npos)
        return v;
      size_t c = text.find("NumberOfComponents=\"", i), e = text.find(">", i);
      comps = c < e ? (unsigned)atoi(text.c_str() + c + 20) : 1;
      if (c > e)
      {
        c = text.rfind("NumberOfComponents=\"", e);
        comps = (unsigned)atoi(text.c_str() + c + 20);
      }
      size_t stop = text.find("</DataArray>", e);
      std::istringstream is(text.substr(e + 1, stop - e - 1));
      double x;
      while (is >> x)
        v.push_back(x);
      return v;
    };
    unsigned pc = 3, vc = 1;
    size_t pts = text.find("<Points>");
    if (pts == std::string::npos)
      bad(k, "plot", "no points in the plot");
    std::vector<double> p = numbers("<DataArray type=\"Float32\" NumberOfComponents=\"3\"", pc), v = numbers("Name=\"values\"", vc);
    if (p.empty() || v.empty() || vc <= k.c->primal() || p.size() / 3 != v.size() / vc)
      bad(k, "plot", std::to_string(p.size() / 3) + " points but " + std::to_string(v.size()) + " values of " + std::to_string(vc) + " components");
    if (p.size() / 3 != (size_t)k.facts.n_edges << k.prob.ed)
      bad(k, "plot", std::to_string(p.size() / 3) + " points for " + std::to_string(k.facts.n_edges) + " hyperedges");
    double scale = 1 + norm(k.facts.trace_all);
    for (size_t i = 0; i < p.size() / 3; ++i)
    {
      double want = u_of(k.prob, &p[3 * i], k.t), got = v[i * vc + k.c->primal()];
      if (!(std::abs(want - got) <= 1e-3 * scale))
        bad(k, "plot", "plotted value " + num(got) + " instead of " + num(want) + " at point " + std::to_string(i));
    }
    ++o.counters["plots"];
  }
};

struct PipeSim : Sim
{
  Plan generate(Rng& r, bool thorough) override
  {
    Plan p;
    p.set("version", 1);
    int n = r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : 3;
    std::vector<std::vector<std::string>> prog(n);
    for (int i = 0; i < n; ++i)
    {
      int fam = (int)r.below(families().size());
      auto md = r.pick(families()[fam].meshes);
      std::ostringstream s;
      s << "comp " << i << " " << fam << " " << md.first << " " << md.second;
      int ed = mesh_dims[md.first][0], sd = mesh_dims[md.first][1];
      for (int d = 0; d < 3; ++d)
        s << " " << (md.first >= 5 || d >= sd ? 1 : ed == 1 ? (sd == 1 ? r.range(1, 4) : r.range(1, 3)) : ed == 2 && sd == 2 ? r.range(1, 2) : r.chance(1, 4) ? 2 : 1);
      static const char *taus[] = {"1", "0.5", "1.5", "3"}, *dts[] = {"0.25", "0.5", "0.125"};
      bool ip = std::string(families()[fam].name) == "DiffusionIP";
      s << " " << (ip ? (r.chance(1, 2) ? "200" : "400") : taus[r.below(4)]) << " " << (r.chance(1, 2) ? "1" : "0.5") << " " << dts[r.below(3)];
      s << " " << (ed == 1 && r.chance(1, 3) ? r.range(2, 3) : ed == 2 && sd == 2 && r.chance(1, 6) ? 2 : 1) << " " << r.below(1u << 30);
      p.add(s.str());
      // Program of the computation.
      Kind kind = families()[fam].kind;
      bool bip = families()[fam].data == 3;
      auto& q = prog[i];
      q.push_back("build");
      auto extra = [&](bool committed) {
        (void)committed;
        for (int e = r.range(0, 2); e > 0; --e)
        {
          static const char* ops[] = {"errors", "affine", "matrix", "twin", "disturb", "plot", "errors", "disturb", "operator"};
          q.push_back(ops[r.below(9)]);
        }
      };
      int rounds = r.range(1, thorough ? 4 : 2);
      for (int k = 0; k < rounds; ++k)
      {
        if (kind == TIME)
        {
          q.push_back("start");
          extra(true);
          for (int st = r.range(1, thorough ? 5 : 3); st > 0; --st)
          {
            q.push_back("advance");
            if (bip)
            {
              q.push_back("errors");
              extra(false);
            }
            else if (r.chance(1, 2))
              q.push_back(r.chance(1, 2) ? "plot" : "disturb");
            q.push_back("commit");
            if (!bip)
            {
              q.push_back("errors");
              extra(true);
            }
          }
          if (r.chance(1, 2))
            q.push_back("twin");
        }
        else if (kind == EIGEN)
        {
          q.push_back("start");
          extra(true);
          q.push_back("jacobian");
          extra(true);
        }
        else if (kind == SHIFTED || kind == MASS)
        {
          q.push_back(r.chance(1, 3) ? "affine" : "operator");
          extra(true);
          q.push_back("twin");
        }
        else
        {
          q.push_back("solve");
          q.push_back("errors");
          extra(true);
        }
        if (k + 1 < rounds && r.chance(1, 2))
          q.push_back("refine");
        else if (k + 1 < rounds && r.chance(1, 4))
          q.push_back("build");
      }
    }
    // Interleave.
    std::vector<size_t> pos(n, 0);
    bool faults = r.chance(4, 5);
    for (;;)
    {
      std::vector<int> live;
      for (int i = 0; i < n; ++i)
        if (pos[i] < prog[i].size())
          live.push_back(i);
      if (live.empty())
        break;
      int i = live[r.below(live.size())];
      int burst = r.range(1, 3);
      while (burst-- > 0 && pos[i] < prog[i].size())
      {
        std::ostringstream s;
        s << "op " << i << " " << prog[i][pos[i]++] << " " << r.below(1u << 30);
        if (faults && r.chance(1, 4))
        {
          int kind = r.range(1, n > 1 ? 4 : 3);
          long at = kind == 1 ? (long)r.below(r.chance(1, 2) ? 4 : 40) : kind == 2 ? (long)r.below(6) : (long)r.below(r.chance(1, 2) ? 10 : r.chance(1, 2) ? 200 : 3000);
          int other = (int)r.below(n);
          if (kind == 4 && other == i)
            other = (i + 1) % n;
          s << " fault " << kind << " " << at << " " << (r.chance(2, 3) ? 0 : r.range(1, 4)) << " " << other << " " << r.below(1u << 20);
        }
        p.add(s.str());
      }
    }
    return p;
  }
  static std::string network(const std::string& dir, int sd, uint64_t seed)
  {
    std::string name = dir + "/net_" + std::to_string(sd) + "_" + std::to_string(seed) + ".geo";
    unsigned n = 2 + (unsigned)(hh(seed, 200) % 6);
    std::vector<std::array<unsigned, 2>> edges;
    for (unsigned i = 1; i < n; ++i)
    {
      unsigned j = (unsigned)(hh(seed, 201, i) % i);
      edges.push_back(hh(seed, 202, i) % 2 ? std::array<unsigned, 2>{i, j} : std::array<unsigned, 2>{j, i});
    }
    for (unsigned k = 0; k < hh(seed, 203) % 4; ++k)
    {
      unsigned a = (unsigned)(hh(seed, 204, k) % n), b = (unsigned)(hh(seed, 205, k) % n);
      bool known = a == b;
      for (auto& e : edges)
        known = known || (e[0] == a && e[1] == b) || (e[0] == b && e[1] == a);
      if (!known)
        edges.push_back({a, b});
    }
    std::vector<unsigned> type(n, 0);
    type[hh(seed, 206) % n] = 1;
    for (unsigned i = 0; i < n; ++i)
      if (hh(seed, 207, i) % 4 == 0)
        type[i] = 1 + (unsigned)(hh(seed, 208, i) % 3);
    std::ofstream f(name);
    f << "Space_Dim = " << sd << ";\nHyperEdge_Dim = 1;\nN_Points = " << n << ";\nN_HyperNodes = " << n << ";\nN_HyperEdges = " << edges.size() << ";\n\nPOINTS:\n";
    for (unsigned i = 0; i < n; ++i)
    {
      f << (double)i / 2;
      for (int d = 1; d < sd; ++d)
        f << " " << (double)(hh(seed, 209 + d, i) % 16) / 8;
      f << "\n";
    }
    f << "\nHYPERNODES_OF_HYPEREDGES:\n";
    for (auto& e : edges)
      f << e[0] << " " << e[1] << "\n";
    f << "\nTYPES_OF_HYPERFACES:\n";
    for (auto& e : edges)
      f << type[e[0]] << " " << type[e[1]] << "\n";
    f << "\nPOINTS_OF_HYPEREDGES:\n";
    for (auto& e : edges)
      f << e[0] << " " << e[1] << "\n";
    return name;
  }
  bool removable(const std::string& l) override { return l.rfind("op ", 0) == 0; }
  Outcome execute(const Plan& plan, const std::string& scratch) override
  {
    return isolated(scratch, 60, [&](Outcome& o) { body(plan, scratch, o); });
  }
  void body(const Plan& plan, const std::string& scratch, Outcome& o)
  {
    allocsim::poison = true;
    World w(o, scratch);
    std::string dir = scratch + "/pipe";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir + "/plots");
    w.scratch = dir;
    for (auto& l : plan.all("comp"))
    {
      Spec s;
      s.family = atoi(l[2].c_str());
      s.mesh = atoi(l[3].c_str());
      s.deg = atoi(l[4].c_str());
      for (int d = 0; d < 3; ++d)
        s.n.push_back((unsigned)atoi(l[5 + d].c_str()));
      s.tau = atof(l[8].c_str());
      s.theta = atof(l[9].c_str());
      s.dt = atof(l[10].c_str());
      s.level = (unsigned)atoi(l[11].c_str());
      uint64_t seed = strtoull(l[12].c_str(), nullptr, 10);
      if (s.mesh >= 5)
        s.file = network(dir, mesh_dims[s.mesh][1], seed);
      w.comps.push_back(std::make_unique<Computation>(w, (int)w.comps.size(), s, seed));
      ++o.counters[std::string("computations with ") + families()[s.family].name];
    }
    try
    {
      for (auto& l : plan.all("op"))
      {
        Computation& k = *w.comps[atoi(l[1].c_str())];
        uint64_t s = strtoull(l[3].c_str(), nullptr, 10);
        w.fault = Fault();
        w.call_no = 0;
        if (l.size() > 8 && l[4] == "fault")
        {
          w.fault.kind = atoi(l[5].c_str());
          w.fault.at = atol(l[6].c_str());
          w.fault.call = atoi(l[7].c_str());
          w.fault.other = atoi(l[8].c_str());
          w.fault.seed = strtoull(l[9].c_str(), nullptr, 10);
          if (w.fault.kind == 4 && !w.comps[w.fault.other]->c)
            w.fault = Fault();
        }
        ++o.steps;
        o.trace.add(l[2]);
        Hash st;
        st.add(k.fam.name);
        st.add((uint64_t)k.spec.mesh * 8 + k.level);
        st.add((uint64_t)k.steps * 4 + k.pending * 2 + k.started);
        st.add(l[2]);
        st.add((uint64_t)w.fault.kind);
        o.states.push_back(st.h);
        bool again = false;
        try
        {
          w.run(k, l[2], s);
        }
        catch (const Failed& f)
        {
          o.trace.add(f.what);
          o.nontrivial = true;
          again = true;
        }
        if (again)
        {
          // The caller tries again; a failed time step or initial value starts the computation anew.
          w.fault = Fault();
          if (k.fam.kind == TIME && k.c && !k.started && l[2] != "build" && l[2] != "refine")
          {
            w.start(k);
            o.trace.add("restart");
          }
          else
            w.run(k, l[2], s);
        }
        if (w.comps.size() > 1)
          o.nontrivial = true;
      }
    }
    catch (const Violation& v)
    {
      o.violate(v.clause, v.detail);
    }
    catch (const Failed& f)
    {
      o.violate("unexpected-exception", "failure without an injected fault: " + f.what);
    }
    o.trace.add(o.clause);
    std::filesystem::remove_all(dir);
  }
};
}  // namespace pipe_sim
int main(int argc, char** argv)
{
  pipe_sim::PipeSim s;
  return sim_main(argc, argv, s);
}
