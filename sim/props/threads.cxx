// C08: threads with objects of their own under a seeded scheduler that preempts at any basic block of the
// library. The results of every thread are compared with those of the same calls made alone.
#define ALLOC_NO_OPERATORS
#include "core/alloc.hxx"
#include "core/forkrun.hxx"
#include "core/mock.hxx"
#include "core/pipe.hxx"
#include "core/threads.hxx"
#include <HyperHDG/mapping/linear.hxx>
#include <HyperHDG/read_domain.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <dirent.h>
#include <sched.h>
using namespace sim;
using mock::Vec;

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
static std::string hex(const void* p, size_t n)
{
  std::string r;
  char b[4];
  for (size_t i = 0; i < n; ++i)
  {
    snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]);
    r += b;
  }
  return r;
}
template <typename T>
static std::string bits(const std::vector<T>& v)
{
  thr::Pause pause;
  std::string r = std::to_string(v.size()) + ":";
  for (auto& x : v)
  {
    if constexpr (std::is_floating_point_v<T>)
    {
      char b[40];
      snprintf(b, sizeof b, " %a", (double)x);
      r += b;
    }
    else
      r += " " + std::to_string(x);
  }
  return r;
}
template <typename M>
static void put(std::string& r, const M& m)
{
  thr::Pause pause;
  char b[40];
  for (unsigned i = 0; i < m.size(); ++i)
  {
    snprintf(b, sizeof b, " %a", (double)m[i]);
    r += b;
  }
  r += ";";
}

// ------------------------------------------------------------------------------ small matrices
template <unsigned n, unsigned m, typename T>
static SmallMat<n, m, T> mat(uint64_t seed, unsigned k)
{
  thr::Pause pause;
  SmallMat<n, m, T> a;
  for (unsigned i = 0; i < n * m; ++i)
    a[i] = (T)((double)(mock::hsh(seed, k, i, 17) % 41) - 20) / (T)4;
  return a;
}
template <unsigned n, unsigned m, typename T>
static std::string dense(int what, uint64_t seed)
{
  auto A = mat<n, n, T>(seed, 1);
  if (seed % 5 == 0)  // singular
    A.set_column(n - 1, n > 1 ? A.get_column(0) : SmallVec<n, T>());
  auto B = mat<n, m, T>(seed, 2);
  const auto C = mat<n, m, T>(seed, 3);
  std::string r;
  switch (what)
  {
    case 0:
    {
      auto X = B / A;
      put(r, X);
      break;
    }
    case 1:
    {
      const auto A0 = A;
      const auto B0 = B;
      auto X = B0 / A0;
      put(r, X);
      put(r, A0);
      break;
    }
    case 2:
    {
      SmallSquareMat<n, T> Q;
      SmallSquareMat<m, T> R;
      qr_decomp(C, Q, R);
      put(r, Q);
      put(r, R);
      break;
    }
    case 3:
      put(r, qr_decomp_q(C));
      break;
    case 4:
    {
      SmallVec<1, T> d(determinant(C));
      put(r, d);
      break;
    }
    case 5:
    {
      put(r, A * C);
      put(r, transposed(C));
      put(r, transposed_mat_times_mat(C, B));
      put(r, B + C);
      put(r, B - C);
      put(r, hada_prod(B, C));
      B += C;
      B *= (T)3;
      B -= C;
      put(r, B);
      r += B == C ? "=" : B != C ? "!" : "?";
      r += B < C ? "<" : ">";
      SmallVec<1, T> s(scalar_product(B.get_column(0), C.get_column(0)));
      put(r, s);
      SmallVec<1, T> q(norm_2(C.get_column(0)));
      put(r, q);
      put(r, dyadic_product(B.get_column(0), C.get_column(0)));
      put(r, diagonal<n, m, T>((T)2));
      put(r, rep_mat<n, m, T>(C.get_column(0)));
      break;
    }
    case 6:
    {
      std::ostringstream s;
      s << C << transposed(C);
      r = s.str();
      break;
    }
    default:
    {
      Mapping::Linear<m, n, T> map(mat<n, 1, T>(seed, 4), C);
      SmallVec<1, T> d(map.functional_determinant_hyEdge());
      put(r, d);
      put(r, map.mat_q());
      put(r, map.mat_r());
      for (unsigned i = 0; i < m; ++i)
      {
        put(r, map.local_normal(i));
        put(r, map.inner_normal(i));
        SmallVec<1, T> e(map.functional_determinant_hyNode(i));
        put(r, e);
      }
      put(r, map.map_reference_to_physical(mat<m, 2, T>(seed, 5)));
    }
  }
  return r;
}
static std::string dense(int shape, int what, uint64_t seed)
{
  switch (shape)
  {
    case 0: return dense<1, 1, double>(what, seed);
    case 1: return dense<2, 1, double>(what, seed);
    case 2: return dense<3, 2, double>(what, seed);
    case 3: return dense<3, 3, double>(what, seed);
    case 4: return dense<4, 2, double>(what, seed);
    default: return dense<3, 2, float>(what, seed);
  }
}

// ------------------------------------------------------------------------------ solver
template <typename T>
struct Oper
{
  uint64_t seed;
  std::vector<T> trace_to_flux(const std::vector<T>& x) const
  {
    std::vector<T> y(x.size());
    T s = 0;
    for (size_t i = 0; i < x.size(); ++i)
      s += x[i] * (T)(1 + (int)(mock::hsh(seed, i, 3) % 3));
    for (size_t i = 0; i < x.size(); ++i)
      y[i] = x[i] * (T)(1 + (int)(mock::hsh(seed, i) % 4)) + (T)(1 + (int)(mock::hsh(seed, i, 3) % 3)) * s / (T)8;
    return y;
  }
};
template <typename T>
static std::string cg(uint64_t seed)
{
  unsigned n = 1 + (unsigned)(mock::hsh(seed, 71) % 9);
  std::vector<T> b(n);
  for (unsigned i = 0; i < n; ++i)
    b[i] = (T)((double)(mock::hsh(seed, i, 72) % 41) - 20);
  Oper<T> A{seed};
  unsigned it = mock::hsh(seed, 73) % 6 == 0 ? 1 : 0;
  std::vector<T> x = SparseLA::conjugate_gradient(b, A, it, (typename std::vector<T>::value_type)(sizeof(T) == 4 ? 1e-3 : 1e-8));
  std::string r = bits(x);
  std::vector<T> s = {SparseLA::inner_product(b, x), SparseLA::norm_2(x)};
  return r + bits(s) + bits(SparseLA::linear_combination((T)2, b, (T)-3, x));
}

// ------------------------------------------------------------------------------ domains
template <unsigned E, unsigned S>
static std::string show_domain(const std::string& file)
{
  auto d = read_domain<E, S, std::vector, Point<S, double>>(file);
  std::string r = std::to_string(d.n_hyEdges) + " " + std::to_string(d.n_hyNodes) + " " + std::to_string(d.n_points);
  for (auto& p : d.points)
    put(r, p);
  for (auto& e : d.hyNodes_hyEdge)
    for (auto i : e)
      r += " " + std::to_string(i);
  r += "/";
  for (auto& e : d.hyFaces_hyEdge)
    for (auto i : e)
      r += " " + std::to_string(i);
  r += "/";
  for (auto& e : d.points_hyEdge)
    for (auto i : e)
      r += " " + std::to_string(i);
  return r;
}
static std::string domain_file(const std::string& dir, int t, uint64_t seed, bool cloud)
{
  thr::Pause pause;
  std::ostringstream s;
  unsigned n = 3 + (unsigned)(mock::hsh(seed, 81) % 6);
  std::string name = dir + "/d" + std::to_string(t) + (cloud ? ".pts" : ".geo");
  if (cloud)
  {
    s << "Space_Dim = 2;\nN_Points = " << n << ";\nEpsilon = 1.5;\nPOINTS:\n";
    double x = 0;
    for (unsigned i = 0; i < n; ++i, x += 1 + (double)(mock::hsh(seed, i, 82) % 3) / 8)
      s << x << " " << (double)(mock::hsh(seed, i, 83) % 5) / 8 << "\n";
  }
  else
  {
    s << "Space_Dim = 2;\nHyperEdge_Dim = 1;\nN_Points = " << n << ";\nN_HyperNodes = " << n << ";\nN_HyperEdges = " << n - 1 << ";\nPOINTS:\n";
    for (unsigned i = 0; i < n; ++i)
      s << i << ".5 " << (double)(mock::hsh(seed, i, 84) % 64) / 8 << "\n";
    std::ostringstream e, f;
    for (unsigned i = 0; i + 1 < n; ++i)
    {
      e << i << " " << i + 1 << "\n";
      f << mock::hsh(seed, i, 85) % 3 << " " << mock::hsh(seed, i, 86) % 3 << "\n";
    }
    s << "HYPERNODES_OF_HYPEREDGES:\n" << e.str() << "TYPES_OF_HYPERFACES:\n" << f.str() << "POINTS_OF_HYPEREDGES:\n" << e.str();
  }
  std::ofstream(name) << s.str();
  return name;
}

// ------------------------------------------------------------------------------ the library's own hypergraphs and local solvers
namespace pipe_sim
{
thread_local const Prob* cur = nullptr;
thread_local long throw_at = -1, evaluations = 0, nest_at = -1;
void nested() {}
#define DECLARE(n) std::unique_ptr<IComp> make_##n(const Spec&);
DECLARE(t_diffusion)
DECLARE(t_mass)
DECLARE(t_parabolic)
DECLARE(t_bilaplacian)
DECLARE(t_eigs)
DECLARE(t_shifted)
DECLARE(t_advection)
#undef DECLARE
}  // namespace pipe_sim
enum RealFn { R_FLUX, R_RESIDUAL, R_ERRORS, R_INITIAL, R_SET_DATA, R_MATRIX, R_JACOBIAN, R_MASS, R_SOLVE, R_N };
struct RealKind
{
  std::unique_ptr<pipe_sim::IComp> (*make)(const pipe_sim::Spec&);
  int mesh;
  std::vector<int> fns;
};
static const std::vector<RealKind>& real_kinds()
{
  using namespace pipe_sim;
  static const std::vector<RealKind> k = {{make_t_diffusion, 5, {R_FLUX, R_RESIDUAL, R_ERRORS, R_MATRIX, R_SOLVE}},
                                          {make_t_diffusion, 2, {R_FLUX, R_RESIDUAL, R_ERRORS}},
                                          {make_t_mass, 1, {R_FLUX, R_MASS}},
                                          {make_t_parabolic, 5, {R_FLUX, R_RESIDUAL, R_ERRORS, R_INITIAL, R_SET_DATA}},
                                          {make_t_parabolic, 1, {R_FLUX, R_RESIDUAL, R_ERRORS, R_INITIAL, R_SET_DATA}},
                                          {make_t_bilaplacian, 1, {R_FLUX, R_RESIDUAL, R_ERRORS, R_MATRIX}},
                                          {make_t_eigs, 5, {R_FLUX, R_INITIAL, R_JACOBIAN}},
                                          {make_t_shifted, 1, {R_FLUX}},
                                          {make_t_advection, 5, {R_FLUX, R_RESIDUAL, R_ERRORS, R_MATRIX}}};
  return k;
}
static pipe_sim::Prob real_data(uint64_t seed)
{
  pipe_sim::Prob p;
  auto d = [&](int i) { return ((double)(mock::hsh(seed, (uint64_t)i, 91) % 33) - 16) / 8; };
  p.ed = p.sd = 2;
  p.c0 = d(1);
  p.q = d(2);
  p.b0 = d(3);
  p.react = std::abs(d(4));
  p.k = 1 + std::abs(d(5));
  for (int i = 0; i < 2; ++i)
  {
    p.a[i] = d(10 + i);
    p.b[i] = d(20 + i);
    p.vel[i] = d(30 + i) / 2;
  }
  p.m[0] = d(6);
  p.kind = 4;
  return p;
}

// ------------------------------------------------------------------------------ programs
struct Op
{
  int id = 0;
  int thread = 0;
  std::vector<std::string> w;  // words after the thread
  long throw_at = -1;
};
struct Record
{
  std::string text;
  uint64_t blocks = 0;
  std::vector<std::pair<uintptr_t, uint64_t>> places;
};
struct Obj
{
  std::unique_ptr<mock::IProblem> p;
  std::unique_ptr<pipe_sim::IComp> c;  // one with the library's own hypergraph and local solver
  pipe_sim::Prob data;
};
static std::string files_of(const std::string& dir, const std::string& prefix)
{
  std::vector<std::string> names;
  if (DIR* d = opendir(dir.c_str()))
  {
    while (struct dirent* e = readdir(d))
      if (std::string(e->d_name).rfind(prefix, 0) == 0)
        names.push_back(e->d_name);
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  std::string r;
  for (auto& n : names)
  {
    std::ifstream in(dir + "/" + n);
    std::stringstream ss;
    ss << in.rdbuf();
    Hash h;
    h.add(ss.str());
    r += " " + n + "=" + std::to_string(ss.str().size()) + "/" + std::to_string(h.h);
  }
  return r;
}
static Record perform(const Op& q, std::map<int, Obj>& objs, const std::string& dir)
{
  Record rec;
  const auto& w = q.w;
  std::string out, ex;
  std::string pre = "t" + std::to_string(q.thread) + "_";
  auto lib = [&](auto&& f)
  {
    mock::throw_at = pipe_sim::throw_at = q.throw_at;
    mock::confusion.clear();
    thr::enter(q.id);
    try
    {
      f();
    }
    catch (const mock::SimFault&)
    {
      ex = "local solver failure";
    }
    catch (const pipe_sim::DataError&)
    {
      ex = "local solver failure";
    }
    catch (const std::exception& e)
    {
      ex = "exception";
    }
    catch (...)
    {
      ex = "other";
    }
    rec.blocks += thr::leave();
    if (thr::recording)
      rec.places = thr::locations();
    mock::throw_at = pipe_sim::throw_at = -1;
  };
  if (w[0] == "cg" && w.size() >= 3)
    lib([&]() { out = w[2] == "1" ? cg<float>(u64(w[1])) : cg<double>(u64(w[1])); });
  else if (w[0] == "dense" && w.size() >= 4)
    lib([&]() { out = dense(atoi(w[1].c_str()), atoi(w[2].c_str()), u64(w[3])); });
  else if (w[0] == "load" && w.size() >= 3)
  {
    std::string f = domain_file(dir, q.thread, u64(w[1]), w[2] == "1");
    lib([&]() { out = show_domain<1, 2>(f); });
  }
  else if (w[0] == "real" && w.size() >= 6)  // slot, class, seed, level
  {
    Obj& o = objs[100 + atoi(w[1].c_str())];
    const RealKind& k = real_kinds()[u64(w[2]) % real_kinds().size()];
    o.data = real_data(u64(w[3]));
    pipe_sim::cur = &o.data;
    pipe_sim::Spec s;
    s.mesh = k.mesh;
    s.tau = 1 + (double)(mock::hsh(u64(w[3]), 92) % 8) / 4;
    s.theta = mock::hsh(u64(w[3]), 93) % 2 ? 1 : .5;
    s.dt = .25 * (double)(1 + mock::hsh(u64(w[3]), 94) % 3);
    for (int i = 0; i < 3; ++i)
      s.n.push_back(1 + (unsigned)(mock::hsh(u64(w[3]), 95, (uint64_t)i) % 2));
    if (k.mesh == 5)
      s.file = domain_file(dir, 10 * (q.thread + 1) + atoi(w[1].c_str()), u64(w[3]), false);
    lib(
      [&]()
      {
        o.c.reset();
        o.c = k.make(s);
        if (!o.c)
          return;
        if (atoi(w[4].c_str()) > 1)
          o.c->refine((unsigned)atoi(w[4].c_str()));
        o.c->plot_option("outputDir", dir + "/out");
        o.c->plot_option("fileName", pre + "r" + w[1]);
        out = std::to_string(o.c->zero().size());
      });
  }
  else if (w[0] == "rcall" && w.size() >= 5)  // slot, function, seed, time
  {
    Obj& o = objs[100 + atoi(w[1].c_str())];
    pipe_sim::cur = &o.data;
    if (o.c)
    {
      double t = atof(w[4].c_str());
      size_t n = o.c->zero().size();
      Vec x = mock::make_vec(u64(w[3]), n), y = mock::make_vec(u64(w[3]) + 1, n);
      std::vector<double> r;
      std::vector<unsigned> rows, cols;
      if (w[2] == "plot")
      {
        lib([&]() { o.c->plot(x, t); });
        out = files_of(dir + "/out", pre + "r");
      }
      else if (w[2] == "refine")
      {
        lib([&]() { o.c->refine(1 + (unsigned)(u64(w[3]) % 2)); });
        out = std::to_string(o.c->zero().size()) + " " + std::to_string(o.c->level());
      }
      else
      {
        lib(
          [&]()
          {
            switch (atoi(w[2].c_str()))
            {
              case R_FLUX: r = o.c->flux(x, t); break;
              case R_RESIDUAL: r = o.c->residual(x, t); break;
              case R_ERRORS: r = o.c->errors(x, t); break;
              case R_INITIAL: r = o.c->initial(x, t); break;
              case R_SET_DATA: o.c->set_data(x, t); break;
              case R_MATRIX: o.c->matrix(t, rows, cols, r); break;
              case R_JACOBIAN: r = o.c->jacobian(x, t, y, 1.); break;
              case R_MASS: r = o.c->mass(x, t); break;
              default: r = o.c->solve_cg(x, 1e-6);
            }
          });
        out = bits(r) + bits(rows) + bits(cols);
      }
    }
  }
  else if (w.size() >= 2)
  {
    Obj& o = objs[atoi(w[1].c_str())];
    if (w[0] == "new" && w.size() >= 8)
    {
      lib(
        [&]()
        {
          o.p.reset();
          int ctor = atoi(w[7].c_str());
          o.p = mock::make(atoi(w[2].c_str()), atoi(w[3].c_str()), u64(w[4]), (unsigned)atoi(w[5].c_str()), ctor == 2 ? 0 : atol(w[6].c_str()), ctor);
          o.p->option("outputDir", dir + "/out");
          o.p->option("fileName", pre + w[1]);
          out = std::to_string(o.p->size());
        });
    }
    else if (!o.p)
      ;
    else if (w[0] == "call" && w.size() >= 7)
    {
      int fn = atoi(w[2].c_str());
      if (mock::has(o.p->kind, fn))
      {
        Vec x = mock::make_vec(u64(w[3]), o.p->size()), x2 = mock::make_vec(u64(w[5]), o.p->size());
        mock::Result r;
        lib([&]() { r = o.p->call(fn, x, atof(w[4].c_str()), x2, atof(w[6].c_str())); });
        out = bits(r.v) + bits(r.r) + bits(r.c);
      }
    }
    else if (w[0] == "refine" && w.size() >= 3)
    {
      lib([&]() { o.p->set_refinement((unsigned)atoi(w[2].c_str())); });
      out = std::to_string(o.p->size()) + " " + std::to_string(o.p->get_refinement());
    }
    else if (w[0] == "read" && w.size() >= 3)
    {
      std::vector<unsigned> v;
      for (unsigned i = 0; i < o.p->size(); ++i)
        if (mock::hsh(u64(w[2]), i) % 3 == 0)
          v.push_back(i);
      lib([&]() { o.p->read_dirichlet(v); });
    }
    else if (w[0] == "option" && w.size() >= 4)
      lib([&]() { out = o.p->option(w[2], w[3]); });
    else if (w[0] == "plot" && w.size() >= 4)
    {
      Vec x = mock::make_vec(u64(w[2]), o.p->size());
      lib([&]() { o.p->plot_solution(x, atof(w[3].c_str())); });
      out = files_of(dir + "/out", pre);
    }
  }
  rec.text = w[0] + " -> " + (ex.empty() ? "" : "[" + ex + "] ") + (mock::confusion.empty() ? "" : "{" + mock::confusion + "} ") + out;
  return rec;
}
static std::vector<Record> program(const std::vector<Op>& ops, int t, const std::string& dir)
{
  std::vector<Record> r;
  std::map<int, Obj> objs;
  for (auto& q : ops)
    if (q.thread == t)
      r.push_back(perform(q, objs, dir));
  return r;
}
static std::string fresh(const std::string& d)
{
  std::filesystem::remove_all(d);
  std::filesystem::create_directories(d);
  return d;
}

struct ThreadSim : Sim
{
  Plan generate(Rng& g, bool thorough) override
  {
    Plan p;
    int threads = g.chance(3, 4) ? 2 : 3;
    int id = 0;
    int focus = (int)g.below(7);  // what all threads do: mixed, objects, plots, solver, small matrices, domains, library's own graphs and local solvers
    int real0 = (int)g.below(real_kinds().size());
    int kind0 = (int)g.below(mock::N_KINDS), shape0 = (int)g.below(mock::shapes().size());
    std::vector<int> fns;
    for (int q = 0; q < mock::F_N; ++q)
      if (mock::has(kind0, q))
        fns.push_back(q);
    int fn0 = g.chance(1, 2) ? g.pick(fns) : -1;  // all threads evaluate the same
    int dshape0 = (int)g.below(6), dwhat0 = (int)g.below(8);
    std::vector<int> ids;
    auto num = [&](uint64_t n) { return std::to_string(g.below(n)); };
    auto tim = [&]() { return std::to_string((double)g.range(-40, 400) / 8); };
    // Twins: all threads make the same few calls, with other arguments.
    const bool twins = g.chance(1, 2);
    if (twins)
    {
      focus = 1 + (int)g.below(6);
      static const std::vector<std::string> o = {"plotEdges false", "plotEdgeBoundaries true", "incrementFileNumber false", "printFileNumber false", "scale 0.5", "boundaryScale 0.75"};
      std::vector<std::string> opts;
      for (auto& x : o)
        if (g.chance(1, 4))
          opts.push_back(x);
      int fn = g.pick(fns), n = g.range(1, 3);
      int what = (int)g.below(10);  // on problem objects: call, or refinement, creation, prescribed indices
      bool cloud = g.chance(1, 2), single = g.chance(1, 4);
      int ctor = (int)g.below(3);
      std::string rfn = g.chance(1, 8) ? "plot" : g.chance(1, 6) ? "refine" : g.chance(1, 8) ? "" : std::to_string(g.pick(real_kinds()[(size_t)real0].fns));
      auto rnew = [&]() { return "real 0 " + std::to_string(real0) + " " + num(100000) + " " + (g.chance(1, 4) ? "2" : "1") + " -"; };
      for (int t = 0; t < threads; ++t)
      {
        auto op = [&](const std::string& s, bool target)
        {
          p.add("op " + std::to_string(++id) + " " + std::to_string(t) + " " + s);
          if (target)
            ids.push_back(id);
        };
        auto create = [&](bool target)
        { op("new 0 " + std::to_string(kind0) + " " + std::to_string(shape0) + " " + num(100000) + " " + num(4) + " " + std::to_string(g.range(-5, 5)) + " " + std::to_string(ctor), target); };
        if (focus <= 2)
          create(focus == 1 && what == 8);
        if (focus == 6)
          op(rnew(), rfn.empty());
        if (focus == 2)
          for (auto& x : opts)
            op("option 0 " + x, false);
        for (int i = 0; i < n; ++i)
        {
          if (focus == 3)
            op("cg " + num(100000) + " " + (single ? "1" : "0"), true);
          else if (focus == 4)
            op("dense " + std::to_string(dshape0) + " " + std::to_string(dwhat0) + " " + num(100000), true);
          else if (focus == 5)
            op("load " + num(100000) + " " + (cloud ? "1" : "0"), true);
          else if (focus == 6)
            op(rfn.empty() ? rnew() : "rcall 0 " + rfn + " " + num(100000) + " " + tim(), true);
          else if (focus == 2)
            op("plot 0 " + num(100000) + " " + tim(), true);
          else if (what == 9)
            op("refine 0 " + num(4), true);
          else if (what == 8)
            create(true);
          else
            op("call 0 " + std::to_string(fn) + " " + num(100000) + " " + tim() + " " + num(100000) + " " + tim(), true);
        }
      }
    }
    for (int t = 0; t < threads && !twins; ++t)
    {
      auto op = [&](const std::string& s)
      {
        p.add("op " + std::to_string(++id) + " " + std::to_string(t) + " " + s);
        ids.push_back(id);
      };
      std::map<int, int> kind, rkind;
      int n = g.range(2, thorough ? 9 : 6);
      for (int i = 0; i < n; ++i)
      {
        int f = focus == 0 ? 1 + (int)g.below(6) : g.chance(9, 10) ? focus : 1 + (int)g.below(6);
        if (f == 3)
          op("cg " + num(100000) + " " + (g.chance(1, 4) ? "1" : "0"));
        else if (f == 4)
          op("dense " + std::to_string(g.chance(2, 3) ? dshape0 : (int)g.below(6)) + " " + std::to_string(g.chance(1, 2) ? dwhat0 : (int)g.below(8)) + " " + num(100000));
        else if (f == 5)
          op("load " + num(100000) + " " + (g.chance(1, 2) ? "1" : "0"));
        else if (f == 6)
        {
          int s = (int)g.below(2);
          if (!rkind.count(s) || g.chance(1, 10))
          {
            rkind[s] = g.chance(2, 3) ? real0 : (int)g.below(real_kinds().size());
            op("real " + std::to_string(s) + " " + std::to_string(rkind[s]) + " " + num(100000) + " " + (g.chance(1, 4) ? "2" : "1") + " -");
          }
          op("rcall " + std::to_string(s) + " " + (g.chance(1, 10) ? std::string("plot") : g.chance(1, 10) ? std::string("refine") : std::to_string(g.pick(real_kinds()[(size_t)rkind[s]].fns))) + " " + num(100000) + " " + tim());
          if (g.chance(1, 10))
            p.add("fault " + std::to_string(id) + " " + num(1 + g.below(60)));
        }
        else
        {
          int s = (int)g.below(2);
          if (!kind.count(s) || g.chance(1, 12))
          {
            kind[s] = g.chance(2, 3) ? kind0 : (int)g.below(mock::N_KINDS);
            op("new " + std::to_string(s) + " " + std::to_string(kind[s]) + " " + std::to_string(g.chance(3, 4) ? shape0 : (int)g.below(mock::shapes().size())) + " " + num(100000) + " " + num(4) + " " +
               std::to_string(g.range(-5, 5)) + " " + num(3));
          }
          std::string ss = std::to_string(s);
          unsigned w = (unsigned)g.below(100);
          if (f == 2 ? w < 60 : w < 6)
            op("plot " + ss + " " + num(100000) + " " + tim());
          else if (f == 2 ? w < 85 : w < 12)
          {
            static const std::vector<std::string> o = {"plotEdges true", "plotEdges false", "plotEdgeBoundaries true", "plotEdgeBoundaries false", "incrementFileNumber true", "incrementFileNumber false",
                                                       "fileNumber 7",   "fileNumber 12",   "printFileNumber true",    "printFileNumber false",    "scale 0.5",                "boundaryScale 0.75"};
            op("option " + ss + " " + g.pick(o));
          }
          else if (w < 22)
            op("refine " + ss + " " + num(4));
          else if (w < 25 && kind[s] == mock::ELLIPTIC)
            op("read " + ss + " " + num(1000));
          else
          {
            std::vector<int> c;
            for (int q = 0; q < mock::F_N; ++q)
              if (mock::has(kind[s], q))
                c.push_back(q);
            op("call " + ss + " " + std::to_string(fn0 >= 0 && kind[s] == kind0 && g.chance(4, 5) ? fn0 : g.pick(c)) + " " + num(100000) + " " + tim() + " " + num(100000) + " " + tim());
          }
          if (g.chance(1, 12))
            p.add("fault " + std::to_string(id) + " " + num(1 + g.below(12)));
        }
      }
    }
    int sw = g.chance(1, 3) ? g.range(1, 3) : g.range(3, thorough ? 40 : 20);
    for (int i = 0; i < sw; ++i)
    {
      bool burst = g.chance(1, 4);
      p.add("sw " + std::to_string(g.pick(ids)) + " " + num(65536) + " " + (g.chance(2, 3) ? num(65536) : std::string("-")) + " " + num((uint64_t)threads) + " " + std::to_string(burst ? g.range(1, 60) : 0) + " " +
            std::to_string(burst ? 1 + (int)g.below(1ull << g.below(10)) : 1) + " " + num(1000000));
    }
    return p;
  }
  static void run(const Plan& plan, Outcome& o, const std::string& scratch)
  {
    std::vector<Op> ops;
    std::map<int, long> faults;
    int threads = 1;
    for (auto& w : plan.all("fault"))
      if (w.size() >= 3)
        faults[atoi(w[1].c_str())] = atol(w[2].c_str());
    for (auto& w : plan.all("op"))
      if (w.size() >= 5)
      {
        Op q;
        q.id = atoi(w[1].c_str());
        q.thread = atoi(w[2].c_str());
        threads = std::max(threads, q.thread + 1);
        q.w.assign(w.begin() + 3, w.end());
        q.throw_at = faults.count(q.id) ? faults[q.id] : -1;
        ops.push_back(q);
      }
    // One thread runs at a time: handing over is cheapest on one processor.
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    CPU_SET(sched_getcpu(), &cpus);
    sched_setaffinity(0, sizeof cpus, &cpus);
    // Every program alone, in a process of its own.
    std::vector<std::vector<Record>> alone((size_t)threads);
    for (int t = 0; t < threads; ++t)
    {
      std::string d = fresh(scratch + "/w");
      int fd[2];
      if (pipe(fd) != 0)
        _exit(97);
      pid_t pid = fork();
      if (pid == 0)
      {
        close(fd[0]);
        std::vector<Record> r;
        thr::recording = true;
        thr::run(1, {}, [&](int) { r = program(ops, t, d); });
        std::string s;
        for (auto& x : r)
        {
          s += std::to_string(x.blocks) + " " + esc(x.text) + "\n#";
          for (auto& l : x.places)
            s += " " + std::to_string(l.first) + " " + std::to_string(l.second);
          s += "\n";
        }
        s += "end\n";
        for (size_t i = 0; i < s.size();)
        {
          ssize_t k = write(fd[1], s.data() + i, s.size() - i);
          if (k <= 0)
            break;
          i += (size_t)k;
        }
        _exit(0);
      }
      close(fd[1]);
      std::string s;
      char b[65536];
      ssize_t k;
      while ((k = read(fd[0], b, sizeof b)) > 0)
        s.append(b, (size_t)k);
      close(fd[0]);
      int st = 0;
      waitpid(pid, &st, 0);
      std::istringstream is(s);
      std::string l;
      bool complete = false;
      while (std::getline(is, l))
        if (l == "end")
          complete = true;
        else if (l[0] == '#')
        {
          std::istringstream ps(l.substr(1));
          std::pair<uintptr_t, uint64_t> x;
          while (ps >> x.first >> x.second)
            alone[(size_t)t].back().places.push_back(x);
        }
        else
        {
          Record r;
          r.blocks = u64(l);
          r.text = unesc(l.substr(l.find(' ') + 1));
          alone[(size_t)t].push_back(r);
        }
      if (!complete)
      {
        // What one thread does is refused or crashes by itself: nothing about threads can be said.
        o.counters["programs that end by themselves"]++;
        o.trace.add("refused");
        if (getenv("SIM_DEBUG"))
        {
          std::ifstream e(scratch + "/err.txt");
          std::cerr << "refused after " << alone[(size_t)t].size() << " calls of thread " << t << std::endl;
          o.detail = "refused";
          std::stringstream ss;
          ss << e.rdbuf();
          o.violate("refused", ss.str());
        }
        return;
      }
    }
    std::map<int, const Record*> recs;
    std::vector<size_t> pos((size_t)threads, 0);
    for (auto& q : ops)
      recs[q.id] = &alone[(size_t)q.thread][pos[(size_t)q.thread]++];
    std::vector<thr::Switch> sws;
    for (auto& w : plan.all("sw"))
      if (w.size() >= 8)
      {
        int op = atoi(w[1].c_str());
        if (!recs.count(op))
          continue;
        const Record& r = *recs[op];
        thr::Switch s;
        s.op = op;
        s.at = 1 + r.blocks * u64(w[2]) / 65536;
        s.pc = s.hit = 0;
        if (w[3] != "-" && !r.places.empty())  // at a code location, whenever it is reached
        {
          auto& l = r.places[r.places.size() * u64(w[2]) / 65536];
          s.pc = l.first;
          s.hit = 1 + l.second * u64(w[3]) / 65536;
        }
        s.to = atoi(w[4].c_str());
        s.burst = atoi(w[5].c_str());
        s.len = atoi(w[6].c_str());
        s.salt = u64(w[7]);
        sws.push_back(s);
      }
    std::string d = fresh(scratch + "/w");
    std::vector<std::vector<Record>> got((size_t)threads);
    thr::Stats st = thr::run(threads, sws, [&](int t) { got[(size_t)t] = program(ops, t, d); });
    o.steps = st.blocks;
    o.counters["preemptions"] = st.switches;
    if (st.blocked)
      o.counters["waits for another thread"] = st.blocked;
    for (auto& f : faults)
      for (auto& q : ops)
        if (q.id == f.first)
          o.counters["planned local solver failures"]++;
    for (int t = 0; t < threads; ++t)
      for (size_t i = 0; i < alone[(size_t)t].size(); ++i)
      {
        const std::string &a = alone[(size_t)t][i].text, &b = i < got[(size_t)t].size() ? got[(size_t)t][i].text : "nothing";
        o.trace.add(b);
        o.counters["results compared"]++;
        if (a.find("[local solver failure]") != std::string::npos)
          o.faults["local solver throws in one thread"]++;
        if (a != b)
        {
          size_t k = 0;
          while (k < a.size() && k < b.size() && a[k] == b[k])
            ++k;
          size_t from = k < 30 ? 0 : k - 30;
          o.violate("influenced", "thread " + std::to_string(t) + ", call " + std::to_string(i + 1) + " (" + a.substr(0, a.find(' ')) + "): \"..." + b.substr(from, 80) + "\" instead of \"..." + a.substr(from, 80) + "\"");
        }
      }
    o.faults["preemption inside a library call"] = st.switches;
    o.trace.add(st.hash);
    o.states.push_back(st.hash);
    o.nontrivial = st.switches >= (uint64_t)threads;
  }
  Outcome execute(const Plan& plan, const std::string& scratch) override
  {
    return isolated(scratch, 40,
                    [&](Outcome& o)
                    {
                      allocsim::poison = true;
                      run(plan, o, scratch);
                    });
  }
};
static void outside(bool on) { thr::outside(on); }
int main(int argc, char** argv)
{
  mock::outside_hook = outside;
  ThreadSim s;
  return sim_main(argc, argv, s);
}
