// C09-C12: seeded call histories on all problem classes, with failing local solvers, failing
// allocations and failing refinements, against an exact reference model.
#include "core/alloc.hxx"
#include "core/forkrun.hxx"
#include "core/realgraph.hxx"
using namespace sim;
using mock::Vec;

static const int PROP = sim_property();

struct Slot
{
  std::unique_ptr<mock::IProblem> p;
  std::unique_ptr<mock::Model> m;
  int ctor = 0;
  bool refine_pending = false;  // a failed refinement has to be repeated
};
static double at(const Slot& s, const std::string& t)
{
  double d = strtod(t.c_str(), nullptr);
  return s.m->sh.f32 ? (double)(float)d : d;
}
static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }

struct LoopSim : Sim
{
  static std::string tm(Rng& g)
  {
    char b[64];
    double t = mock::make_time(g);
    if (g.chance(1, 8))
      t = (double)g.range(-3, 3);
    if (g.chance(1, 8))
      t = 1000. + (double)g.range(1, 1 << 20) / (1 << 20);
    if (g.chance(1, 12))
      t = -(double)g.range(1, 1 << 20) / (1 << 24);
    if (g.chance(1, 12))
      t = 0;
    snprintf(b, sizeof b, "%.17g", t);
    return b;
  }
  Plan generate(Rng& g, bool thorough) override
  {
    Plan p;
    int id = 0;
    auto op = [&](const std::string& t) { p.add("op " + std::to_string(++id) + " " + t); };
    int slots = g.chance(2, 3) ? 1 : g.range(2, 3);
    std::vector<int> kinds, shape_of;
    auto level = [&](int shape) { return std::to_string(g.below(shape < mock::first_real_shape || mock::any_shape(shape).ed == 1 || g.chance(1, 60) ? 5 : 3)); };
    uint64_t gseed = g.below(1000000);
    auto any_shape = [&]() { return g.chance(PROP == 10 ? 2 : 1, PROP == 10 ? 5 : 4) && mock::real_available() ? mock::first_real_shape + (int)g.below(mock::n_real_shapes) : (int)g.below(mock::shapes().size()); };
    int shape0 = any_shape();
    for (int s = 0; s < slots; ++s)
    {
      int k = (int)g.below(mock::N_KINDS);
      if (PROP == 12)
        k = g.chance(4, 5) ? mock::PARABOLIC : mock::NONLINEAR;
      if (PROP == 10 && g.chance(1, 3))
        k = g.chance(1, 2) ? mock::MASSAPPROX : mock::SHIFTED;
      if (s > 0 && g.chance(1, 2))
        k = kinds[0];
      kinds.push_back(k);
      int ctor = (int)g.below(3);
      int shape = s > 0 && g.chance(1, 2) ? shape0 : (s == 0 ? shape0 : any_shape());
      shape_of.push_back(shape);
      op("new " + std::to_string(s) + " " + std::to_string(k) + " " + std::to_string(shape) + " " +
         std::to_string(g.chance(1, 2) ? gseed : g.below(1000000)) + " " + level(shape) + " " +
         std::to_string(ctor == 2 ? 0 : g.range(-5, 5)) + " " + std::to_string(ctor));
      if (PROP == 11 && g.chance(1, 6))
        p.add("fault " + std::to_string(id) + " alloc " + std::to_string(g.below(1 + g.below(40))));
    }
    int n = g.range(2, thorough ? 24 : 14);
    unsigned fault_num = PROP == 11 ? 50 : PROP == 9 ? 12 : PROP == 10 ? 10 : 12;
    for (int i = 0; i < n; ++i)
    {
      int s = (int)g.below((uint64_t)slots);
      int k = kinds[s];
      unsigned w = (unsigned)g.below(100);
      unsigned refine_w = PROP == 10 ? 35 : PROP == 11 ? 12 : 6;
      bool refine = false;
      if (w < refine_w)
      {
        op("refine " + std::to_string(s) + " " + level(shape_of[s]));
        refine = true;
      }
      else if (w < refine_w + 5)
        op("query " + std::to_string(s));
      else if (w < refine_w + 12 && k == mock::ELLIPTIC)
        op("read " + std::to_string(s) + " " + std::to_string(g.below(100000)));
      else if (w < refine_w + 14 && PROP >= 10)
        op("plot " + std::to_string(s) + " " + std::to_string(g.below(100000)) + " " + tm(g));
      else
      {
        std::vector<int> f;
        for (int q = 0; q < mock::F_N; ++q)
          if (mock::has(k, q))
          {
            int rep = 1;
            if (q == mock::F_SETDATA || q == mock::F_INITIAL)
              rep = PROP == 12 ? 3 : PROP == 9 ? 1 : 2;
            if (q == mock::F_DIRICHLET)
              rep = PROP == 10 ? 3 : PROP == 9 ? 0 : 1;
            for (int j = 0; j < rep; ++j)
              f.push_back(q);
          }
        int fn = g.pick(f);
        op("call " + std::to_string(s) + " " + std::to_string(fn) + " " + std::to_string(g.below(100000)) + " " + tm(g) + " " +
           std::to_string(g.below(100000)) + " " + tm(g));
      }
      if (g.chance(fault_num, 100))
      {
        std::string what = "solver";
        uint64_t nth = g.below(1 + g.below(g.chance(1, 4) ? 60 : 8));
        if (refine && g.chance(1, 2))
        {
          what = "refine";
          nth = g.below(3);
        }
        else if (refine || g.chance(2, 5))
        {
          what = "alloc";
          nth = g.below(1 + g.below(g.chance(1, 3) ? 600 : 40));
        }
        p.add("fault " + std::to_string(id) + " " + what + " " + std::to_string(nth));
        if (g.chance(1, 2))
          p.add("again " + std::to_string(id));
      }
      if (slots > 1 && g.chance(1, 25))
        op("del " + std::to_string(s));
    }
    return p;
  }

  static std::string diff(const Vec& got, const Vec& want)
  {
    if (got.size() != want.size())
      return "has " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i)
      if (!(got[i] == want[i]))
      {
        char b[160];
        snprintf(b, sizeof b, "entry %zu is %.17g instead of %.17g", i, got[i], want[i]);
        return b;
      }
    return "";
  }
  static std::string diffi(const std::vector<unsigned>& got, const std::vector<unsigned>& want)
  {
    auto show = [](const std::vector<unsigned>& v)
    {
      std::string s;
      for (unsigned i : v)
        s += " " + std::to_string(i);
      return s;
    };
    return got == want ? "" : "is {" + show(got) + " } instead of {" + show(want) + " }";
  }
  struct Run
  {
    Outcome& o;
    std::string scratch;
    std::map<int, Slot> slots;
    void fail(const std::string& c, const std::string& d) { o.violate(c, d); }
    void query(int i, const std::string& who)
    {
      Slot& s = slots[i];
      if (s.refine_pending)
        return;
      if (!s.m->l.problem.empty())
        fail("hypergraph", who + ": " + s.m->l.problem);
      if (s.p->size() != s.m->size())
        fail("size", who + ": size of the system is " + std::to_string(s.p->size()) + " instead of " + std::to_string(s.m->size()));
      if (s.p->get_refinement() != s.m->level)
        fail("level", who + ": refinement level is " + std::to_string(s.p->get_refinement()) + " instead of " + std::to_string(s.m->level));
      Vec z = s.p->zero();
      std::string d = diff(z, Vec(s.m->size(), 0.));
      if (!d.empty())
        fail("zero-vector", who + ": zero vector " + d);
      o.steps++;
    }
    struct Fault
    {
      std::string what;
      long nth = -1;
    };
    /// Runs one library call under a fault; returns "" or the exception; fired tells about the fault.
    template <typename F>
    std::string guarded(const Fault& f, bool& fired, const F& body)
    {
      long fired0 = allocsim::fired;
      mock::throw_at = f.what == "solver" ? f.nth : -1;
      mock::refine_throw_at = f.what == "refine" ? f.nth : -1;
      std::string ex;
      int kind = 0;
      {
        allocsim::Section sec(f.what == "alloc" ? f.nth : -1);
        try
        {
          body();
        }
        catch (const mock::SimFault&)
        {
          kind = 1;
        }
        catch (const std::bad_alloc&)
        {
          kind = 2;
        }
        catch (const std::exception&)
        {
          kind = 3;
        }
        catch (...)
        {
          kind = 4;
        }
      }
      static const char* names[] = {"", "local solver failure", "bad_alloc", "another exception", "another object thrown"};
      ex = names[kind];
      fired = f.what == "solver" ? mock::throw_at < 0 && f.nth >= 0 : f.what == "refine" ? kind == 1 : f.what == "alloc" ? allocsim::fired > fired0 : false;
      mock::throw_at = -1;
      mock::refine_throw_at = -1;
      if (fired)
        o.faults[f.what == "solver" ? "local solver throws" : f.what == "refine" ? "refinement of a component throws" : "allocation fails"]++;
      if (kind && !fired)
        fail("unexpected-exception", "a call without a fault ended with " + ex);
      return ex;
    }
    bool call(int i, int fn, const Vec& x, double t, const Vec& x2, double t2, const Fault& f, const std::string& who)
    {
      Slot& s = slots[i];
      mock::Result r;
      std::vector<uint64_t> log;
      log.reserve(64);
      mock::data_log = &log;
      bool fired = false;
      std::string ex = guarded(f, fired, [&]() { r = s.p->call(fn, x, t, x2, t2); });
      mock::data_log = nullptr;
      o.steps++;
      std::string w = who + " " + mock::kind_name(s.m->kind) + "::" + mock::fn_name(fn);
      std::set<unsigned> done;
      for (uint64_t k : log)
        if (s.m->sh.with_edge)
          done.insert(s.m->edge_of(k));
      if (fn == mock::F_SETDATA && !s.m->sh.with_edge)
      {
        // The local solver itself is told the values of every hyperedge, in any order.
        std::vector<uint64_t> told;
        for (unsigned e = 0; e < s.m->l.edges.size(); ++e)
          told.push_back(mock::data_step(s.m->ctx(e), s.m->gather(e, x), t));
        std::sort(told.begin(), told.end());
        std::sort(log.begin(), log.end());
        if (ex.empty() && log != told)
          fail("data-not-updated", w + " told the local solver other values than those of the hyperedges");
      }
      else if (fn == mock::F_SETDATA)
      {
        if (done.size() != log.size())
          fail("data-updated-twice", w + " stored the data of a hyperedge twice");
        if (ex.empty() && s.m->sh.with_edge && done.size() != s.m->l.edges.size())
          fail("data-not-updated", w + " stored data for " + std::to_string(done.size()) + " of " + std::to_string(s.m->l.edges.size()) + " hyperedges");
      }
      else if (fn != mock::F_INITIAL && !log.empty())
        fail("data-changed", w + " changed hyperedge data");
      Vec want;
      if (fn != mock::F_SETDATA && fn != mock::F_DIRICHLET && fn != mock::F_MAT)
        want = s.m->expect(fn, x, t, x2, t2);
      if (fn == mock::F_SETDATA)
        s.m->set_data(x, t, &done);
      if (fn == mock::F_INITIAL)
        s.m->init_data(t, &done);
      o.trace.add(w + ex);
      if (!ex.empty())
      {
        o.counters["failed calls"]++;
        return false;
      }
      o.counters["calls judged"]++;
      std::string d;
      if (fn == mock::F_DIRICHLET)
      {
        d = diffi(r.r, s.m->dirichlet());
        if (!d.empty())
          fail("prescribed-indices", w + ": list " + d);
        for (unsigned k : r.r)
          o.trace.add((uint64_t)k);
      }
      else if (fn == mock::F_MAT)
      {
        unsigned n = s.m->size();
        Vec a((size_t)n * n, 0.);
        bool bad = r.v.size() != r.r.size() || r.v.size() != r.c.size();
        for (size_t k = 0; !bad && k < r.v.size(); ++k)
          if (r.r[k] >= n || r.c[k] >= n)
            bad = true;
          else
            a[(size_t)r.r[k] * n + r.c[k]] += r.v[k];
        d = bad ? "has invalid indices" : diff(a, s.m->matrix(t));
        if (!d.empty())
          fail("matrix", w + ": matrix " + d);
      }
      else if (fn != mock::F_SETDATA)
      {
        d = diff(r.v, want);
        if (!d.empty())
          fail(fn == mock::F_ERRORS ? "errors" : fn == mock::F_INITIAL ? "initial" : "evaluation", w + ": result " + d);
        for (double v : r.v)
          o.trace.add(mock::tbits(v));
      }
      if (!mock::confusion.empty())
        fail("mixed-up", w + ": " + mock::confusion);
      return true;
    }
    void read(int i, uint64_t seed, const Fault& f, bool& ok, const std::string& who)
    {
      Slot& s = slots[i];
      Rng g(seed);
      std::vector<unsigned> v;
      unsigned n = s.m->size();
      int k = g.range(0, (int)n + 2);
      for (int j = 0; j < k; ++j)
        v.push_back((unsigned)g.below(n));
      bool fired;
      std::string ex = guarded(f, fired, [&]() { s.p->read_dirichlet(v); });
      o.trace.add("read" + ex);
      ok = ex.empty();
      if (ok)
        s.m->prescribed = v;
    }
    /// Evaluates everything once without faults.
    void battery(int i, const std::string& who)
    {
      Slot& s = slots[i];
      if (!s.p || s.refine_pending)
        return;
      query(i, who);
      Vec x = mock::make_vec(7, s.m->size()), x2 = mock::make_vec(8, s.m->size());
      for (int fn = 0; fn < mock::F_N; ++fn)
        if (mock::has(s.m->kind, fn) && fn != mock::F_SETDATA && fn != mock::F_INITIAL && o.clause.empty())
          call(i, fn, x, 0.5, x2, -1.25, Fault(), who);
    }
  };
  static void history(const Plan& plan, Outcome& o, const std::string& scratch)
  {
    Run R{o, scratch, {}};
    std::map<std::string, Run::Fault> faults;
    std::set<std::string> again;
    for (auto& w : plan.all("fault"))
      if (w.size() >= 4)
        faults[w[1]] = Run::Fault{w[2], atol(w[3].c_str())};
    for (auto& w : plan.all("again"))
      if (w.size() >= 2)
        again.insert(w[1]);
    for (auto& w : plan.all("op"))
    {
      if (w.size() < 4 || !o.clause.empty())
        continue;
      std::string id = w[1], kind = w[2];
      int i = atoi(w[3].c_str());
      Slot& s = R.slots[i];
      std::string who = "op " + id + " (object " + std::to_string(i) + ")";
      Run::Fault f = faults.count(id) ? faults[id] : Run::Fault();
      bool fired = false;
      if (kind == "new" && w.size() >= 10)
      {
        s.p.reset();
        int shape = atoi(w[5].c_str()), ctor = atoi(w[9].c_str());
        long coef = ctor == 2 ? 0 : atol(w[8].c_str());
        if (shape < 0 || shape >= mock::first_real_shape + (mock::real_available() ? mock::n_real_shapes : 0))
          continue;
        if (mock::reads_file(shape))  // failing loads belong to C01
          f = Run::Fault();
        for (int attempt = 0; attempt < 2; ++attempt)
        {
          std::string ex = R.guarded(attempt ? Run::Fault() : f, fired, [&]() { s.p = mock::make_any(atoi(w[4].c_str()), shape, u64(w[6]), (unsigned)atoi(w[7].c_str()), coef, ctor); });
          o.trace.add("new" + ex);
          if (ex.empty())
            break;
        }
        if (!s.p)
          continue;
        s.m = mock::make_model(atoi(w[4].c_str()), shape, u64(w[6]), (unsigned)atoi(w[7].c_str()), coef);
        s.refine_pending = false;
        s.p->option("outputDir", scratch + "/out");
        s.p->option("printFileNumber", "false");
        R.query(i, who);
        continue;
      }
      if (!s.p)
        continue;
      if (kind == "del")
      {
        s.p.reset();
        s.m.reset();
        continue;
      }
      if (kind == "refine" && w.size() >= 5)
      {
        unsigned lev = (unsigned)atoi(w[4].c_str());
        bool had = !s.m->prescribed.empty();
        for (int attempt = 0; attempt < 2; ++attempt)
        {
          std::string ex = R.guarded(attempt ? Run::Fault() : f, fired, [&]() { s.p->set_refinement(lev); });
          o.trace.add("refine" + ex);
          o.steps++;
          s.refine_pending = !ex.empty();
          if (ex.empty())
            break;
        }
        if (s.refine_pending)
          continue;
        s.m->refine(lev);
        if (had)
        {
          s.m->prescribed.clear();
          bool ok;
          R.read(i, (uint64_t)atol(id.c_str()) * 77 + lev, Run::Fault(), ok, who);
        }
        if (PROP == 10)
          R.battery(i, who);
        else
          R.query(i, who);
        continue;
      }
      if (kind == "query")
      {
        R.query(i, who);
        continue;
      }
      if (kind == "read" && w.size() >= 5)
      {
        bool ok;
        R.read(i, u64(w[4]), f, ok, who);
        if (!ok && again.count(id))
          R.read(i, u64(w[4]), Run::Fault(), ok, who);
        continue;
      }
      if (kind == "plot" && w.size() >= 6)
      {
        if (f.what == "alloc")  // failing allocations while plotting belong to C05
          f = Run::Fault();
        Vec x = mock::make_vec(u64(w[4]), s.m->size(), mock::vec_exp(u64(w[4]), s.m->sh.f32));
        std::string ex = R.guarded(f, fired, [&]() { s.p->plot_solution(x, at(s, w[5])); });
        o.trace.add("plot" + ex);
        o.steps++;
        continue;
      }
      if (kind == "call" && w.size() >= 9)
      {
        int fn = atoi(w[4].c_str());
        if (fn < 0 || fn >= mock::F_N || !mock::has(s.m->kind, fn))
          continue;
        int ex = mock::vec_exp(u64(w[5]), s.m->sh.f32);
        Vec x = mock::make_vec(u64(w[5]), s.m->size(), ex), x2 = mock::make_vec(u64(w[7]), s.m->size(), ex);
        double t = at(s, w[6]), t2 = at(s, w[8]);
        bool ok = R.call(i, fn, x, t, x2, t2, f, who);
        if (!ok && again.count(id))
        {
          o.counters["repeated after a failure"]++;
          R.call(i, fn, x, t, x2, t2, Run::Fault(), who + " repeated");
        }
        Hash h;
        h.add((uint64_t)s.m->kind);
        h.add((uint64_t)s.m->level);
        h.add((uint64_t)fn);
        h.add((uint64_t)(s.m->sh.ed * 100 + s.m->sh.nd));
        h.add(ok ? "" : f.what);
        for (auto d : s.m->data)
          h.add(d);
        o.states.push_back(h.h);
      }
    }
    for (auto& s : R.slots)
      if (s.second.p && o.clause.empty())
        R.battery(s.first, "after the history, object " + std::to_string(s.first));
  }
  Outcome execute(const Plan& plan, const std::string& scratch) override
  {
    Outcome r = isolated(scratch, 20,
                    [&](Outcome& o)
                    {
                      allocsim::poison = true;
                      allocsim::pattern = (unsigned char)(17 * plan.lines.size() + 3);
                      long a0 = allocsim::live_armed, b0 = mock::live_objects;
                      mock::real_dir = scratch;
                      history(plan, o, scratch);
                      if (o.clause.empty() && mock::live_objects != b0)
                        o.violate("objects-leaked", std::to_string(mock::live_objects - b0) + " parts of problem objects are still alive after all problem objects are gone");
                      if (PROP == 11 && o.clause.empty() && allocsim::live_armed != a0)
                      {
                        // Something may be kept for good by the first use of a library; a second round settles it.
                        long a1 = allocsim::live_armed;
                        Outcome o2;
                        history(plan, o2, scratch);
                        if (allocsim::live_armed != a1)
                          o.violate("memory-leaked", std::to_string(allocsim::live_armed - a1) + " blocks of memory are lost by every run of this history");
                      }
                      o.nontrivial = PROP == 9 || PROP == 12 ? o.counters["calls judged"] > 3 : PROP == 10 ? true : !o.faults.empty();
                    });
    return r;
  }
};

int main(int argc, char** argv)
{
  LoopSim s;
  return sim_main(argc, argv, s);
}
