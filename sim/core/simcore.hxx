// Core of the deterministic simulator: seeded RNG, textual plans, outcome records, ddmin, driver modes.
// A run is a pure function of its plan; a plan is a pure function of (property, seed, tier).
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace allocsim
{
inline bool armed = false;  // count and fail allocations only inside library calls
struct Pause                // the simulator's own allocations do not count
{
  bool was = armed;
  Pause() { armed = false; }
  ~Pause() { armed = was; }
};
}  // namespace allocsim
namespace sim
{
inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5bd1e995u)) {}
  uint64_t next() { return mix64(s++ * 0x2545F4914F6CDD1Dull + 0x632BE59BD9B4E019ull); }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename T>
  const T& pick(const std::vector<T>& v)
  {
    return v[below(v.size())];
  }
};
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  void bytes(const void* p, size_t n)
  {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
      h = (h ^ c[i]) * 1099511628211ull;
  }
  void add(const std::string& s)
  {
    bytes(s.data(), s.size());
    bytes("\x1f", 1);
  }
  void add(uint64_t v) { bytes(&v, sizeof v); }
};

inline std::string esc(const std::string& s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s)
    if (c == '\\' || c < 32 || c > 126)
    {
      snprintf(b, sizeof b, "\\%02x", c);
      r += b;
    }
    else
      r += (char)c;
  return r;
}
inline std::string unesc(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '\\' && i + 2 < s.size())
    {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    }
    else
      r += s[i];
  return r;
}
inline std::string jstr(const std::string& s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s)
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += (char)c;
    }
    else if (c < 32 || c > 126)
    {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += (char)c;
  return r + "\"";
}
inline std::vector<std::string> words(const std::string& l)
{
  std::istringstream is(l);
  std::vector<std::string> v;
  std::string w;
  while (is >> w)
    v.push_back(w);
  return v;
}

struct Plan
{
  std::vector<std::string> lines;
  void add(const std::string& l) { lines.push_back(l); }
  std::string cfg(const std::string& key, const std::string& def = "") const
  {
    for (const auto& l : lines)
      if (l.rfind("cfg " + key + " ", 0) == 0)
        return l.substr(5 + key.size());
    return def;
  }
  long cfgi(const std::string& key, long def = 0) const
  {
    std::string v = cfg(key, "");
    return v.empty() ? def : atol(v.c_str());
  }
  void set(const std::string& key, const std::string& v) { add("cfg " + key + " " + v); }
  void set(const std::string& key, long v) { set(key, std::to_string(v)); }
  std::vector<std::vector<std::string>> all(const std::string& kind) const
  {
    std::vector<std::vector<std::string>> r;
    for (const auto& l : lines)
    {
      auto w = words(l);
      if (!w.empty() && w[0] == kind)
        r.push_back(w);
    }
    return r;
  }
  std::string text() const
  {
    std::string r;
    for (const auto& l : lines)
      r += l + "\n";
    return r;
  }
};
inline Plan load_plan(const std::string& f)
{
  Plan p;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l))
    if (!l.empty() && l[0] != '#')
      p.lines.push_back(l);
  return p;
}

struct Outcome
{
  std::string clause;  // empty = property held
  std::string detail;
  Hash trace;
  uint64_t steps = 0;
  bool nontrivial = false;
  std::map<std::string, uint64_t> faults;    // fault kinds that really fired
  std::map<std::string, uint64_t> counters;  // other coverage counters
  std::vector<uint64_t> states;              // hashes of distinct states reached
  void violate(const std::string& c, const std::string& d)
  {
    if (clause.empty())
    {
      clause = c;
      detail = d;
    }
  }
};

struct Sim
{
  virtual ~Sim() {}
  virtual Plan generate(Rng& rng, bool thorough) = 0;
  virtual Outcome execute(const Plan& plan, const std::string& scratch) = 0;
  virtual bool removable(const std::string& line) { return line.rfind("cfg ", 0) != 0; }
};

inline std::string outcome_json(const Outcome& o)
{
  std::ostringstream s;
  s << "{\"clause\":" << jstr(o.clause) << ",\"detail\":" << jstr(o.detail) << ",\"trace\":\""
    << std::hex << o.trace.h << std::dec << "\",\"steps\":" << o.steps << "}";
  return s.str();
}

inline Plan minimise(Sim& sim, Plan p, const std::string& clause, const std::string& scratch, double cap_s)
{
  auto t0 = std::chrono::steady_clock::now();
  auto fails = [&](const Plan& q)
  {
    Outcome o = sim.execute(q, scratch);
    return o.clause == clause;
  };
  auto late = [&]()
  { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap_s; };
  size_t chunk = std::max<size_t>(1, p.lines.size() / 2);
  while (chunk >= 1 && !late())
  {
    bool any = false;
    for (size_t i = 0; i < p.lines.size() && !late();)
    {
      Plan q;
      size_t removed = 0;
      for (size_t j = 0; j < p.lines.size(); ++j)
        if (j >= i && j < i + chunk && sim.removable(p.lines[j]))
          ++removed;
        else
          q.lines.push_back(p.lines[j]);
      if (removed > 0 && fails(q))
      {
        p = q;
        any = true;
      }
      else
        i += chunk;
    }
    if (chunk == 1 && !any)
      break;
    if (!any || chunk > p.lines.size())
      chunk = std::max<size_t>(1, chunk / 2);
  }
  // Shorten lists of schedule choices.
  for (size_t i = 0; i < p.lines.size() && !late(); ++i)
    if (p.lines[i].rfind("sched ", 0) == 0)
    {
      auto w = words(p.lines[i]);
      size_t n = w.size();
      while (n > 1 && !late())
      {
        size_t m = n - std::max<size_t>(1, n / 4);
        if (m < 1)
          break;
        Plan q = p;
        std::string l = "sched";
        for (size_t j = 1; j < m; ++j)
          l += " " + w[j];
        q.lines[i] = l;
        if (!fails(q))
          break;
        p = q;
        n = m;
      }
    }
  return p;
}

/// Number of the simulated property: given when compiling (PROPERTY) or, for experiments, by the environment.
inline int sim_property()
{
#ifdef PROPERTY
  return PROPERTY;
#else
  const char* e = getenv("PROP");
  return e ? atoi(e) : 0;
#endif
}
inline int sim_main(int argc, char** argv, Sim& sim)
{
  // Same addresses in every process, so that not even uninitialised memory varies between runs.
  if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) &&
      getenv("SIM_NO_REEXEC") == nullptr)
  {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::ios::sync_with_stdio(true);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 4)
  {
    Rng r(strtoull(argv[2], nullptr, 10));
    std::cout << sim.generate(r, std::string(argv[3]) == "thorough").text();
    return 0;
  }
  if (mode == "replay" && argc >= 4)
  {
    Plan p = load_plan(argv[2]);
    std::cout << outcome_json(sim.execute(p, argv[3])) << std::endl;
    return 0;
  }
  if (mode == "minimise" && argc >= 6)
  {
    Plan p = load_plan(argv[2]);
    Outcome o = sim.execute(p, argv[4]);
    if (o.clause.empty())
    {
      std::cout << "{\"clause\":\"\"}" << std::endl;
      return 0;
    }
    Plan q = minimise(sim, p, o.clause, argv[4], atof(argv[5]));
    Outcome o2 = sim.execute(q, argv[4]);
    std::ofstream(argv[3]) << q.text();
    std::cout << outcome_json(o2) << std::endl;
    return 0;
  }
  if (mode == "run" && argc >= 10)
  {
    uint64_t base = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10),
             stride = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
    double cap = atof(argv[6]);
    bool thorough = std::string(argv[7]) == "thorough";
    std::string scratch = argv[8], out = argv[9];
    uint64_t repeat_every = 23;
    auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, uint64_t> faults, counters;
    std::unordered_set<uint64_t> traces, states, nontriv;
    uint64_t runs = 0, steps = 0, repeats = 0, violations = 0, nondet = 0;
    std::vector<std::string> samples;
    std::map<std::string, int> clauses;
    bool capped = false;
    for (uint64_t i = start; i < count; i += stride)
    {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap)
      {
        capped = true;
        break;
      }
      uint64_t seed = mix64(base * 1000003ull + i);
      Rng r(seed);
      Plan p = sim.generate(r, thorough);
      Outcome o = sim.execute(p, scratch);
      ++runs;
      steps += o.steps;
      for (auto& f : o.faults)
        faults[f.first] += f.second;
      for (auto& f : o.counters)
        counters[f.first] += f.second;
      traces.insert(o.trace.h);
      if (o.nontrivial)
        nontriv.insert(o.trace.h);
      for (auto s : o.states)
        states.insert(s);
      if (samples.size() < 2 && o.nontrivial)
      {
        std::string t = p.text();
        if (t.size() > 900)
          t = t.substr(0, 900) + "...";
        samples.push_back("seed=" + std::to_string(seed) + "\n" + t);
      }
      if ((i / stride) % repeat_every == 0 || !o.clause.empty())
      {
        Outcome o2 = sim.execute(p, scratch);
        ++repeats;
        if (o2.trace.h != o.trace.h || o2.clause != o.clause)
        {
          ++nondet;
          std::ofstream(out + ".nondet.plan")
            << "# seed=" << seed << "\n# first " << outcome_json(o) << "\n# second "
            << outcome_json(o2) << "\n"
            << p.text();
        }
      }
      if (!o.clause.empty())
      {
        ++violations;
        if (clauses[o.clause]++ == 0)
        {
          std::ofstream f(out + ".viol." + std::to_string(clauses.size()) + ".plan");
          f << "# seed=" << seed << "\n# clause=" << o.clause << "\n# detail=" << esc(o.detail)
            << "\n"
            << p.text();
        }
        if (violations >= 40)
          break;
      }
    }
    std::ofstream hs(out + ".hashes", std::ios::binary);
    auto dump = [&](const std::unordered_set<uint64_t>& s, char tag)
    {
      for (uint64_t h : s)
      {
        hs.write(&tag, 1);
        hs.write((const char*)&h, 8);
      }
    };
    dump(traces, 'T');
    dump(states, 'S');
    dump(nontriv, 'N');
    std::ofstream js(out + ".json");
    js << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"repeats\":" << repeats
       << ",\"nondet\":" << nondet << ",\"violations\":" << violations
       << ",\"capped\":" << (capped ? "true" : "false") << ",\"faults\":{";
    bool first = true;
    for (auto& f : faults)
    {
      js << (first ? "" : ",") << jstr(f.first) << ":" << f.second;
      first = false;
    }
    js << "},\"counters\":{";
    first = true;
    for (auto& f : counters)
    {
      js << (first ? "" : ",") << jstr(f.first) << ":" << f.second;
      first = false;
    }
    js << "},\"samples\":[";
    first = true;
    for (auto& s : samples)
    {
      js << (first ? "" : ",") << jstr(s);
      first = false;
    }
    js << "]}" << std::endl;
    return 0;
  }
  std::cerr << "usage: run|replay|minimise|gen" << std::endl;
  return 2;
}
}  // namespace sim
