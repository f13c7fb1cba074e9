// Deterministic simulation core: the single source of choices, the event log
// and its hash, oracles, fault and probe counters.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <string>
#include <unistd.h>
#include <vector>

namespace sim
{
  constexpr uint32_t max_choices = 1u << 18;
  constexpr uint32_t max_counters = 160;
  constexpr uint32_t hashset_bits = 19;
  constexpr int fail_exit = 42;

  struct scenario_t { std::string name; void (*fn)(); };
  inline std::vector<scenario_t>& scenarios() { static std::vector<scenario_t> s; return s; }
  struct add_scenario { add_scenario(const char* n, void (*f)()) { scenarios().push_back({n, f}); } };

  struct counter_t { char name[48]; uint64_t value; };

  // Lives in memory shared between a worker and the supervising process, so
  // that a crash at any instruction leaves the schedule that led to it.
  struct shared_t
  {
    // current run
    uint64_t run_index;
    uint64_t run_seed;
    uint64_t hash;
    uint64_t sim_time_us;
    uint64_t steps;
    uint32_t n_choices;
    uint32_t nontrivial;
    uint32_t failed;
    uint32_t done;
    char scenario[48];
    char oracle[96];
    char message[2048];
    // totals of this worker
    uint64_t runs, total_steps, total_sim_us, total_choices, nontrivial_runs, heartbeat;
    uint64_t distinct_runs, distinct_nontrivial;
    counter_t faults[max_counters];
    counter_t probes[max_counters];
    uint32_t choices[max_choices];
    uint64_t hashset[1u << hashset_bits];
  };

  struct context_t
  {
    shared_t* sh = nullptr;
    uint64_t rng[4]{};
    bool replay = false;
    const uint32_t* rep = nullptr;
    uint32_t n_rep = 0;
    FILE* trace = nullptr;
    std::string property;      // the property whose oracles are armed
    uint64_t max_steps = 2000000;
    std::vector<std::string> known;
    bool check_leaks = false;
  };
  inline context_t g;

  inline uint64_t splitmix(uint64_t& s)
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  inline void rng_seed(uint64_t s) { for (auto& x : g.rng) x = splitmix(s); }
  inline uint64_t rng_next()
  {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    auto& s = g.rng;
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }

  inline void mix(uint64_t v)
  {
    uint64_t h = g.sh->hash;
    for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 0x100000001b3ull; }
    g.sh->hash = h;
  }
  inline void mix_bytes(const void* p, size_t n)
  {
    uint64_t h = g.sh->hash;
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    g.sh->hash = h;
  }

  [[noreturn]] inline void end_process(int code)
  {
    if (g.trace) fflush(g.trace);
    _exit(code);
  }

  [[noreturn]] inline void fail_always(const char* oracle, const char* msg)
  {
    snprintf(g.sh->oracle, sizeof g.sh->oracle, "%s", oracle);
    snprintf(g.sh->message, sizeof g.sh->message, "%s", msg);
    g.sh->failed = 1;
    if (g.trace) fprintf(g.trace, "!! %s: %s\n", oracle, msg);
    end_process(fail_exit);
  }

  // Records one decision of the simulator. 0 is always the benign value.
  inline uint32_t record(uint32_t v)
  {
    auto& n = g.sh->n_choices;
    if (n >= max_choices) fail_always("budget", "choice budget exceeded (the system does not come to rest)");
    g.sh->choices[n++] = v;
    return v;
  }
  inline bool next_replay(uint32_t n, uint32_t& v)
  {
    if (!g.replay) return false;
    v = g.sh->n_choices < g.n_rep ? g.rep[g.sh->n_choices] : 0;
    if (n && v >= n) v %= n;
    return true;
  }
  inline uint32_t choose(uint32_t n)
  {
    if (n <= 1) return 0;
    uint32_t v;
    if (!next_replay(n, v)) v = rng_next() % n;
    return record(v);
  }
  // biased: true with probability num/den
  inline bool flip(uint32_t num, uint32_t den)
  {
    uint32_t v;
    if (!next_replay(2, v)) v = (rng_next() % den) < num;
    return record(v);
  }
  inline uint32_t weighted(std::initializer_list<uint32_t> w)
  {
    uint32_t v;
    if (!next_replay(w.size(), v))
    {
      uint64_t tot = 0; for (auto x : w) tot += x;
      uint64_t r = rng_next() % (tot ? tot : 1); v = 0;
      for (auto x : w) { if (r < x) break; r -= x; v++; }
    }
    return record(v);
  }
  inline uint32_t weighted(std::vector<uint32_t> const& w)
  {
    uint32_t v;
    if (!next_replay(w.size(), v))
    {
      uint64_t tot = 0; for (auto x : w) tot += x;
      uint64_t r = rng_next() % (tot ? tot : 1); v = 0;
      for (auto x : w) { if (r < x) break; r -= x; v++; }
    }
    return record(v);
  }
  inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
  template <typename T>
  inline T const& any_of(std::vector<T> const& xs) { return xs[choose(xs.size())]; }

  inline void log(const char* fmt, ...)
  {
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
    mix_bytes(buf, n);
    if (g.trace) { fwrite(buf, 1, n, g.trace); fputc('\n', g.trace); }
  }

  inline void bump(counter_t* t, const char* name, uint64_t by)
  {
    for (uint32_t i = 0; i < max_counters; i++)
    {
      if (!t[i].name[0]) snprintf(t[i].name, sizeof t[i].name, "%s", name);
      if (!strncmp(t[i].name, name, sizeof t[i].name - 1)) { t[i].value += by; return; }
    }
  }
  inline void fault(const char* name, uint64_t by = 1) { bump(g.sh->faults, name, by); }
  inline void probe(const char* name, uint64_t by = 1) { bump(g.sh->probes, name, by); }
  inline void nontrivial() { g.sh->nontrivial = 1; }
  inline void advance(uint64_t us) { g.sh->sim_time_us += us; }
  inline void step()
  {
    g.sh->steps++; g.sh->heartbeat++;
    if (g.sh->steps > g.max_steps) fail_always("budget", "step budget exceeded (the system does not come to rest)");
  }

  // `prop` may name several properties, "P01,P04": an oracle can decide more than one
  inline bool armed(const char* prop)
  {
    if (g.property == "*") return true;
    const char* p = prop;
    while (true)
    {
      const char* e = strchr(p, ',');
      size_t n = e ? e - p : strlen(p);
      if (g.property.size() == n && !strncmp(p, g.property.c_str(), n)) return true;
      if (!e) return false;
      p = e + 1;
    }
  }

  // this scenario frees everything it allocates; judged when `prop` is checked
  inline void leaks_for(const char* prop) { g.check_leaks = armed(prop); }

  // thrown to abandon a run that met a listed known finding
  struct abandon { };

  // An oracle of `prop` failed. Does nothing when another property is checked.
  inline bool fail(const char* prop, const char* oracle, const char* fmt, ...)
  {
    if (!armed(prop)) return false;
    char buf[1900];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::string o = (g.property == "*" ? std::string(prop) : g.property) + "/" + oracle;
    for (auto& k : g.known) if (k == o) { probe((std::string("known:") + o).c_str()); return false; }
    fail_always(o.c_str(), buf);
  }

  // deterministic payload of a given length and identity
  inline std::string pattern(uint32_t id, size_t len)
  {
    std::string s(len, 0);
    uint64_t x = id * 0x9E3779B97F4A7C15ull + 12345;
    for (size_t i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char) (x >> 24); }
    return s;
  }
  inline uint64_t fnv(std::string const& s)
  {
    uint64_t h = 0xcbf29ce484222325ull;
    for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; }
    return h;
  }

  // live heap blocks, counted by the replaced operator new/delete
  inline int64_t live_blocks = 0;
  inline uint64_t alloc_limit = 0;      // one allocation above this many bytes fails (0: none)
  inline int64_t alloc_fail_in = 0;     // the n-th allocation from now fails (0: none)
}
