// Supervisor: seeded search over forked workers, determinism gate, minimiser, replay.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

void* operator new(std::size_t n)
{
  if (sim::alloc_limit && n > sim::alloc_limit) throw std::bad_alloc();
  if (sim::alloc_fail_in && --sim::alloc_fail_in == 0) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  sim::live_blocks++;
  return p;
}
void operator delete(void* p) noexcept { if (p) { sim::live_blocks--; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, std::align_val_t a)
{
  if (sim::alloc_limit && n > sim::alloc_limit) throw std::bad_alloc();
  if (sim::alloc_fail_in && --sim::alloc_fail_in == 0) throw std::bad_alloc();
  void* p = nullptr;
  if (posix_memalign(&p, std::max<std::size_t>((std::size_t) a, sizeof(void*)), n ? n : 1)) throw std::bad_alloc();
  sim::live_blocks++;
  return p;
}
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }

extern "C" const char* __asan_default_options()
{ return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=16:handle_abort=1:detect_stack_use_after_return=0:symbolize=0:print_legend=0:allow_addr2line=0"; }
extern "C" const char* __ubsan_default_options()
{ return "halt_on_error=1:print_stacktrace=0:exitcode=78:symbolize=0"; }

namespace sim
{

  struct plan_t { std::string scenario; unsigned weight; };

  struct outcome_t
  {
    bool ok = true;
    std::string cls;        // failure class: an oracle, "crash:...", "hang"
    std::string message;
    uint64_t hash = 0;
    uint32_t n = 0;
    std::vector<uint32_t> choices;
    std::string err;        // tail of stderr
    std::string scenario;
    uint64_t index = 0;
    uint64_t began = 0;     // the first run of the process it happened in
  };

  inline shared_t* new_shared()
  {
    void* p = mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<shared_t*>(p);
  }

  inline void begin_run(uint64_t index, uint64_t seed, std::string const& scenario)
  {
    auto* s = g.sh;
    s->run_index = index; s->run_seed = seed; s->hash = 0xcbf29ce484222325ull; s->sim_time_us = 0;
    s->steps = 0; s->n_choices = 0; s->nontrivial = 0; s->failed = 0; s->done = 0;
    s->oracle[0] = s->message[0] = 0;
    snprintf(s->scenario, sizeof s->scenario, "%s", scenario.c_str());
    rng_seed(seed);
  }

  inline void (*find_scenario(std::string const& n))()
  {
    for (auto& s : scenarios()) if (s.name == n) return s.fn;
    fprintf(stderr, "no scenario %s\n", n.c_str()); exit(3);
  }

  // Memory returned: every block allocated during a run is freed by its end.
  inline void execute(std::string const& scenario)
  {
    auto fn = find_scenario(scenario);
    int64_t before = live_blocks;
    g.check_leaks = false;
    try { fn(); } catch (abandon const&) { }
    int64_t leaked = live_blocks - before;
    g.sh->done = 1;
    if (g.check_leaks && leaked > 0)
    {
      // A lazily made static is not a leak: the same run must lose blocks again.
      auto* s = g.sh;
      std::vector<uint32_t> again(s->choices, s->choices + s->n_choices);
      auto n = s->n_choices; auto h = s->hash;
      bool rp = g.replay; auto r = g.rep; auto nr = g.n_rep; FILE* tr = g.trace;
      g.replay = true; g.rep = again.data(); g.n_rep = again.size(); g.trace = nullptr;
      s->n_choices = 0; s->steps = 0;
      int64_t b2 = live_blocks;
      try { fn(); } catch (abandon const&) { }
      int64_t l2 = live_blocks - b2;
      g.replay = rp; g.rep = r; g.n_rep = nr; g.trace = tr;
      s->n_choices = n; s->hash = h;
      if (l2 > 0)
      {
        char m[160]; snprintf(m, sizeof m, "%lld heap blocks allocated during the run are never freed", (long long) l2);
        fail_always((g.property + "/leak").c_str(), m);
      }
    }
    g.sh->failed = 0;
  }

  inline uint64_t derive(uint64_t base, std::string const& what, uint64_t index)
  {
    uint64_t s = base * 0x9E3779B97F4A7C15ull ^ fnv(what);
    uint64_t a = splitmix(s); s = a ^ (index * 0xD1B54A32D192ED03ull); return splitmix(s);
  }

  struct options_t
  {
    std::string property = "*", replay, out, replay_dir = ".", only;
    uint64_t seed = 1, runs = 1000, first = 0;
    double secs = 30, minimise_secs = 40;
    int jobs = 8;
    uint64_t gate = 24;
    std::vector<plan_t> plan;
    bool verbose = false;
    std::string tier = "quick";
    std::string source_id;
    // runs that come before, in the same process: first index, stride, how many
    uint64_t before_first = 0, before_stride = 1, before_n = 0;
  };

  inline std::string pick_scenario(options_t const& o, uint64_t index)
  {
    unsigned tot = 0; for (auto& p : o.plan) tot += p.weight;
    uint64_t s = derive(o.seed, o.property + "#plan", index);
    unsigned r = s % tot;
    for (auto& p : o.plan) { if (r < p.weight) return p.scenario; r -= p.weight; }
    return o.plan[0].scenario;
  }

  inline std::string slurp(std::string const& f, size_t tail = 6000)
  {
    std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); auto s = ss.str();
    if (s.size() > tail) s = s.substr(0, tail);
    return s;
  }

  inline std::string classify_crash(int status, std::string const& err)
  {
    auto grab = [&](const char* key) -> std::string {
      auto p = err.find(key);
      if (p == std::string::npos) return "";
      p += strlen(key);
      auto e = err.find_first_of(" \n:(", p);
      return err.substr(p, e == std::string::npos ? 40 : e - p);
    };
    if (err.find("AddressSanitizer: requested allocation size") != std::string::npos) return "crash:asan:allocation-size";
    auto a = grab("AddressSanitizer: ");
    if (!a.empty())
    {
      if (a == "ABRT") return err.find("terminate called") != std::string::npos ? "crash:terminate" : "crash:abort";
      return "crash:asan:" + a;
    }
    if (err.find("runtime error:") != std::string::npos) return "crash:ubsan:" + grab("runtime error: ");
    if (WIFSIGNALED(status)) return "crash:signal:" + std::to_string(WTERMSIG(status));
    return "crash:exit:" + std::to_string(WEXITSTATUS(status));
  }

  inline std::string crash_line(std::string const& err)
  {
    for (const char* key : {"terminate called", "runtime error:", "ERROR: AddressSanitizer"})
    {
      auto p = err.find(key);
      if (p == std::string::npos) continue;
      auto b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
      auto e = err.find('\n', p);
      auto l = err.substr(b, e == std::string::npos ? std::string::npos : e - b);
      auto w = err.find("what():", p);
      if (w != std::string::npos && std::string(key) == "terminate called")
      { auto we = err.find('\n', w); l += " " + err.substr(w, we - w); }
      return l;
    }
    return err.substr(0, 200);
  }

  inline void child_setup(const char* errfile)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int fd = open(errfile, O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }

  inline double now_s()
  {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9;
  }

  // One run in a fresh process; `rep` null means: draw choices from the seed.
  inline outcome_t run_fresh(options_t const& o, std::string const& scenario, uint64_t index
                           , const std::vector<uint32_t>* rep, const char* trace_file = nullptr
                           , double limit = 20)
  {
    if (o.before_n) limit = std::max(limit, 120.0);
    static shared_t* sh = new_shared();
    static std::string errf = "/tmp/sim_err_" + std::to_string(getpid());
    sh->heartbeat = 0; sh->hash = 0; sh->failed = 0; sh->done = 0; sh->n_choices = 0;
    pid_t pid = fork();
    if (pid == 0)
    {
      child_setup(errf.c_str());
      g.sh = sh;
      for (uint64_t k = 0; k < o.before_n; k++)
      {
        uint64_t i = o.before_first + k * o.before_stride; auto sc = pick_scenario(o, i);
        begin_run(i, derive(o.seed, o.property, i), sc);
        execute(sc);
      }
      begin_run(index, derive(o.seed, o.property, index), scenario);
      if (rep) { g.replay = true; g.rep = rep->data(); g.n_rep = rep->size(); }
      if (trace_file) { g.trace = fopen(trace_file, "w"); if (g.trace) setvbuf(g.trace, nullptr, _IOLBF, 0); }
      execute(scenario);
      end_process(0);
    }
    outcome_t r; r.scenario = scenario; r.index = index;
    int status = 0; double t0 = now_s(); bool hang = false;
    while (true)
    {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      if (now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hang = true; break; }
      usleep(200);
    }
    r.hash = sh->hash; r.n = sh->n_choices;
    if (o.before_n) { r.index = sh->run_index; r.scenario = sh->scenario; }
    r.choices.assign(sh->choices, sh->choices + sh->n_choices);
    if (hang) { r.ok = false; r.cls = "hang"; r.message = "one run does not end within its time limit"; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) r.ok = true;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == fail_exit && sh->failed)
    { r.ok = false; r.cls = sh->oracle; r.message = sh->message; }
    else
    {
      r.ok = false; r.err = slurp(errf);
      r.cls = classify_crash(status, r.err); r.message = crash_line(r.err);
    }
    unlink(errf.c_str());
    return r;
  }

  struct worker_t
  {
    pid_t pid = -1; shared_t* sh = nullptr; uint64_t next = 0; std::string errf; uint64_t hb = 0, began = 0; double hb_t = 0; bool done = false;
  };

  inline std::string jesc(std::string const& s)
  {
    std::string o;
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o;
  }

  inline bool same_class(outcome_t const& a, outcome_t const& b)
  {
    if (a.ok != b.ok) return false;
    if (a.ok) return true;
    if (a.cls == b.cls) return true;
    // two ways the same memory error shows itself
    return a.cls.rfind("crash:", 0) == 0 && b.cls.rfind("crash:", 0) == 0;
  }

  inline std::vector<uint32_t> minimise(options_t const& o, outcome_t const& f, unsigned& tries)
  {
    std::vector<uint32_t> best = f.choices;
    double t0 = now_s();
    auto out_of_time = [&] { return now_s() - t0 > o.minimise_secs || tries > 6000; };
    auto test = [&](std::vector<uint32_t> const& c) {
      tries++;
      auto r = run_fresh(o, f.scenario, f.index, &c, nullptr, f.cls == "hang" ? 5 : 10);
      return !r.ok && r.cls == f.cls;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    { // shortest failing prefix
      size_t lo = 0, hi = best.size();
      while (lo < hi && !out_of_time())
      {
        size_t mid = (lo + hi) / 2;
        std::vector<uint32_t> c(best.begin(), best.begin() + mid);
        if (test(c)) hi = mid; else lo = mid + 1;
      }
      std::vector<uint32_t> c(best.begin(), best.begin() + hi);
      if (hi < best.size() && test(c)) best = c;
    }
    bool progress = true;
    while (progress && !out_of_time())
    {
      progress = false;
      for (size_t chunk = std::max<size_t>(best.size() / 2, 1); ; chunk /= 2)
      {
        for (size_t i = 0; i < best.size() && !out_of_time(); )
        {
          size_t e = std::min(best.size(), i + chunk);
          std::vector<uint32_t> c(best.begin(), best.begin() + i);
          c.insert(c.end(), best.begin() + e, best.end());
          if (test(c)) { best = c; progress = true; continue; }
          bool nz = std::any_of(best.begin() + i, best.begin() + e, [](auto v) { return v; });
          if (nz)
          {
            c = best; std::fill(c.begin() + i, c.begin() + e, 0);
            if (test(c)) { best = c; progress = true; }
          }
          i += chunk;
        }
        if (chunk <= 1 || out_of_time()) break;
      }
      for (size_t i = 0; i < best.size() && !out_of_time(); i++)
        while (best[i] > 1 && !out_of_time())
        {
          auto c = best; c[i] /= 2;
          if (test(c)) { best = c; progress = true; } else { c = best; c[i] -= 1; if (test(c)) { best = c; progress = true; } break; }
        }
      while (!best.empty() && best.back() == 0) best.pop_back();
    }
    return best;
  }

  inline int do_replay(options_t& o)
  {
    std::ifstream in(o.replay);
    if (!in) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 3; }
    std::string line, scenario, cls; uint64_t seed = 0, index = 0, hash = 0; std::vector<uint32_t> ch; bool in_choices = false;
    while (std::getline(in, line))
    {
      std::istringstream ls(line); std::string k; ls >> k;
      if (k == "property") ls >> o.property;
      else if (k == "scenario") ls >> scenario;
      else if (k == "seed") ls >> seed;
      else if (k == "index") ls >> index;
      else if (k == "before") ls >> o.before_first >> o.before_stride >> o.before_n;
      else if (k == "plan") { std::string t; while (ls >> t) { auto c = t.find(':'); o.plan.push_back({t.substr(0, c), (unsigned) std::stoul(t.substr(c + 1))}); } }
      else if (k == "hash") ls >> std::hex >> hash >> std::dec;
      else if (k == "class") { std::getline(ls, cls); cls.erase(0, cls.find_first_not_of(' ')); }
      else if (k == "choices") in_choices = true;
      else if (k == "end") break;
      else if (in_choices) { std::istringstream l2(line); uint32_t v; while (l2 >> v) ch.push_back(v); }
    }
    o.seed = seed; g.property = o.property;
    std::string tf = "/tmp/sim_trace_" + std::to_string(getpid());
    auto r = run_fresh(o, scenario, index, &ch, tf.c_str(), o.before_n ? 300 : 60);
    if (o.verbose) { std::cout << slurp(tf, 200000); }
    unlink(tf.c_str());
    printf("REPLAY %s class=%s hash=%016llx message=%s\n", r.ok ? "ok" : "failed", r.ok ? "-" : r.cls.c_str()
         , (unsigned long long) r.hash, r.message.c_str());
    if (o.verbose && !r.err.empty()) printf("%s\n", r.err.c_str());
    if (r.ok) return 0;
    bool exact = r.cls == cls && r.hash == hash;
    if (!exact) printf("REPLAY differs from the record: class %s hash %016llx\n", cls.c_str(), (unsigned long long) hash);
    return exact ? 1 : 4;
  }

  inline int sim_main(int argc, char** argv)
  {
    if (!getenv("SIM_NO_REEXEC"))
    {
      int p = personality(0xffffffff);
      if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
      { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    options_t o;
    for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
      if (a == "--property") o.property = v();
      else if (a == "--seed") o.seed = std::stoull(v());
      else if (a == "--runs") o.runs = std::stoull(v());
      else if (a == "--first") o.first = std::stoull(v());
      else if (a == "--secs") o.secs = std::stod(v());
      else if (a == "--jobs") o.jobs = std::stoi(v());
      else if (a == "--gate") o.gate = std::stoull(v());
      else if (a == "--out") o.out = v();
      else if (a == "--tier") o.tier = v();
      else if (a == "--replay-dir") o.replay_dir = v();
      else if (a == "--replay") o.replay = v();
      else if (a == "--known") g.known.push_back(v());
      else if (a == "--verbose") o.verbose = true;
      else if (a == "--source") o.source_id = v();
      else if (a == "--one") o.only = v();
      else if (a == "--list") { for (auto& s : scenarios()) puts(s.name.c_str()); return 0; }
      else if (a == "--plan")
      {
        std::istringstream ss(v()); std::string t;
        while (std::getline(ss, t, ','))
        { auto c = t.find(':'); o.plan.push_back({t.substr(0, c), c == std::string::npos ? 1u : (unsigned) std::stoul(t.substr(c + 1))}); }
      }
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    g.property = o.property;
    if (!o.replay.empty()) return do_replay(o);
    if (o.plan.empty()) for (auto& s : scenarios()) o.plan.push_back({s.name, 1});
    if (!o.only.empty())
    {
      uint64_t i = std::stoull(o.only);
      auto r = run_fresh(o, pick_scenario(o, i), i, nullptr, "/dev/stdout", 60);
      printf("%s %s %s hash=%016llx choices=%u\n%s\n", r.ok ? "ok" : "FAIL", r.cls.c_str(), r.message.c_str(), (unsigned long long) r.hash, r.n, r.err.c_str());
      return r.ok ? 0 : 1;
    }

    double t0 = now_s();
    // --- determinism gate: the same seed twice, in two fresh processes
    uint64_t gate_ok = 0;
    auto gate = [&](uint64_t i) {
      auto sc = pick_scenario(o, i);
      auto a = run_fresh(o, sc, i, nullptr);
      auto b = run_fresh(o, sc, i, nullptr);
      bool same = a.hash == b.hash && same_class(a, b) && a.choices == b.choices;
      if (!same)
      {
        printf("NONDETERMINISM scenario=%s index=%llu: %s/%016llx/%u vs %s/%016llx/%u\n", sc.c_str(), (unsigned long long) i
             , a.cls.c_str(), (unsigned long long) a.hash, a.n, b.cls.c_str(), (unsigned long long) b.hash, b.n);
      }
      return same;
    };

    // --- search
    std::vector<worker_t> ws(o.jobs);
    std::vector<outcome_t> fails;
    auto spawn = [&](worker_t& w, int id) {
      w.began = w.next;
      w.hb = w.sh->heartbeat; w.hb_t = now_s();
      w.pid = fork();
      if (w.pid == 0)
      {
        child_setup(w.errf.c_str());
        g.sh = w.sh;
        for (uint64_t i = w.next; i < o.first + o.runs; i += o.jobs)
        {
          if (now_s() - t0 > o.secs) break;
          auto sc = pick_scenario(o, i);
          begin_run(i, derive(o.seed, o.property, i), sc);
          execute(sc);
          auto* s = g.sh;
          s->runs++; s->total_steps += s->steps; s->total_sim_us += s->sim_time_us; s->total_choices += s->n_choices;
          s->nontrivial_runs += s->nontrivial; s->heartbeat++;
          uint64_t h = s->hash | 1; bool fresh = false;
          uint64_t m = (1u << hashset_bits) - 1;
          for (uint64_t k = h >> 7, t = 0; t < 64; t++, k++)
          {
            if (s->hashset[k & m] == h) break;
            if (!s->hashset[k & m]) { s->hashset[k & m] = h; fresh = true; break; }
          }
          if (fresh) { s->distinct_runs++; if (s->nontrivial) s->distinct_nontrivial++; }
          w.next = i + o.jobs;
        }
        end_process(0);
      }
      (void) id;
    };
    for (int i = 0; i < o.jobs; i++)
    {
      ws[i].sh = new_shared(); ws[i].next = o.first + i;
      ws[i].errf = "/tmp/sim_w" + std::to_string(getpid()) + "_" + std::to_string(i);
      spawn(ws[i], i);
    }
    size_t live = o.jobs;
    while (live)
    {
      usleep(2000);
      for (int i = 0; i < o.jobs; i++)
      {
        auto& w = ws[i];
        if (w.done) continue;
        int status = 0; pid_t p = waitpid(w.pid, &status, WNOHANG);
        bool hang = false;
        if (p == 0)
        {
          if (w.sh->heartbeat != w.hb) { w.hb = w.sh->heartbeat; w.hb_t = now_s(); continue; }
          if (now_s() - w.hb_t < 25) continue;
          kill(w.pid, SIGKILL); waitpid(w.pid, &status, 0); hang = true;
        }
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) { w.done = true; live--; continue; }
        outcome_t f; f.ok = false; f.index = w.sh->run_index; f.began = w.began; f.scenario = w.sh->scenario; f.hash = w.sh->hash;
        f.choices.assign(w.sh->choices, w.sh->choices + w.sh->n_choices);
        if (hang) { f.cls = "hang"; f.message = "one run does not end within its time limit"; }
        else if (WIFEXITED(status) && WEXITSTATUS(status) == fail_exit && w.sh->failed) { f.cls = w.sh->oracle; f.message = w.sh->message; }
        else { f.err = slurp(w.errf); f.cls = classify_crash(status, f.err); f.message = crash_line(f.err); }
        fails.push_back(f);
        w.next = f.index + o.jobs;
        // enough failures seen: stop
        if (fails.size() >= (size_t) std::max(4, o.jobs)) { w.done = true; live--; for (auto& x : ws) if (!x.done && x.pid > 0) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); x.done = true; live--; } break; }
        if (fails.size() >= 1 && now_s() - t0 > 5) { w.done = true; live--; for (auto& x : ws) if (!x.done && x.pid > 0) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); x.done = true; live--; } break; }
        spawn(w, i);
      }
    }
    for (auto& w : ws) unlink(w.errf.c_str());
    double search_s = now_s() - t0;

    bool deterministic = true;
    for (uint64_t i = 0; i < o.gate && deterministic && fails.empty(); i++)
    { deterministic = gate(o.first + i * 37); gate_ok += deterministic; }

    // --- report
    int rc = 0; std::string replay_path, viol_cls, viol_msg; unsigned tries = 0;
    if (!fails.empty())
    {
      std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) {
        if ((a.cls == "hang") != (b.cls == "hang")) return b.cls == "hang";
        return a.choices.size() < b.choices.size(); });
      rc = 3;
      for (auto& f : fails)
      {
        o.before_n = 0;
        auto a = run_fresh(o, f.scenario, f.index, nullptr);
        auto b = run_fresh(o, f.scenario, f.index, nullptr);
        auto confirmed = [&] { return !a.ok && !b.ok && same_class(a, b) && (a.hash == b.hash || a.cls == "hang"); };
        if (!confirmed() && now_s() - t0 < o.secs + 240)
        {
          // Something may be kept from one run to the next (a static, say): the
          // runs that came before it in its process are part of the history.
          uint64_t all = (f.index - f.began) / o.jobs;
          auto with = [&](uint64_t n) {
            o.before_first = f.index - n * o.jobs; o.before_stride = o.jobs; o.before_n = n; tries++;
            return run_fresh(o, f.scenario, f.index, nullptr, nullptr, 120); };
          uint64_t lo = 0, n = 1; bool found = false;
          double th = now_s();
          while (all && now_s() - th < 150)
          {
            n = std::min(n, all); a = with(n);
            if (!a.ok) { found = true; break; }
            if (n == all) break;
            lo = n; n *= 4;
          }
          if (found)
          {
            while (lo + 1 < n && now_s() - th < 200)
            { uint64_t mid = (lo + n) / 2; auto m = with(mid); if (m.ok) lo = mid; else { n = mid; a = m; } }
            b = with(n);
            if (b.ok || !same_class(a, b)) a = with(n);
            // one of those before it may be where it shows
            if (!b.ok && b.index != f.index) { o.before_n = (b.index - o.before_first) / o.jobs; a = run_fresh(o, b.scenario, b.index, nullptr, nullptr, 120); }
          }
        }
        if (!confirmed())
        {
          printf("UNCONFIRMED index=%llu scenario=%s first=%s then=%s/%016llx and %s/%016llx\n", (unsigned long long) f.index, f.scenario.c_str(), f.cls.c_str()
               , a.cls.c_str(), (unsigned long long) a.hash, b.cls.c_str(), (unsigned long long) b.hash);
          continue;
        }
        auto small = o.before_n > 500 ? a.choices : minimise(o, a, tries);
        std::string tf = "/tmp/sim_trace_" + std::to_string(getpid());
        auto m = run_fresh(o, a.scenario, a.index, &small, tf.c_str());
        if (m.ok) { small = a.choices; m = run_fresh(o, a.scenario, a.index, &small, tf.c_str()); }
        if (m.ok) { printf("UNCONFIRMED replay of index=%llu\n", (unsigned long long) a.index); unlink(tf.c_str()); continue; }
        mkdir(o.replay_dir.c_str(), 0777);
        replay_path = o.replay_dir + "/" + o.property + "-" + std::to_string(o.seed) + "-" + std::to_string(a.index) + ".replay";
        {
          std::ofstream w(replay_path);
          w << "property " << o.property << "\nscenario " << m.scenario << "\nseed " << o.seed << "\nindex " << m.index
            << "\nclass " << m.cls << "\nhash " << std::hex << m.hash << std::dec << "\nmessage " << jesc(m.message)
            << (o.before_n ? "\nbefore " + std::to_string(o.before_first) + " " + std::to_string(o.before_stride) + " " + std::to_string(o.before_n) + "\nplan" + [&] { std::string t; for (auto& p : o.plan) t += " " + p.scenario + ":" + std::to_string(p.weight); return t; }() : std::string())
            << "\nminimised_from " << a.choices.size() << "\nattempts " << tries << "\nchoices " << small.size() << "\n";
          for (size_t i = 0; i < small.size(); i++) w << small[i] << ((i + 1) % 32 ? " " : "\n");
          w << "\nend\n\n# schedule and fault trace of the minimised run\n" << slurp(tf, 60000) << "\n";
          if (!m.err.empty()) w << "# stderr\n" << m.err << "\n";
        }
        unlink(tf.c_str());
        // a fresh process must reproduce it exactly from the file
        std::string cmd = std::string("/proc/self/exe");
        char self[4096]; ssize_t ln = readlink("/proc/self/exe", self, sizeof self - 1); self[ln > 0 ? ln : 0] = 0;
        cmd = std::string("SIM_NO_REEXEC= '") + self + "' --replay '" + replay_path + "'";
        if (auto l = getenv("SIM_LAUNCHER")) cmd = std::string("'") + l + "' --replay '" + replay_path + "'";
        for (auto& k : g.known) cmd += " --known '" + k + "'";
        cmd += " > /dev/null 2>&1";
        unsetenv("SIM_NO_REEXEC"); unsetenv("LD_PRELOAD");
        int st = system(cmd.c_str());
        if (m.cls != "hang" && (!WIFEXITED(st) || WEXITSTATUS(st) != 1))
        { printf("UNCONFIRMED replay file %s exit %d\n", replay_path.c_str(), WEXITSTATUS(st)); continue; }
        viol_cls = m.cls; viol_msg = m.message; rc = 1;
        break;
      }
    }
    else if (!deterministic) rc = 3;

    // --- totals
    uint64_t runs = 0, steps = 0, us = 0, ch = 0, nt = 0, d = 0, dn = 0; std::map<std::string, uint64_t> F, P;
    for (auto& w : ws)
    {
      runs += w.sh->runs; steps += w.sh->total_steps; us += w.sh->total_sim_us; ch += w.sh->total_choices; nt += w.sh->nontrivial_runs;
      for (auto& c : w.sh->faults) if (c.name[0]) F[c.name] += c.value;
      for (auto& c : w.sh->probes) if (c.name[0]) P[c.name] += c.value;
    }
    {
      // distinct runs across workers, by event-log hash
      std::set<uint64_t> all;
      for (auto& w : ws) for (auto h : w.sh->hashset) if (h) all.insert(h);
      d = all.size();
      uint64_t dsum = 0, dnsum = 0; for (auto& w : ws) { dsum += w.sh->distinct_runs; dnsum += w.sh->distinct_nontrivial; }
      uint64_t dup = dsum - std::min(dsum, d);
      dn = dnsum > dup ? dnsum - dup : 0;
    }
    o.before_n = 0;
    std::vector<std::string> samples;
    for (uint64_t i = 0; i < 3 && rc == 0; i++)
    {
      std::string tf = "/tmp/sim_trace_" + std::to_string(getpid());
      auto r = run_fresh(o, pick_scenario(o, o.first + i), o.first + i, nullptr, tf.c_str());
      samples.push_back("scenario=" + r.scenario + " index=" + std::to_string(r.index) + "\n" + slurp(tf, 1500));
      unlink(tf.c_str());
    }
    if (!o.out.empty())
    {
      std::ofstream w(o.out);
      w << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"sim_us\":" << us << ",\"choices\":" << ch
        << ",\"nontrivial_runs\":" << nt << ",\"distinct\":" << d << ",\"distinct_nontrivial\":" << dn
        << ",\"search_s\":" << search_s << ",\"wall_s\":" << now_s() - t0 << ",\"determinism_pairs\":" << gate_ok
        << ",\"rc\":" << rc << ",\"class\":\"" << jesc(viol_cls) << "\",\"message\":\"" << jesc(viol_msg) << "\",\"replay\":\"" << jesc(replay_path)
        << "\",\"minimise_attempts\":" << tries << ",\"failures_seen\":" << fails.size();
      auto dump = [&](const char* n, std::map<std::string, uint64_t>& m) {
        w << ",\"" << n << "\":{"; bool c = false;
        for (auto& [k, v] : m) { if (c) w << ","; c = true; w << "\"" << jesc(k) << "\":" << v; }
        w << "}"; };
      dump("faults", F); dump("probes", P);
      w << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) w << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
      w << "]}\n";
    }
    printf("runs=%llu distinct=%llu nontrivial=%llu steps=%llu search_s=%.1f gate=%llu failures=%zu rc=%d\n", (unsigned long long) runs, (unsigned long long) d
         , (unsigned long long) nt, (unsigned long long) steps, search_s, (unsigned long long) gate_ok, fails.size(), rc);
    if (rc == 1) printf("VIOLATION-CLASS %s: %s\n", viol_cls.c_str(), viol_msg.c_str());
    if (rc == 1) printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), replay_path.c_str());
    return rc;
  }
}
