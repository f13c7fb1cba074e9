// Promise chains: many statically generated shapes whose stages behave as the
// simulator decides, run side by side and compared with a small interpreter.
#include "core.hpp"
#include <boost/hana.hpp>
#include <deque>
#include <functional>
#include <memory>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>

namespace pr
{
  namespace hana = boost::hana;
  using sim::choose; using sim::flip; using sim::log; using sim::fault; using sim::probe;

  // a value that notices being lost, moved from, or read after its death
  struct tok
  {
    long id; uint32_t magic = 0x70c70c;
    explicit tok(long i) : id(i) { }
    tok(tok const& o) : id(o.get()) { }
    tok(tok&& o) : id(o.get()) { o.id = -1; }
    tok& operator=(tok const&) = delete;
    ~tok() { magic = 0; }
    long get() const { if (magic != 0x70c70c) sim::fail("P10", "dead-value", "a stage reads a value after its destruction"); return id; }
  };
  struct err_a { long id; };
  struct err_a2 : err_a { };
  struct err_b { long id; };
  struct my_exception : std::runtime_error { long id; explicit my_exception(long i) : std::runtime_error("x"), id(i) { } };

  enum kind : int { PROM, FN, VOIDFN, TAP, TRY, CATCH_A, CATCH_B, CATCH_EXC, HOLD, LAZY, NESTED, REF, TAP_TAKE, FN_TAKE, CATCH_ALL, TRY_VOID, n_kinds };
  inline const char* kind_name(int k)
  { static const char* n[] = {"promise", "fn", "void-fn", "tap", "try", "catch-a", "catch-b", "catch-exc", "hold", "hold_lazy", "nested-run", "ref", "taking-tap", "taking-fn", "catch-all", "void-try"}; return n[k]; }

  // ------------------------------------------------------------ the model
  struct chain_t
  {
    int id = 0; std::vector<int> kinds; bool loop = false, sync_only = false;
    int budget = 0;               // loop iterations left
    int expect = 0; long value = 0;        // which stage runs next, with what (0: nothing)
    int expect_catch = -1; long err = 0; int err_kind = 0;
    bool ended = false, started = false; int pending = 0;
    int live = 0; long steps = 0; int in_stage = 0;

    bool is_catch(int i) const { int k = kinds[i]; return k == CATCH_A || k == CATCH_B || k == CATCH_EXC || k == CATCH_ALL; }
    bool takes(int i, int ek) const
    { int k = kinds[i]; return k == CATCH_ALL || (k == CATCH_A && (ek == 1 || ek == 2)) || (k == CATCH_B && ek == 3) || (k == CATCH_EXC && ek == 4); }
    void resolved(int from, long v)
    {
      int i = from + 1;
      while (i < (int) kinds.size() && is_catch(i)) i++;
      if (i >= (int) kinds.size())
      {
        if (!loop) { ended = true; expect = -1; return; }
        i = 0; while (is_catch(i)) i++;
      }
      expect = i; value = v;
    }
    void rejected(int from, int ek, long e)
    {
      for (int i = from + 1; i < (int) kinds.size(); i++) if (is_catch(i) && takes(i, ek))
      { expect = -1; expect_catch = i; err = e; err_kind = ek; return; }
      expect = -1;
    }
    void terminated() { expect = -1; ended = true; }
  };

  struct world_t
  {
    std::vector<std::unique_ptr<chain_t>> chains;
    struct op { chain_t* c; std::function<void()> fn; uint64_t at; };
    std::vector<op> pending;
    std::vector<std::function<void()>> starters;
    long next_value = 100;
    int depth = 0;
    int inner_live = 0;
  };
  inline world_t* W = nullptr;

  struct live_t
  {
    chain_t* c; uint32_t magic = 0x11fe;
    explicit live_t(chain_t* p) : c(p) { c->live++; }
    live_t(live_t const& o) : c(o.c) { c->live++; }
    ~live_t() { magic = 0; c->live--; }
    live_t& operator=(live_t const&) = delete;
    void check() const { if (magic != 0x11fe) sim::fail("P10", "dead-stage", "a stage runs after its destruction"); }
  };
  struct inner_live_t { inner_live_t() { W->inner_live++; } inner_live_t(inner_live_t const&) { W->inner_live++; } ~inner_live_t() { W->inner_live--; } };

  inline long arg() { return 0; }
  template <typename T, typename ...R> long arg(T const& t, R const&...)
  { if constexpr (std::is_same_v<std::decay_t<T>, tok>) return t.get(); else return t.value(); }

  inline void enter(chain_t* c, int i, long v)
  {
    sim::step(); c->steps++;
    log("chain %d: stage %d (%s) runs with %ld", c->id, i, kind_name(c->kinds[i]), v);
    if (c->ended) sim::fail("P08,P10", "runs-after-end", "chain %d: stage %d (%s) runs although the chain has ended", c->id, i, kind_name(c->kinds[i]));
    if (c->expect_catch >= 0) sim::fail("P09", "runs-after-rejection", "chain %d: stage %d (%s) runs although stage %d has to handle a rejection", c->id, i, kind_name(c->kinds[i]), c->expect_catch);
    if (c->expect != i) sim::fail("P08", "wrong-stage", "chain %d: stage %d (%s) runs, due is stage %d", c->id, i, kind_name(c->kinds[i]), c->expect);
    if (c->value != v) sim::fail("P08", "wrong-value", "chain %d: stage %d (%s) is given value %ld, the stage before resolved %ld", c->id, i, kind_name(c->kinds[i]), v, c->value);
    if (c->pending) sim::fail("P08", "runs-early", "chain %d: stage %d (%s) runs while the stage before is still waiting", c->id, i, kind_name(c->kinds[i]));
    c->expect = -2;
  }
  inline void enter_catch(chain_t* c, int i, int ek, long e)
  {
    sim::step(); c->steps++;
    log("chain %d: catch %d (%s) is given error %d:%ld", c->id, i, kind_name(c->kinds[i]), ek, e);
    if (c->ended) sim::fail("P09,P10", "catch-after-end", "chain %d: catch %d runs although the chain has ended", c->id, i);
    if (c->expect_catch != i) sim::fail("P09", "wrong-catch", "chain %d: catch %d (%s) handles error kind %d, due is %d", c->id, i, kind_name(c->kinds[i]), ek, c->expect_catch);
    if (c->err != e || c->err_kind != ek) sim::fail("P09", "wrong-error", "chain %d: catch %d is given error %d:%ld, rejected was %d:%ld", c->id, i, ek, e, c->err_kind, c->err);
    c->expect_catch = -1; c->ended = true;
  }

  inline void later(chain_t* c, std::function<void()> fn)
  { c->pending++; W->pending.push_back({c, std::move(fn), 0}); }

  // what a stage decides to do with its resolver
  template <typename R>
  void act(R& r, chain_t* c, int i, bool may_async)
  {
    c->steps++;
    bool async = may_async && !c->sync_only && flip(1, 2);
    if (c->loop && W->depth > 25) async = !c->sync_only;
    uint32_t what = sim::weighted({24, 2, 1, 1, 1, 1});      // resolve / reject a / reject a2 / reject b / reject exc / terminate
    if (c->loop && what == 0 && c->budget-- <= 0) what = 5;
    long v = 0;
    bool with_value = flip(3, 4);
    if (what == 0 && with_value) v = W->next_value++;
    if (what >= 1 && what <= 4) { v = W->next_value++; fault("rejection"); }
    if (what == 5) fault("termination");
    auto go = [&r, c, i, what, v, id = c->id] {
      struct d_t { d_t() { W->depth++; } ~d_t() { W->depth--; } } d;
      switch (what)
      {
        case 0: c->resolved(i, v); if (v) { if (v & 1) r.resolve(tok(v)); else {
          tok t(v); r.resolve(t);
          if (t.get() != v) sim::fail("P08", "value-taken", "chain %d: what stage %d resolved with was not its to give away, and yet a later stage has taken it", id, i); } } else r.resolve(); break;
        case 1: c->rejected(i, 1, v); r.reject(err_a{v}); break;
        case 2: c->rejected(i, 2, v); { err_a2 e; e.id = v; r.reject(e); } break;
        case 3: c->rejected(i, 3, v); r.reject(err_b{v}); break;
        case 4: c->rejected(i, 4, v); r.reject(my_exception(v)); break;
        case 5: c->terminated(); r.terminate(); break;
      }
    };
    if (async) { fault("delayed-completion"); log("chain %d: stage %d waits", c->id, i); later(c, [c, go] { c->pending--; go(); }); }
    else go();
  }

  // object built by hold_lazy; resolves with itself, later
  template <typename R>
  struct lazy_obj
  {
    live_t l; long id; 
    lazy_obj(R& r, live_t const& lv, int i, long v) : l(lv), id(v)
    {
      auto c = l.c;
      later(c, [this, &r, c, i] { c->pending--; l.check(); c->resolved(i, id); r.resolve(*this); });
    }
    lazy_obj(lazy_obj const&) = delete;
    long value() const { l.check(); return id; }
  };
  struct held_t { live_t l; long id; long value() const { l.check(); return id; } };

  struct ref_fn
  {
    chain_t* c; int i;
    template <typename ...A> tok operator()(A&&... a) const
    { enter(c, i, arg(a...)); long v = W->next_value++; c->resolved(i, v); return tok(v); }
  };

  // functions that take what they are given for themselves
  struct taking_tap
  {
    live_t l; int i;
    void seen(long v) const { l.check(); enter(l.c, i, v); l.c->resolved(i, v); }
    void operator()() const { seen(0); }
    void operator()(tok mine) const { seen(mine.get()); }
    template <typename R> void operator()(lazy_obj<R>& o) const { seen(o.value()); }
    template <typename R> void operator()(lazy_obj<R> const& o) const { seen(o.value()); }
  };
  struct taking_fn
  {
    live_t l; int i;
    tok next(long v) const { l.check(); enter(l.c, i, v); v = W->next_value++; l.c->resolved(i, v); return tok(v); }
    tok operator()() const { return next(0); }
    tok operator()(tok mine) const { return next(mine.get()); }
    template <typename R> tok operator()(lazy_obj<R>& o) const { return next(o.value()); }
    template <typename R> tok operator()(lazy_obj<R> const& o) const { return next(o.value()); }
  };

  // an exception of a try; what is no std::exception arrives as one that says nothing
  [[noreturn]] static void throws(chain_t* c, int i, long v)
  {
    fault("exception");
    if (flip(1, 4)) { probe("prom:exception-of-no-kind"); c->rejected(i, 4, -2); throw v; }
    c->rejected(i, 4, v); throw my_exception(v);
  }

  template <int K>
  auto make_stage(chain_t* c, int i, std::deque<ref_fn>& refs)
  {
    live_t l(c);
    if constexpr (K == PROM)
      return nbdl::promise([l, i](auto& r, auto&&... a) { l.check(); enter(l.c, i, arg(a...)); act(r, l.c, i, true); });
    else if constexpr (K == FN)
      return [l, i](auto&&... a) { l.check(); enter(l.c, i, arg(a...)); long v = W->next_value++; l.c->resolved(i, v); return tok(v); };
    else if constexpr (K == VOIDFN)
      return [l, i](auto&&... a) { l.check(); enter(l.c, i, arg(a...)); l.c->resolved(i, 0); };
    else if constexpr (K == TAP)
      return nbdl::tap([l, i](auto&&... a) { l.check(); long v = arg(a...); enter(l.c, i, v); l.c->resolved(i, v); });
    else if constexpr (K == TAP_TAKE)
      return nbdl::tap(taking_tap{l, i});
    else if constexpr (K == FN_TAKE)
      return taking_fn{l, i};
    else if constexpr (K == TRY)
      return nbdl::try_([l, i](auto&&... a) -> tok {
        l.check(); enter(l.c, i, arg(a...)); long v = W->next_value++;
        if (flip(1, 6)) throws(l.c, i, v);
        l.c->resolved(i, v); return tok(v); });
    else if constexpr (K == TRY_VOID)
      return nbdl::try_([l, i](auto&&... a) {
        l.check(); enter(l.c, i, arg(a...));
        if (flip(1, 6)) throws(l.c, i, W->next_value++);
        l.c->resolved(i, 0); });
    else if constexpr (K == CATCH_A)
      return nbdl::catch_([l, i](err_a const& e) { l.check(); enter_catch(l.c, i, l.c->err_kind == 2 ? 2 : 1, e.id); });
    else if constexpr (K == CATCH_B)
      return nbdl::catch_([l, i](err_b const& e) { l.check(); enter_catch(l.c, i, 3, e.id); });
    else if constexpr (K == CATCH_EXC)
      return nbdl::catch_([l, i](std::exception const& e) { l.check(); auto m = dynamic_cast<my_exception const*>(&e); enter_catch(l.c, i, 4, m ? m->id : -2); });
    else if constexpr (K == CATCH_ALL)
      return nbdl::catch_([l, i](auto&& e) {
        l.check(); using E = std::decay_t<decltype(e)>;
        if constexpr (std::is_same_v<E, err_a>) enter_catch(l.c, i, 1, e.id);
        else if constexpr (std::is_same_v<E, err_a2>) enter_catch(l.c, i, 2, e.id);
        else if constexpr (std::is_same_v<E, err_b>) enter_catch(l.c, i, 3, e.id);
        else { auto m = dynamic_cast<my_exception const*>(static_cast<std::exception const*>(&e)); enter_catch(l.c, i, 4, m ? m->id : -2); } });
    else if constexpr (K == HOLD)
    { // cannot report its own entry: the value is checked at the stage behind it
      return nbdl::hold(held_t{l, 0}); }
    else if constexpr (K == LAZY)
      return nbdl::hold_lazy([l, i](auto& r, auto&&... a) {
        l.check(); enter(l.c, i, arg(a...)); fault("delayed-completion");
        return lazy_obj<std::remove_reference_t<decltype(r)>>(r, l, i, W->next_value++); });
    else if constexpr (K == NESTED)
      // a stage that runs a sequence of its own and resolves from its tail
      return nbdl::promise([l, i](auto& r, auto&&... a) {
        l.check(); enter(l.c, i, arg(a...)); auto c = l.c; inner_live_t il;
        bool async = !c->sync_only && flip(1, 2); bool bad = flip(1, 6); if (bad) fault("rejection");
        probe("prom:nested-sequence");
        nbdl::run_async(hana::make_tuple(
          nbdl::promise([async, c, il](auto& r2) { if (async) { fault("delayed-completion"); later(c, [c, &r2] { c->pending--; r2.resolve(); }); } else r2.resolve(); })
        , nbdl::promise([bad, il](auto& r2) { if (bad) r2.reject(err_b{7}); else r2.resolve(tok(5)); })
        , nbdl::promise([&r, c, i, il](auto& r2, tok&& t) {
            t.get(); long v = W->next_value++; auto& outer = r; auto c_ = c; auto i_ = i;
            r2.resolve(); c_->resolved(i_, v); outer.resolve(tok(v)); })
        , nbdl::catch_([&r, c, i, il](err_b) { long v = W->next_value++; c->rejected(i, 3, v); r.reject(err_b{v}); })));
      });
    else if constexpr (K == REF)
    { refs.push_back({c, i}); return std::ref(refs.back()); }
  }

  // ------------------------------------------------------------ shapes
  constexpr uint32_t mixbits(uint32_t x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16; return x; }
  template <int Seed, int I, bool Loop, bool Sync>
  constexpr int kind_at()
  {
    constexpr int table[] = {PROM, PROM, PROM, PROM, FN, FN, VOIDFN, TAP, TAP, TAP_TAKE, TAP_TAKE, FN_TAKE, TRY, TRY, TRY_VOID, CATCH_A, CATCH_B, CATCH_EXC, LAZY, NESTED, REF, PROM};
    int k = table[mixbits(Seed * 977 + I * 31 + 7) % (sizeof table / sizeof *table)];
    if (Sync && k == LAZY) k = PROM;
    if (Loop && I == 0) k = PROM;
    if (I == 0 && (k == CATCH_A || k == CATCH_B || k == CATCH_EXC)) k = PROM;
    return k;
  }

  enum how_t { ASYNC, LOOP, SYNC };
  template <int Seed, how_t How, std::size_t ...I>
  void launch(chain_t* c, std::deque<ref_fn>& refs, std::index_sequence<I...>)
  {
    constexpr int n = sizeof...(I);
    (c->kinds.push_back(kind_at<Seed, I, How == LOOP, How == SYNC>()), ...);
    c->kinds.push_back(CATCH_ALL);
    c->loop = How == LOOP; c->sync_only = How == SYNC;
    c->budget = choose(12);
    std::string shape; for (auto k : c->kinds) { shape += kind_name(k); shape += ' '; }
    log("chain %d: %s: %s", c->id, How == LOOP ? "loop" : How == SYNC ? "sync" : "async", shape.c_str());
    auto stages = hana::make_tuple(make_stage<kind_at<Seed, I, How == LOOP, How == SYNC>()>(c, I, refs)..., make_stage<CATCH_ALL>(c, n, refs));
    // half of the shapes group some stages in a sequence of their own
    auto start = [&](auto&& s) {
      c->started = true; c->expect = 0;
      bool with = !flip(1, 3); long v = with ? W->next_value++ : 0; c->value = v;
      if (sim::alloc_fail_in == 0 && How != SYNC && flip(1, 24))
      {
        fault("allocation-failure"); sim::alloc_fail_in = 1;
        try { if constexpr (How == LOOP) nbdl::run_async_loop(std::move(s), tok(v)); else nbdl::run_async(std::move(s), tok(v)); sim::fail("P10", "allocation-failure-lost", "chain %d started although its allocation failed", c->id); }
        catch (std::bad_alloc const&) { c->terminated(); }
        sim::alloc_fail_in = 0;
        return;
      }
      if constexpr (How == LOOP) { if (v) nbdl::run_async_loop(std::move(s), tok(v)); else nbdl::run_async_loop(std::move(s)); }
      else if constexpr (How == SYNC) { if (v) nbdl::run_sync(std::move(s), tok(v)); else nbdl::run_sync(std::move(s)); }
      else { if (v) nbdl::run_async(std::move(s), tok(v)); else nbdl::run_async(std::move(s)); }
    };
    if constexpr (Seed % 3 == 1 && n >= 3)
    {
      probe("prom:grouped-stages");
      auto head = hana::take_front(stages, hana::size_c<n / 2>); auto tail = hana::drop_front(stages, hana::size_c<n / 2>);
      { auto all = std::move(stages); (void) all; }
      if constexpr (Seed % 2) start(hana::make_tuple(std::move(head), std::move(tail)));
      else start(hana::prepend(std::move(tail), std::move(head)));
    }
    else start(std::move(stages));
  }
  // chains with hold: the held value reaches the stage behind it, and is the same one every time round
  template <how_t How>
  void launch_hold(chain_t* c, std::deque<ref_fn>&)
  {
    c->kinds = {PROM, PROM, CATCH_ALL}; c->loop = How == LOOP; c->sync_only = How == SYNC; c->budget = choose(12); c->started = true;
    log("chain %d: hold", c->id);
    live_t l(c); auto count = std::make_shared<long>(0);
    auto s = hana::make_tuple(
      nbdl::promise([l, count](auto& r, auto&&... a) { enter(l.c, 0, arg(a...)); if (*count == 0) *count = 1; l.c->value = -7;
        // what hold passes on is the held object; its id counts the rounds
        auto c = l.c; bool async = !c->sync_only && flip(1, 2); if (W->depth > 25) async = !c->sync_only;
        auto go = [&r, c] { W->depth++; c->expect = 1; r.resolve(tok(3)); W->depth--; };
        if (async) later(c, [c, go] { c->pending--; go(); }); else go(); })
    , nbdl::hold(held_t{l, 1})
    , nbdl::promise([l, count](auto& r, held_t& h) {
        h.l.check(); if (h.id != *count) sim::fail("P08", "held-value", "chain %d: the held value is %ld, left was %ld", l.c->id, h.id, *count);
        ++h.id; ++*count; enter(l.c, 1, -7); act(r, l.c, 1, true); })
    , nbdl::catch_([l](auto&& e) { if constexpr (requires { e.id; }) enter_catch(l.c, 2, l.c->err_kind, e.id); }));
    c->expect = 0; c->value = 0;
    if constexpr (How == LOOP) nbdl::run_async_loop(std::move(s));
    else if constexpr (How == SYNC) nbdl::run_sync(std::move(s));
    else nbdl::run_async(std::move(s));
  }

  using launcher = void (*)(chain_t*, std::deque<ref_fn>&);
#ifndef PART
  std::vector<launcher> part_0(); std::vector<launcher> part_1(); std::vector<launcher> part_2(); std::vector<launcher> part_3();
  std::vector<launcher> part_4(); std::vector<launcher> part_5(); std::vector<launcher> part_6(); std::vector<launcher> part_7();
  inline std::vector<launcher>& launchers()
  {
    static std::vector<launcher> all = [] {
      std::vector<launcher> v;
      for (auto f : {part_0, part_1, part_2, part_3, part_4, part_5, part_6, part_7}) for (auto l : f()) v.push_back(l);
      return v; }();
    return all;
  }
  inline void chains()
  {
    sim::leaks_for("P10"); launchers();
    world_t w; W = &w;
    std::deque<ref_fn> refs;
    uint32_t n = 1 + choose(6), left = n;
    auto check = [&] {
      for (auto& c : w.chains)
      {
        if (c->ended)
        {
          if (c->pending) sim::fail("P10", "pending-after-end", "chain %d has ended and something of it is still pending", c->id);
          if (c->live) sim::fail("P10", "not-released", "chain %d has ended and %d of its stages or values are still alive", c->id, c->live);
        }
        else
        {
          if (c->expect_catch >= 0) sim::fail("P09", "rejection-lost", "chain %d: rejection %d:%ld never reached catch %d", c->id, c->err_kind, c->err, c->expect_catch);
          if (!c->pending) sim::fail("P08", "continuation-lost", "chain %d: stage %d is due with value %ld and never runs", c->id, c->expect, c->value);
          if (!c->live) sim::fail("P10", "released-early", "chain %d is still waiting and was released", c->id);
        }
      }
      bool any = false; for (auto& c : w.chains) if (!c->ended) any = true;
      if (!any && w.inner_live) sim::fail("P10", "not-released", "a nested sequence has ended and %d of its stages are still alive", w.inner_live);
    };
    while (left || !w.pending.empty())
    {
      sim::step(); sim::advance(10);
      if (left && (w.pending.empty() || flip(1, 3)))
      {
        left--;
        w.chains.push_back(std::make_unique<chain_t>());
        auto c = w.chains.back().get(); c->id = n - left;
        auto& all = launchers(); all[choose(all.size())](c, refs);
      }
      else
      {
        size_t i = choose(w.pending.size());
        if (i) fault("reordered-completion");
        auto op = std::move(w.pending[i]); w.pending.erase(w.pending.begin() + i);
        op.fn();
      }
      check();
    }
    long steps = 0; for (auto& c : w.chains) { steps += c->steps; if (!c->ended) sim::fail("P08", "no-end", "chain %d never ends", c->id); }
    if (steps >= 4) sim::nontrivial();
    W = nullptr;
  }
#else
  template <int Seed, int N, how_t H> void go(chain_t* c, std::deque<ref_fn>& r) { launch<Seed, H>(c, r, std::make_index_sequence<N>{}); }
  // every PART'th of the shapes, in an order that does not depend on linking
  template <std::size_t ...S>
  std::vector<launcher> table(std::index_sequence<S...>)
  {
    return { go<S * PARTS + PART + 100, 1 + (S * PARTS + PART) % 7, ASYNC>..., go<S * PARTS + PART + 300, 1 + (S * PARTS + PART) % 5, LOOP>...
           , go<S * PARTS + PART + 500, 1 + (S * PARTS + PART) % 5, SYNC>... };
  }
#define PASTE2(a, b) a##b
#define PASTE(a, b) PASTE2(a, b)
  std::vector<launcher> PASTE(part_, PART)()
  {
    auto v = table(std::make_index_sequence<N_SHAPES / PARTS>{});
#if PART == 0
    v.insert(v.end(), {launch_hold<ASYNC>, launch_hold<LOOP>, launch_hold<SYNC>});
#endif
    return v;
  }
#endif
}
#ifndef PART
static sim::add_scenario s1("chains", pr::chains);
#endif
