// Processes that start, crash and start again, each making identifiers from a
// generator that seeds itself from simulated entropy.
#include "core.hpp"
#include <boost/hana.hpp>
#include <nbdl/uid.hpp>
#include <list>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>

namespace uids
{
  using sim::log; using sim::choose; using sim::flip; using sim::fault; using sim::probe; using sim::range;
  struct source_t
  {
    std::vector<uint32_t> words; size_t next = 0;
    uint32_t operator()() { if (next < words.size()) return words[next++]; next++; return choose(0xffffffffu); }
  };
  source_t* entropy = nullptr;
}
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*)
{ return uids::entropy ? (*uids::entropy)() : 4; }

namespace uids
{
  using bytes = std::array<uint8_t, 16>;
  bytes to_bytes(nbdl::uid const& u) { bytes b; memcpy(b.data(), u.data(), 16); return b; }
  using gen_t = decltype(nbdl::make_uid_generator());

  void scenario()
  {
    struct origin { int process; int n; };
    std::map<bytes, origin> all;
    std::unordered_set<nbdl::uid> hashed;
    std::list<std::pair<int, gen_t>> live;
    std::vector<std::vector<uint32_t>> seeds;
    int processes = 0;
    std::map<int, int> made;
    auto start = [&] {
      source_t s;
      for (int i = 0; i < 4; i++) s.words.push_back(choose(0xffffffffu));
      if (!seeds.empty() && flip(1, 3))
      { // much of the entropy is what another process got, but not all
        auto other = seeds[choose(seeds.size())];
        int keep = choose(4);
        for (int i = 0; i < 4; i++) if (i != keep) s.words[i] = other[i];
        if (s.words == other) s.words[keep]++;
        fault("similar-entropy");
      }
      for (auto& o : seeds) if (o == s.words) return;
      seeds.push_back(s.words);
      entropy = &s;
      live.emplace_back(processes, nbdl::make_uid_generator());
      entropy = nullptr;
      log("process %d starts with %08x %08x %08x %08x, %zu words read", processes, s.words[0], s.words[1], s.words[2], s.words[3], s.next);
      processes++;
    };
    start();
    int ops = range(5, 80);
    while (ops--)
    {
      sim::step();
      switch (sim::weighted({2, 8, 1, 1}))
      {
        case 0: start(); break;
        case 1: if (!live.empty())
        {
          auto& [p, g] = *std::next(live.begin(), choose(live.size()));
          int n = flip(1, 10) ? 400 : range(1, 12);
          while (n--)
          {
            nbdl::uid u = g(); int k = made[p]++;
            auto [it, fresh] = all.insert({to_bytes(u), {p, k}});
            if (!fresh) { sim::fail("P19", "repeated", "identifier %d of process %d is identifier %d of process %d", k, p, it->second.n, it->second.process); return; }
            nbdl::uid same = u;
            if (!(same == u) || same != u || std::hash<nbdl::uid>{}(same) != std::hash<nbdl::uid>{}(u)) sim::fail("P19", "not-itself", "a copy of an identifier differs from it");
            if (flip(1, 8))
            { // one or two bytes changed, as in transit: another identifier
              nbdl::uid other = u; int a = choose(16), b = choose(16); uint8_t m = 1 << choose(8);
              other[a] ^= m; if (b != a && flip(1, 2)) other[b] ^= flip(1, 2) ? m : uint8_t(range(1, 255));
              fault("byte-altered");
              if (other == u || !(other != u) || u == other || !(u != other)) sim::fail("P19", "altered-equal", "identifiers that differ in byte %d compare equal", a);
              using key = nbdl::unique_key<source_t>;
              if (key(u) == key(other) || !(key(u) == key(same))) sim::fail("P19", "altered-equal", "keys of identifiers that differ in byte %d compare equal, or copies do not", a);
              bytes was = to_bytes(other); nbdl::uid x = u; swap(x, other);
              if (to_bytes(x) != was || to_bytes(other) != to_bytes(u)) sim::fail("P19", "swap", "swapping identifiers loses bytes");
            }
            if (!hashed.insert(u).second) sim::fail("P19", "equal", "identifiers of different bytes compare equal");
          }
        } break;
        case 2: if (!live.empty()) { fault("process-crash"); auto i = std::next(live.begin(), choose(live.size())); log("process %d ends", i->first); live.erase(i); } break;
        case 3: if (!live.empty()) { gen_t g = std::move(live.front().second); int p = live.front().first; live.pop_front(); live.emplace_back(p, std::move(g)); } break;
      }
    }
    if (all.size() > 20) sim::nontrivial();
    log("%zu identifiers of %d processes", all.size(), processes);
  }
  static sim::add_scenario reg("uid", scenario);
}
