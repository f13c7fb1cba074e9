// The browser side: pages that show the state and hear the user.
#define CONSOLE_LOG(x)
#include "web_page.hpp"
#include <nbdl/webui/detail/event_receiver.hpp>
#include <nbdl/js.hpp>

namespace web
{
  using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::probe; using sim::fault;

  static void start_page()
  {
    static bool once = [] {
      em::export_function("__nbdl_webui_detail_event_callback", [](double const* a, size_t) {
        nbdl::webui::detail::_nbdl_webui_detail_event_callback(reinterpret_cast<void*>(static_cast<std::uintptr_t>(a[0]))); return 0.0; });
      return true; }();
    (void) once;
    em::call("reset");
    nbdl::js::init();
  }

  static std::string a_text()
  {
    switch (choose(8))
    {
      case 0: return ""; case 1: case 2: return "x"; case 3: return "plain"; case 4: return "<i>&\"'"; case 5: return "h\xc3\xa4\xe2\x82\xac"; case 6: return "a b";
      default: return sim::pattern(choose(9), 3).substr(0, 0) + "t" + std::to_string(choose(50));
    }
  }
  static int a_number() { return choose(3) ? int(choose(9)) - 3 : flip(1, 2) ? INT32_MAX : INT32_MIN; }
  static std::optional<std::string> an_optional() { if (flip(1, 2)) return {}; return a_text(); }

  static void change(model& m)
  {
    int n = 1 + choose(4);
    while (n--) switch (choose(16))
    {
      case 0: case 1: m.s[0] = a_text(); break;
      case 2: m.s[1] = a_text(); break;
      case 3: m.s[2] = a_text(); break;
      case 4: m.n[choose(2)] = a_number(); break;
      case 5: case 6: { int i = choose(3); m.b[i] = !m.b[i]; break; }
      case 7: m.o[0] = an_optional(); break;
      case 8: m.o[1] = an_optional(); break;
      case 9: case 10:
      {
        auto& v = m.v[choose(2)];
        switch (choose(4)) { case 0: v = std::monostate{}; break; case 1: v = a_text(); break; case 2: v = a_number(); break; default: v = flip(1, 2); }
        break;
      }
      case 11: m.w[a_text()] = a_text(); break;
      case 12: if (!m.w.empty()) m.w.erase(std::next(m.w.begin(), choose(m.w.size()))); break;
      default:
      {
        auto& l = m.l[choose(2)];
        switch (choose(4))
        {
          case 0: l.clear(); break;
          case 1: if (!l.empty()) { l.erase(l.begin() + choose(l.size())); break; } [[fallthrough]];
          case 2: if (l.size() < 3) { l.insert(l.begin() + choose(l.size() + 1), row_m{a_text(), flip(1, 2), an_optional(), a_number()}); break; } [[fallthrough]];
          default: if (!l.empty()) { auto& r = l[choose(l.size())]; r = row_m{a_text(), flip(1, 2), an_optional(), a_number()}; }
        }
      }
    }
  }

  struct shown { std::unique_ptr<page_if> page; char const* name; int mount; bool frozen = false; std::string html; };
  struct browser
  {
    std::unique_ptr<store_if> store;
    std::vector<shown> pages;
    uint32_t depth = 0;
    uint64_t seq = 0;

    std::string seen(shown& p) { return em::text("mounted", {double(p.mount)}); }
    void look(char const* when)
    {
      for (auto& p : pages)
      {
        std::string s = seen(p);
        if (p.frozen)
        { if (s != p.html) sim::fail("P21", "changed-after-destroy", "%s: %s changed after it was taken down\nis  %s\nwas %s", when, p.name, s.c_str(), p.html.c_str()); continue; }
        auto e = p.page->expect(store->m);
        if (s != e.html) sim::fail("P21", "page", "%s: %s does not show the state\nis     %s\nshould %s", when, p.name, s.c_str(), e.html.c_str());
      }
    }
    void notify()
    {
      // consumers are told one after another
      for (auto& p : pages) { p.page->update(); if (flip(1, 8)) { probe("web:spurious-notify"); fault("spurious notification"); p.page->update(); } }
    }
    void change_it()
    {
      model m = store->m; change(m); store->put(m);
      std::string t;
      for (auto& x : m.s) t += " " + x;
      for (auto& [k, v] : m.w) t += " [" + k + "]=" + v;
      log("now%s b%d%d%d o%d%d v%zu%zu l%zu,%zu", t.c_str(), m.b[0], m.b[1], m.b[2], !!m.o[0], !!m.o[1], m.v[0].index(), m.v[1].index(), m.l[0].size(), m.l[1].size());
    }
    void put_up()
    {
      auto& s = shapes()[choose(shapes().size())];
      shown p; p.name = s.name; p.mount = static_cast<int>(em::call("mount"));
      log("put up %s", s.name);
      p.page = s.make(*store);
      p.page->render();
      pages.push_back(std::move(p));
    }
    void take_down(size_t i)
    {
      auto& p = pages[i];
      if (!p.frozen && flip(1, 2))
      {
        log("%s is destroyed", p.name);
        p.html = seen(p); p.page->destroy(); p.frozen = true;
        em::call("unmount", {double(p.mount)});
        return;
      }
      log("%s is gone", p.name);
      if (!p.frozen) em::call("unmount", {double(p.mount)});
      pages.erase(pages.begin() + i);
    }

    // --- the user
    std::vector<std::vector<handler>> clickable()
    {
      std::vector<std::vector<handler>> r;
      for (auto& p : pages) if (!p.frozen) for (auto& c : p.page->expect(store->m).clickable) r.push_back(c);
      return r;
    }
    bool compare()
    {
      int n = static_cast<int>(em::call_s("find_listeners", {}, "click"));
      auto c = clickable();
      if (n != int(c.size())) { sim::fail("P22", "listening-elements", "%d elements of the page listen for clicks, not %zu", n, c.size()); return false; }
      return n > 0;
    }
    void click()
    {
      if (!compare()) return;
      auto c = clickable();
      int i = choose(c.size());
      bool bubbles = flip(2, 3);
      std::vector<handler> expected = c[i];
      if (bubbles) for (int k = em::call("up", {double(i)}); k >= 0; k = em::call("up", {double(k)})) { probe("web:bubbled"); expected.insert(expected.end(), c[k].begin(), c[k].end()); }
      // opening the file dialog is another click, on the input, that bubbles by itself
      for (int k = i; k >= 0; k = em::call("up", {double(k)})) for (auto& h : c[k]) if (h.file) return;
      std::erase_if(expected, [](auto& h) { return !h.called; });
      double q = ++seq;
      for (auto& h : expected) for (auto& a : h.args) if (a == "e:") a += std::to_string(int(q));
      size_t got = 0; int sends = 0; bool inside = true;
      if (!expected.empty() && flip(1, 2)) sends = 1 + choose(3);
      log("click %d%s: %zu handlers, %d actions", i, bubbles ? " bubbling" : "", expected.size(), sends);
      on_click_hook = [&](click_t const& k, std::function<void(int)> send) {
        std::string a; for (auto& x : k.args) a += " " + x;
        log("handler %016llx%s", (unsigned long long) k.id, a.c_str());
        if (!inside) sim::fail("P22", "late", "a handler is called outside an event");
        if (got >= expected.size()) { sim::fail("P22", "called-too-often", "a handler is called that the event does not reach (%zu were expected), with%s", expected.size(), a.c_str()); return; }
        auto& e = expected[got++];
        std::string w; for (auto& x : e.args) w += " " + x;
        if (k.id != e.id) sim::fail("P22", "wrong-handler", "the event reaches another handler first");
        else if (k.args != e.args) sim::fail("P22", "arguments", "a handler gets%s, not%s", a.c_str(), w.c_str());
        // the last one acts: the page changes while the event is still under way
        if (got == expected.size()) for (int n = 0; n < sends; n++) { int what = choose(100); acts.push_back(what); send(what); }
      };
      acts.clear(); acted = 0;
      store->acted = [&](int what) {
        if (acted >= acts.size() || acts[acted] != what) sim::fail("P22", "action", "the store is given action %d, not what the handler sent", what);
        acted++; probe("web:acted-in-handler"); fault("change inside a handler");
        change_it(); notify(); look("after an action");
      };
      em::call_s("fire", {double(i), bubbles ? 1.0 : 0.0, q}, "click");
      inside = false;
      if (got != expected.size()) sim::fail("P22", "not-called", "%zu of %zu handlers were called", got, expected.size());
      if (acted != acts.size()) sim::fail("P22", "action", "%zu of %zu actions arrived", acted, acts.size());
      on_click_hook = nullptr; store->acted = nullptr;
    }
    // the user chooses a file
    void choose_file()
    {
      std::vector<handler> all;
      for (auto& p : pages) if (!p.frozen) for (auto& f : p.page->expect(store->m).files) all.push_back(f);
      int n = static_cast<int>(em::call_s("find_listeners", {}, "change"));
      if (n != int(all.size())) { sim::fail("P22", "listening-elements", "%d elements of the page listen for files, not %zu", n, all.size()); return; }
      if (!n) return;
      int i = choose(n); auto e = all[i];
      probe("web:file-chosen");
      double q = ++seq;
      for (auto& a : e.args) if (a == "e:") a += std::to_string(int(q));
      int got = 0;
      on_click_hook = [&](click_t const& k, std::function<void(int)>) {
        got++;
        log("file handler %016llx", (unsigned long long) k.id);
        if (k.id != e.id || k.args != e.args) sim::fail("P22", "arguments", "a chosen file reaches the wrong handler or with the wrong values");
      };
      em::call_s("fire", {double(i), 1.0, q}, "change");
      if (got != e.called) sim::fail("P22", got ? "called-too-often" : "not-called", "the handler of a chosen file was called %d times, not %d", got, int(e.called));
      on_click_hook = nullptr;
    }
    std::vector<int> acts; size_t acted = 0;
  };

  static void page_scenario()
  {
    sim::leaks_for("P22");
    start_page();
    int h0 = em::handles();
    {
      browser b; b.store = make_store();
      b.change_it(); b.change_it();
      b.put_up();
      b.look("at first");
      int ops = range(4, 30);
      while (ops--)
      {
        sim::step(); sim::advance(1000 + choose(50000));
        switch (sim::weighted({6, 5, 2, 2, 1}))
        {
          case 0: b.change_it(); b.notify(); b.look("after a change"); break;
          case 1: if (flip(1, 5)) b.choose_file(); else b.click(); b.look("after a click"); break;
          case 2: { int n = 1 + choose(3); while (n--) b.change_it(); probe("web:several-changes-at-once"); fault("coalesced notifications"); b.notify(); b.look("after several changes"); break; }
          case 3: if (b.pages.size() < 3) { b.put_up(); b.look("after putting up"); } break;
          case 4: if (!b.pages.empty()) { b.take_down(choose(b.pages.size())); b.notify(); b.look("after taking down"); b.compare(); } break;
        }
      }
      sim::nontrivial();
      while (!b.pages.empty()) b.take_down(b.pages.size() - 1);
      log("end");
    }
    if (int n = em::call("listeners")) sim::fail("P22", "listeners-left", "%d listeners are left when every page is gone", n);
    if (int n = em::call("registry")) sim::fail("P22", "values-left", "%d JavaScript values are kept when every page is gone", n);
    if (int n = em::handles() - h0) sim::fail("P22", "handles-left", "%d handles of JavaScript values are kept when every page is gone", n);
  }
  static sim::add_scenario reg("page", page_scenario);
}
