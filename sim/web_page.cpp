// Random page specifications: PART of PARTS.
#define CONSOLE_LOG(x)
#include "web_page.hpp"
#include <nbdl/message.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/js.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>
#include <boost/hana.hpp>
#include <unordered_map>

namespace hana = boost::hana;
namespace html = nbdl::webui::html;
namespace spec = nbdl::ui_spec;
using namespace hana::literals;

namespace web
{
  struct app_tag { };
  template <char C, int I> using key = hana::string<C, char('0' + I)>;
  using t_key = hana::string<'t'>; using f_key = hana::string<'f'>; using o_key = hana::string<'o'>; using n_key = hana::string<'n'>;
  using v_t = nbdl::variant<std::string, int, bool>;
  using o_t = nbdl::optional<std::string>;
  inline auto make_row(row_m const& r)
  {
    return hana::make_map(hana::make_pair(t_key{}, r.t), hana::make_pair(f_key{}, r.f)
                        , hana::make_pair(o_key{}, r.o ? o_t(*r.o) : o_t{}), hana::make_pair(n_key{}, r.n));
  }
  using row_t = decltype(make_row(row_m{}));
  inline v_t make_v(std::variant<std::monostate, std::string, int, bool> const& v)
  {
    if (v.index() == 1) return v_t(std::get<1>(v));
    if (v.index() == 2) return v_t(std::get<2>(v));
    if (v.index() == 3) return v_t(std::get<3>(v));
    return v_t{};
  }
  inline auto make_l(std::vector<row_m> const& l) { std::vector<row_t> r; for (auto& x : l) r.push_back(make_row(x)); return r; }
  inline auto make_state(model const& m)
  {
    return hana::make_map(
      hana::make_pair(key<'s', 0>{}, m.s[0]), hana::make_pair(key<'s', 1>{}, m.s[1]), hana::make_pair(key<'s', 2>{}, m.s[2])
    , hana::make_pair(key<'n', 0>{}, m.n[0]), hana::make_pair(key<'n', 1>{}, m.n[1])
    , hana::make_pair(key<'b', 0>{}, m.b[0]), hana::make_pair(key<'b', 1>{}, m.b[1]), hana::make_pair(key<'b', 2>{}, m.b[2])
    , hana::make_pair(key<'o', 0>{}, m.o[0] ? o_t(*m.o[0]) : o_t{}), hana::make_pair(key<'o', 1>{}, m.o[1] ? o_t(*m.o[1]) : o_t{})
    , hana::make_pair(key<'v', 0>{}, make_v(m.v[0])), hana::make_pair(key<'v', 1>{}, make_v(m.v[1]))
    , hana::make_pair(key<'l', 0>{}, make_l(m.l[0])), hana::make_pair(key<'l', 1>{}, make_l(m.l[1]))
    , hana::make_pair(key<'w', 0>{}, std::unordered_map<std::string, std::string>(m.w.begin(), m.w.end())));
  }
  using state_t = decltype(make_state(model{}));

  struct store : store_if
  {
    using hana_tag = app_tag;
    state_t state = make_state(model{});
    store() = default; store(store const&) = delete;
    void put(model const& x) override { m = x; state = make_state(x); }
  };
  struct act { int what; };
}
namespace nbdl
{
  template <> struct get_impl<web::app_tag>
  {
    template <typename Store, typename Key>
    static constexpr decltype(auto) apply(Store&& s, Key&& k) { return nbdl::get(static_cast<Store&&>(s).state, static_cast<Key&&>(k)); }
  };
  template <> struct apply_action_impl<web::app_tag>
  {
    template <typename Store, typename Action>
    static auto apply(Store& s, Action&& a) { const_cast<web::store&>(static_cast<web::store const&>(s)).acted(a.what); return true; }
  };
}
namespace web
{
  // --- randomness at compile time
  constexpr uint64_t mixs(uint64_t s, uint64_t k)
  {
    uint64_t z = s + 0x9E3779B97F4A7C15ull * (k + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
  }

  // ctx: where the account of a row finds its row
  struct at { model const& m; row_m const* r = nullptr; bool live = true; page_m* out = nullptr; };

  template <int I> constexpr auto words()
  {
    if constexpr (I % 6 == 0) return "plain"_s;
    else if constexpr (I % 6 == 1) return " two words "_s;
    else if constexpr (I % 6 == 2) return "<b>&amp;"_s;
    else if constexpr (I % 6 == 3) return "x"_s;
    else if constexpr (I % 6 == 4) return "\"quoted\""_s;
    else return "yz-"_s;
  }
  template <int I> std::string words_s() { auto w = words<I>(); return std::string(w.c_str(), hana::size(w)); }
  template <int I> constexpr auto tag_name()
  {
    if constexpr (I % 5 == 0) return "div"_s; else if constexpr (I % 5 == 1) return "span"_s; else if constexpr (I % 5 == 2) return "ul"_s;
    else if constexpr (I % 5 == 3) return "li"_s; else return "a"_s;
  }

  // --- pieces of text: a constant, a string of the state, a number, or a choice
  template <int I> struct lit
  {
    static constexpr auto text(auto) { return words<I>(); }
    static std::string show(at const&) { return words_s<I>(); }
    static constexpr bool attr_ok = true;
  };
  template <int I> struct str
  {
    static constexpr auto text(auto) { return spec::get(key<'s', I>{}); }
    static std::string show(at const& c) { return c.m.s[I]; }
    static constexpr bool attr_ok = true;
  };
  template <int I> struct num
  {
    static constexpr auto text(auto) { return spec::get(key<'n', I>{}); }
    static std::string show(at const& c) { return std::to_string(c.m.n[I]); }
    static constexpr bool attr_ok = false;
  };
  struct row_str
  {
    static constexpr auto text(auto p) { return spec::get(p, t_key{}); }
    static std::string show(at const& c) { return c.r->t; }
    static constexpr bool attr_ok = true;
  };
  struct row_num
  {
    static constexpr auto text(auto p) { return spec::get(p, n_key{}); }
    static std::string show(at const& c) { return std::to_string(c.r->n); }
    static constexpr bool attr_ok = false;
  };
  // only in attributes: a branch of a concat
  template <int I, int J> struct opt_str
  {
    static constexpr auto text(auto)
    { return spec::match(spec::get(key<'o', I>{}), spec::when<std::string>([](auto p) { return spec::concat(words<J>(), p); }), spec::when<>(words<J + 1>())); }
    static std::string show(at const& c) { return c.m.o[I] ? words_s<J>() + *c.m.o[I] : words_s<J + 1>(); }
  };
  template <int I, int J> struct cond_str
  {
    static constexpr auto text(auto)
    { return spec::match_if(spec::get(key<'s', I>{}), spec::cond(spec::equal("x"_s), words<J>()), spec::cond(spec::equal("plain"_s), [](auto p) { return spec::concat(words<J + 1>(), p); }), spec::otherwise(words<J + 2>())); }
    static std::string show(at const& c) { return c.m.s[I] == "x" ? words_s<J>() : c.m.s[I] == "plain" ? words_s<J + 1>() + c.m.s[I] : words_s<J + 2>(); }
  };
  template <uint64_t S, bool R> constexpr auto pick_piece()
  {
    if constexpr (R && S % 5 < 2) { if constexpr (S % 5) return row_str{}; else return row_num{}; }
    else if constexpr (mixs(S, 1) % 3 == 0) return lit<int(S % 6)>{};
    else if constexpr (mixs(S, 1) % 3 == 1) return str<int(S % 3)>{};
    else return num<int(S % 2)>{};
  }
  template <uint64_t S, bool R> constexpr auto pick_attr_piece()
  {
    if constexpr (R && S % 3 == 0) return row_str{};
    else if constexpr (mixs(S, 1) % 4 == 0) return lit<int(S % 6)>{};
    else if constexpr (mixs(S, 1) % 4 == 1) return str<int(S % 3)>{};
    else if constexpr (mixs(S, 1) % 4 == 2) return opt_str<int(S % 2), int(S % 5)>{};
    else return cond_str<int(S % 3), int(S % 5)>{};
  }
  template <typename ...P> struct cat
  {
    static constexpr auto text(auto p) { return spec::concat(P::text(p)...); }
    static std::string show(at const& c) { return (P::show(c) + ... + std::string()); }
  };
  template <uint64_t S, bool R> constexpr auto pick_attr_text()
  {
    if constexpr (S % 4 == 0) return lit<int(S / 4 % 6)>{};
    else return cat<decltype(pick_attr_piece<mixs(S, 1), R>()), decltype(pick_attr_piece<mixs(S, 2), R>()), decltype(pick_attr_piece<mixs(S, 3), R>())>{};
  }

  // --- arguments of handlers
  inline std::string show_arg(std::string const& s) { return "s:" + s; }
  inline std::string show_arg(int i) { return "i:" + std::to_string(i); }
  inline std::string show_arg(bool b) { return b ? "b:1" : "b:0"; }
  template <char ...C> std::string show_arg(hana::string<C...> s) { return std::string("c:") + s.c_str(); }
  inline std::string show_arg(nbdl::detail::js_val const& v)
  { return "e:" + std::to_string(EM_ASM_INT({ return Module.NBDL_DETAIL_JS_GET($0).seq; }, v.handle())); }
  template <typename T> std::string show_arg(std::reference_wrapper<T> r) { return show_arg(r.get()); }

  template <int I> struct arg_s { static constexpr auto text(auto) { return spec::get(key<'s', I>{}); } static bool show(at const& c, std::string& o) { o = "s:" + c.m.s[I]; return true; } };
  template <int I> struct arg_n { static constexpr auto text(auto) { return spec::get(key<'n', I>{}); } static bool show(at const& c, std::string& o) { o = "i:" + std::to_string(c.m.n[I]); return true; } };
  template <int I> struct arg_b { static constexpr auto text(auto) { return spec::get(key<'b', I>{}); } static bool show(at const& c, std::string& o) { o = c.m.b[I] ? "b:1" : "b:0"; return true; } };
  struct arg_e { static constexpr auto text(auto) { return spec::get(html::event_data); } static bool show(at const&, std::string& o) { o = "e:"; return true; } };
  struct arg_row { static constexpr auto text(auto p) { return spec::get(p, t_key{}); } static bool show(at const& c, std::string& o) { o = "s:" + c.r->t; return true; } };
  // present only when the optional has a value
  template <int I> struct arg_when { static constexpr auto text(auto) { return spec::match_when<std::string>(spec::get(key<'o', I>{})); } static bool show(at const& c, std::string& o) { if (!c.m.o[I]) return false; o = "s:" + *c.m.o[I]; return true; } };
  inline constexpr auto both_of = [](std::string const& a, int b) { return a + "/" + std::to_string(b); };
  template <int I> struct arg_apply { static constexpr auto text(auto) { return spec::apply(both_of)(spec::get(key<'s', I>{}), spec::get(key<'n', I>{})); } static bool show(at const& c, std::string& o) { o = "s:" + c.m.s[I] + "/" + std::to_string(c.m.n[I]); return true; } };
  template <int I> struct arg_choice
  {
    static constexpr auto text(auto) { return spec::match_if(spec::get(key<'b', I>{}), spec::cond(hana::id, spec::get(key<'s', 0>{})), spec::otherwise(spec::get(key<'n', 1>{}))); }
    static bool show(at const& c, std::string& o) { o = c.m.b[I] ? "s:" + c.m.s[0] : "i:" + std::to_string(c.m.n[1]); return true; }
  };
  // present only when there is an entry under the text
  template <int I> struct arg_keyed
  {
    static constexpr auto text(auto) { return spec::match_when<std::string>(spec::get(key<'w', 0>{}, spec::key_at(spec::get(key<'s', I>{})))); }
    static bool show(at const& c, std::string& o) { auto i = c.m.w.find(c.m.s[I]); if (i == c.m.w.end()) return false; o = "s:" + i->second; return true; }
  };
  template <uint64_t S, bool R> constexpr auto pick_arg()
  {
    if constexpr (R && S % 3 == 0) return arg_row{};
    else if constexpr (mixs(S, 1) % 8 == 0) return arg_s<int(S % 3)>{};
    else if constexpr (mixs(S, 1) % 8 == 1) return arg_n<int(S % 2)>{};
    else if constexpr (mixs(S, 1) % 8 == 2) return arg_b<int(S % 3)>{};
    else if constexpr (mixs(S, 1) % 8 == 3) return arg_e{};
    else if constexpr (mixs(S, 1) % 8 == 4) return arg_apply<int(S % 2)>{};
    else if constexpr (mixs(S, 1) % 8 == 5) return arg_choice<int(S % 3)>{};
    else if constexpr (mixs(S, 1) % 8 == 6) return arg_keyed<int(S % 3)>{};
    else return arg_when<int(S % 2)>{};
  }

  template <uint64_t Id> struct clicked
  {
    void operator()(auto send, auto const& ...xs) const
    {
      click_t c{Id, {show_arg(xs)...}};
      on_click_hook(c, [&](int what) { send(act{what}); });
    }
  };

  // --- nodes
  template <uint64_t S, bool R, int N> struct click
  {
    template <int I> using arg = decltype(pick_arg<mixs(S, I), R>());
    static constexpr auto node(auto p)
    {
      if constexpr (N == 0) return html::on_click(clicked<S>{});
      else if constexpr (N == 1) return html::on_click(clicked<S>{}, arg<1>::text(p));
      else return html::on_click(clicked<S>{}, arg<1>::text(p), arg<2>::text(p));
    }
    static void put(at const& c, elem& e)
    {
      handler h{S, true, {}};
      std::string t;
      if (N > 0) { h.called &= arg<1>::show(c, t); h.args.push_back(t); }
      if (N > 1) { h.called &= arg<2>::show(c, t); h.args.push_back(t); }
      e.clicks.push_back(h);
    }
  };
  // a button for choosing a file: nothing else in the element hears clicks
  template <uint64_t S, bool R> struct file
  {
    using arg = decltype(pick_arg<mixs(S, 1), R>());
    static constexpr auto node(auto p)
    {
      if constexpr (S % 2) return html::hidden_file_input(clicked<S>{}, arg::text(p), spec::get(html::event_data));
      else return html::hidden_file_input(clicked<S>{}, spec::get(html::event_data));
    }
    static void put(at const& c, elem& e)
    {
      e.flush(); e.body += "<input type=\"file\"></input>";
      handler h{S, true, {}};
      std::string t;
      if (S % 2) { h.called &= arg::show(c, t); h.args.push_back(t); }
      h.args.push_back("e:");
      e.clicks.push_back({S, false, {}, true});
      if (c.out) c.out->files.push_back(h);
    }
  };
  template <int A, typename T> struct attr
  {
    using name = hana::string<'a', char('0' + A)>;
    static constexpr auto node(auto p) { return html::attribute(name{}, T::text(p)); }
    static void put(at const& c, elem& e) { e.attrs[name{}.c_str()] = T::show(c); }
  };
  template <int A, typename T> struct prop
  {
    using name = hana::string<'p', char('0' + A)>;
    static constexpr auto node(auto p) { return html::set_property(name{}, T::text(p)); }
    static void put(at const& c, elem& e) { e.props[name{}.c_str()] = T::show(c); }
  };
  template <int A, int I, bool Not> struct attr_if
  {
    using name = hana::string<'i', char('0' + A)>;
    static constexpr auto node(auto)
    { if constexpr (Not) return html::add_attribute_if(name{}, spec::get(key<'b', I>{}), hana::not_); else return html::add_attribute_if(name{}, spec::get(key<'b', I>{}), hana::id); }
    static void put(at const& c, elem& e) { if (c.m.b[I] != Not) e.attrs[name{}.c_str()] = ""; }
  };
  template <int A, int I, bool Not> struct class_if
  {
    using name = hana::string<'c', char('0' + A)>;
    static constexpr auto node(auto)
    { if constexpr (Not) return html::add_class_if(name{}, spec::get(key<'b', I>{}), hana::not_); else return html::add_class_if(name{}, spec::get(key<'b', I>{}), hana::id); }
    static void put(at const& c, elem& e) { if (c.m.b[I] != Not) e.classes.insert(name{}.c_str()); }
  };
  template <int A> struct row_class_if
  {
    using name = hana::string<'r', char('0' + A)>;
    static constexpr auto node(auto p) { return html::add_class_if(name{}, spec::get(p, f_key{}), hana::id); }
    static void put(at const& c, elem& e) { if (c.r->f) e.classes.insert(name{}.c_str()); }
  };
  template <int A, int I, int T> struct class_when
  {
    using name = hana::string<'w', char('0' + A)>;
    static constexpr auto node(auto)
    {
      if constexpr (T == 1) return html::add_class_when<std::string>(name{}, spec::get(key<'v', I>{}));
      else if constexpr (T == 2) return html::add_class_when<int>(name{}, spec::get(key<'v', I>{}));
      else return html::add_class_when<bool>(name{}, spec::get(key<'v', I>{}));
    }
    static void put(at const& c, elem& e) { if (c.m.v[I].index() == T) e.classes.insert(name{}.c_str()); }
  };
  struct class_fixed
  {
    static constexpr auto node(auto) { return html::attr_class("fixed more"_s); }
    static void put(at const&, elem& e) { e.classes.insert({"fixed", "more"}); }
  };
  struct nothing
  {
    static constexpr auto node(auto) { return spec::noop_t{}; }
    static void put(at const&, elem&) { }
  };
  template <typename ...P> struct text
  {
    static constexpr auto node(auto p) { if constexpr (sizeof...(P) == 1) return html::text_node(P::text(p)...); else return html::text_node(spec::concat(P::text(p)...)); }
    static void put(at const& c, elem& e) { ((e.text += P::show(c)), ...); }
  };
  template <int T, typename ...K> struct el
  {
    static constexpr auto node(auto p) { return html::element(tag_name<T>(), K::node(p)...); }
    static void put(at const& c, elem& e)
    {
      e.flush();
      elem x; x.tag = tag_name<T>().c_str();
      // document order: this element comes before those in it
      size_t slot = 0; bool mark = false;
      if (c.out) { slot = c.out->clickable.size(); c.out->clickable.emplace_back(); mark = true; }
      (K::put(c, x), ...);
      if (mark) c.out->clickable[slot] = x.clicks;
      e.body += x.html();
    }
  };
  template <int T, int I> struct raw
  {
    static constexpr auto node(auto) { return html::element(tag_name<T>(), html::unsafe_set_inner_html(words<I>())); }
    static void put(at const&, elem& e) { e.flush(); std::string t = tag_name<T>().c_str(); e.body += "<" + t + ">{" + words_s<I>() + "}</" + t + ">"; }
  };

  template <uint64_t S, int D, bool R, bool Many = true> constexpr auto pick_node();
  template <uint64_t S, int D, bool R> using sub = decltype(pick_node<S, D, R>());

  // the value of a matched optional or variant, in the branch that has it
  template <uint64_t S, int I, int T> struct match_opt
  {
    struct yes { static constexpr auto node(auto p) { if constexpr (T == 0) return html::text_node(p); else return html::div(html::attribute("m0"_s, spec::concat("<"_s, p)), html::text_node(p)); }
                 static void put(std::string const& v, elem& e) { if (T == 0) e.text += v; else { e.flush(); elem x; x.tag = "div"; x.attrs["m0"] = "<" + v; x.text = v; e.body += x.html(); } } };
  };
  template <int I, int T, typename No> struct m_opt
  {
    using Y = typename match_opt<0, I, T>::yes;
    static constexpr auto node(auto p0)
    { return spec::match(spec::get(key<'o', I>{}), spec::when<std::string>([](auto p) { return Y::node(p); }), spec::when<>(decltype(No::node(p0)){})); }
    static void put(at const& c, elem& e) { if (c.m.o[I]) Y::put(*c.m.o[I], e); else No::put(c, e); }
  };
  template <int T, typename No> struct m_row_opt
  {
    using Y = typename match_opt<0, 0, T>::yes;
    static constexpr auto node(auto p0)
    { return spec::match(spec::get(p0, o_key{}), spec::when<std::string>([](auto p) { return Y::node(p); }), spec::when<>(decltype(No::node(p0)){})); }
    static void put(at const& c, elem& e) { if (c.r->o) Y::put(*c.r->o, e); else No::put(c, e); }
  };
  template <int I, typename B, typename No> struct m_var
  {
    static constexpr auto node(auto p0)
    { return spec::match(spec::get(key<'v', I>{}), spec::when<std::string>([](auto p) { return html::span(html::text_node(p)); })
                       , spec::when<int>([](auto p) { return html::text_node(p); }), spec::when<bool>(decltype(B::node(p0)){}), spec::when<>(decltype(No::node(p0)){})); }
    static void put(at const& c, elem& e)
    {
      auto& v = c.m.v[I];
      if (v.index() == 1) { e.flush(); elem x; x.tag = "span"; x.text = std::get<1>(v); e.body += x.html(); }
      else if (v.index() == 2) e.text += std::to_string(std::get<2>(v));
      else if (v.index() == 3) B::put(c, e);
      else No::put(c, e);
    }
  };
  template <int I, typename A, typename B, typename C> struct m_if
  {
    static constexpr auto node(auto p0)
    { return spec::match_if(spec::get(key<'s', I>{}), spec::cond(spec::equal("x"_s), decltype(A::node(p0)){}), spec::cond(spec::equal("plain"_s), decltype(B::node(p0)){}), spec::otherwise(decltype(C::node(p0)){})); }
    static void put(at const& c, elem& e) { if (c.m.s[I] == "x") A::put(c, e); else if (c.m.s[I] == "plain") B::put(c, e); else C::put(c, e); }
  };
  template <int I, typename No> struct m_keyed
  {
    static constexpr auto node(auto p0)
    { return spec::match(spec::get(key<'w', 0>{}, spec::key_at(spec::get(key<'s', I>{}))), spec::when<std::string>([](auto p) { return html::div(html::text_node(p)); }), spec::when<>(decltype(No::node(p0)){})); }
    static void put(at const& c, elem& e)
    {
      auto i = c.m.w.find(c.m.s[I]);
      if (i == c.m.w.end()) { No::put(c, e); return; }
      e.flush(); elem x; x.tag = "div"; x.text = i->second; e.body += x.html();
    }
  };
  template <int I, typename A, typename B> struct m_bool
  {
    static constexpr auto node(auto p0)
    { return spec::match_if(spec::get(key<'b', I>{}), spec::cond(hana::id, decltype(A::node(p0)){}), spec::otherwise(decltype(B::node(p0)){})); }
    static void put(at const& c, elem& e) { if (c.m.b[I]) A::put(c, e); else B::put(c, e); }
  };
  template <typename A, typename B> struct m_row_bool
  {
    static constexpr auto node(auto p0)
    { return spec::match_if(spec::get(p0, f_key{}), spec::cond(hana::id, decltype(A::node(p0)){}), spec::otherwise(decltype(B::node(p0)){})); }
    static void put(at const& c, elem& e) { if (c.r->f) A::put(c, e); else B::put(c, e); }
  };
  template <int I, typename Item> struct each
  {
    static constexpr auto node(auto) { return spec::for_each(spec::get(key<'l', I>{}), [](auto x) { return Item::node(x); }); }
    static void put(at const& c, elem& e) { for (auto& r : c.m.l[I]) { at d{c.m, &r, c.live, c.out}; Item::put(d, e); } }
  };

  template <uint64_t S, bool R, int A> constexpr auto pick_dec()
  {
    constexpr unsigned k = mixs(S, 9) % 8;
    if constexpr (k == 0) return attr<A, decltype(pick_attr_text<mixs(S, 1), R>())>{};
    else if constexpr (k == 1) return prop<A, decltype(pick_attr_text<mixs(S, 1), R>())>{};
    else if constexpr (k == 2) return attr_if<A, int(S % 3), S / 3 % 2>{};
    else if constexpr (k == 3) { if constexpr (R) return row_class_if<A>{}; else return class_if<A, int(S % 3), S / 3 % 2>{}; }
    else if constexpr (k == 4) return class_when<A, int(S % 2), int(S / 2 % 3) + 1>{};
    else if constexpr (k == 5 || k == 6) return click<S, R, int(S % 3)>{};
    else return attr<A, lit<int(S % 6)>>{};
  }
  template <uint64_t S, bool R> constexpr auto pick_dec_quiet()
  {
    if constexpr (S % 2) return attr<0, decltype(pick_attr_text<mixs(S, 1), R>())>{};
    else return class_if<0, int(S % 3), S / 3 % 2>{};
  }
  template <uint64_t S, int D, bool R> constexpr auto pick_el()
  {
    constexpr unsigned k = mixs(S, 3) % 6; constexpr int t = mixs(S, 4) % 5;
    if constexpr (k == 0) return el<t, decltype(pick_dec<mixs(S, 11), R, 0>()), sub<mixs(S, 21), D, R>>{};
    else if constexpr (k == 1) return el<t, class_fixed, decltype(pick_dec<mixs(S, 11), R, 0>()), sub<mixs(S, 21), D, R>, sub<mixs(S, 22), D, R>>{};
    else if constexpr (k == 2) return el<t, sub<mixs(S, 21), D, R>, sub<mixs(S, 22), D, R>, sub<mixs(S, 23), D, R>>{};
    else if constexpr (k == 3) return el<t, decltype(pick_dec<mixs(S, 11), R, 0>()), decltype(pick_dec<mixs(S, 12), R, 1>()), decltype(pick_dec<mixs(S, 13), R, 2>()), sub<mixs(S, 21), D, R>>{};
    else if constexpr (k == 4) return el<t, decltype(pick_dec<mixs(S, 11), R, 0>()), decltype(pick_dec<mixs(S, 12), R, 1>())>{};
    else if constexpr (k == 5 && mixs(S, 14) % 3 == 0) return el<t, decltype(pick_dec_quiet<mixs(S, 11), R>()), file<S, R>>{};
    else return el<t, click<S, R, int(S % 3)>, sub<mixs(S, 21), D, R>, sub<mixs(S, 22), D, R>>{};
  }
  template <uint64_t S, int D, bool R, bool Many> constexpr auto pick_node()
  {
    constexpr unsigned k = mixs(S, 5) % (D > 0 ? 18 : 4);
    constexpr int i = mixs(S, 6) % 6;
    if constexpr (k == 0) return text<decltype(pick_piece<mixs(S, 1), R>())>{};
    else if constexpr (k == 1) return text<decltype(pick_piece<mixs(S, 1), R>()), decltype(pick_piece<mixs(S, 2), R>())>{};
    else if constexpr (k == 2) return el<i, text<decltype(pick_piece<mixs(S, 1), R>())>>{};
    else if constexpr (k == 3) { if constexpr (i < 2) return raw<i, i>{}; else if constexpr (i == 2) return nothing{}; else return el<i>{}; }
    else if constexpr (k == 4 || k == 5) { if constexpr (R) return m_row_opt<i % 2, sub<mixs(S, 7), D - 1, R>>{}; else return m_opt<i % 2, i / 2 % 2, sub<mixs(S, 7), D - 1, R>>{}; }
    else if constexpr (k == 6) return m_var<i % 2, sub<mixs(S, 7), D - 1, R>, sub<mixs(S, 8), D - 1, R>>{};
    else if constexpr (k == 7) return m_if<i % 3, sub<mixs(S, 7), D - 1, R>, sub<mixs(S, 8), D - 1, R>, sub<mixs(S, 9), D - 1, R>>{};
    else if constexpr (k == 8) { if constexpr (R) return m_row_bool<sub<mixs(S, 7), D - 1, R>, sub<mixs(S, 8), D - 1, R>>{}; else return m_bool<i % 3, sub<mixs(S, 7), D - 1, R>, sub<mixs(S, 8), D - 1, R>>{}; }
    else if constexpr (k == 9 || k == 10) { if constexpr (R) return pick_el<S, D - 1, R>(); else return each<i % 2, sub<mixs(S, 7), D - 1, true>>{}; }
    else if constexpr (k == 11 || k == 12) return m_keyed<i % 3, sub<mixs(S, 7), D - 1, R>>{};
    else return pick_el<S, D - 1, R>();
  }

  template <uint64_t S> using shape_of = std::conditional_t<S % 4 == 0, sub<mixs(S, 100), 3, false>, decltype(pick_el<mixs(S, 100), 3, false>())>;

  template <typename Node> struct page : page_if
  {
    store& s;
    using spec_t = decltype(Node::node(0));
    using tag = nbdl::webui::renderer<spec_t>;
    using type = typename nbdl::actor_type<tag, std::reference_wrapper<store>>::type;
    std::unique_ptr<type> r;
    explicit page(store& x) : s(x) { }
    void render() override
    { r.reset(new type(nbdl::detail::make_actor_initializer(std::ref(s), emscripten::val::module_property("mount_el")))); }
    void update() override { nbdl::notify_state_change(*r, hana::type_c<void>); }
    void destroy() override { r->destroy(); }
    page_m expect(model const& m) override
    {
      page_m p; elem root;
      at c{m, nullptr, true, &p};
      Node::put(c, root);
      root.flush(); p.html = root.body;
      std::erase_if(p.clickable, [](auto& c) { return c.empty(); });
      return p;
    }
  };
  template <uint64_t S> struct registered
  {
    static std::unique_ptr<page_if> make(store_if& s) { return std::make_unique<page<shape_of<S>>>(static_cast<store&>(s)); }
    registered() { static std::string n = "shape" + std::to_string(S); shapes().push_back({n.c_str(), make}); }
  };

#ifndef SHAPES
#define SHAPES 6
#endif
  template <std::size_t ...I> void add_all(std::index_sequence<I...>) { (registered<PART * 1000 + I>{}, ...); }
  static int added = (add_all(std::make_index_sequence<SHAPES>{}), 0);
#if PART == 0
  std::unique_ptr<store_if> make_store() { return std::make_unique<store>(); }
#endif
}
