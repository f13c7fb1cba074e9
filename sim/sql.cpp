// Entities in an SQL database: nbdl composes the statements and their order, a
// real SQLite executes them on a simulated disk.
#include "core.hpp"
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/string.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/update.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <sqlite3.h>
#include <climits>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace hana = boost::hana;
using namespace hana::literals;
namespace sdb = nbdl::sql_db;
using sim::choose; using sim::flip; using sim::range; using sim::log; using sim::probe; using sim::fault;

// ------------------------------------------------------------ the disk
namespace disk
{
  constexpr int sector = 512;
  struct file
  {
    std::string cur, dur, name; bool is = false, was = false; std::set<int64_t> dirty; bool resized = false;
  };
  struct state
  {
    std::map<std::string, file> files;
    bool dead = false;              // the power is off: nothing reaches the disk any more
    int crash_in = 0, fail_in = 0, fail_kind = 0;   // steps until then
    uint64_t clock = 0;
  };
  static state* d;

  enum { READ, WRITE, SYNC, CUT, DELETE_ };
  // what happens at this access: 0 or an SQLite error
  static int access(int what, int len)
  {
    sim::step();
    uint64_t us = what == SYNC ? 3000 : 60; d->clock += us; sim::advance(us);
    if (d->dead) return SQLITE_IOERR;
    if (what != READ && d->crash_in && !--d->crash_in) { d->dead = true; fault("power-loss"); log("the power goes"); return SQLITE_IOERR; }
    if (d->fail_in && !--d->fail_in)
    {
      switch (d->fail_kind)
      {
        case 0: if (what == WRITE) { fault("disk-full"); log("disk full"); return SQLITE_FULL; } break;
        case 1: if (what == WRITE) { fault("write-error"); log("write error"); return SQLITE_IOERR_WRITE; } break;
        case 2: if (what == SYNC) { fault("sync-error"); log("sync error"); return SQLITE_IOERR_FSYNC; } break;
        case 3: if (what == READ) { fault("read-error"); log("read error"); return SQLITE_IOERR_READ; } break;
        case 4: if (what == DELETE_) { fault("delete-error"); log("delete error"); return SQLITE_IOERR_DELETE; } break;
      }
      d->fail_in = 1;    // waits for the access it is for
    }
    return 0;
  }
  // only the process is gone: what it wrote is still there
  static void process_on() { d->dead = false; d->crash_in = d->fail_in = 0; }
  // the system has written down what was left to write
  static void write_down() { for (auto& [n, f] : d->files) { f.dur = f.cur; f.was = f.is; f.dirty.clear(); f.resized = false; } }
  // what is on the disk when the power comes back: of what was not synchronised
  // each sector is the old or the new one
  static void power_on()
  {
    int mode = choose(3);
    for (auto& [n, f] : d->files)
    {
      auto keep = [&] { return mode == 0 ? true : mode == 1 ? false : flip(1, 2); };
      std::string img = f.dur;
      if (f.resized && keep()) { img.resize(f.cur.size(), '\xa5'); }
      for (auto s : f.dirty) if (keep())
      {
        if (s >= int64_t(f.cur.size())) continue;
        size_t n = std::min<size_t>(sector, f.cur.size() - s);
        if (img.size() < s + n) img.resize(s + n, '\xa5');
        img.replace(s, n, f.cur, s, n);
        if (mode == 2) fault("torn-write");
      }
      if (mode == 1 && (f.dirty.size() || f.resized)) fault("lost-write", f.dirty.size());
      if (f.is != f.was && !keep()) f.is = f.was;
      if (!f.is) img.clear();
      f.cur = f.dur = img; f.was = f.is; f.dirty.clear(); f.resized = false;
    }
    d->dead = false; d->crash_in = d->fail_in = 0;
  }

  struct handle { sqlite3_file base; file* f; bool gone; };
  static file* of(sqlite3_file* h) { return reinterpret_cast<handle*>(h)->f; }
  static int x_close(sqlite3_file* h) { return SQLITE_OK; }
  static int x_read(sqlite3_file* h, void* p, int n, sqlite3_int64 o)
  {
    if (int r = access(READ, n)) return r == SQLITE_IOERR ? SQLITE_IOERR_READ : r;
    auto f = of(h); int64_t have = int64_t(f->cur.size()) - o; have = have < 0 ? 0 : have > n ? n : have;
    if (have) memcpy(p, f->cur.data() + o, have);
    if (have < n) { memset(static_cast<char*>(p) + have, 0, n - have); return SQLITE_IOERR_SHORT_READ; }
    return SQLITE_OK;
  }
  static int x_write(sqlite3_file* h, const void* p, int n, sqlite3_int64 o)
  {
    auto f = of(h); int r = access(WRITE, n);
    if (r)
    {
      if (d->dead) return SQLITE_IOERR_WRITE;
      // a part may have arrived
      n = n > 1 && flip(1, 2) ? range(1, n - 1) : 0; if (n) fault("short-write");
    }
    if (n)
    {
      if (f->cur.size() < size_t(o) + n) { f->cur.resize(o + n, 0); f->resized = true; }
      f->cur.replace(o, n, static_cast<char const*>(p), n);
      for (int64_t s = o / sector * sector; s < o + n; s += sector) f->dirty.insert(s);
    }
    return r == SQLITE_IOERR ? SQLITE_IOERR_WRITE : r;
  }
  static int x_truncate(sqlite3_file* h, sqlite3_int64 n)
  {
    if (int r = access(CUT, 0)) return SQLITE_IOERR_TRUNCATE;
    auto f = of(h); f->cur.resize(n); f->resized = true; return SQLITE_OK;
  }
  static int x_sync(sqlite3_file* h, int)
  {
    if (int r = access(SYNC, 0)) return SQLITE_IOERR_FSYNC;
    auto f = of(h); f->dur = f->cur; f->was = f->is; f->dirty.clear(); f->resized = false; return SQLITE_OK;
  }
  static int x_size(sqlite3_file* h, sqlite3_int64* n) { *n = of(h)->cur.size(); return d->dead ? SQLITE_IOERR_FSTAT : SQLITE_OK; }
  static int x_ok(sqlite3_file*, int) { return SQLITE_OK; }
  static int x_locked(sqlite3_file*, int* r) { *r = 0; return SQLITE_OK; }
  static int x_control(sqlite3_file*, int, void*) { return SQLITE_NOTFOUND; }
  static int x_sector(sqlite3_file*) { return sector; }
  static int x_traits(sqlite3_file*) { return 0; }
  static sqlite3_io_methods const methods = {1, x_close, x_read, x_write, x_truncate, x_sync, x_size, x_ok, x_ok, x_locked, x_control, x_sector, x_traits};

  static int x_open(sqlite3_vfs*, const char* name, sqlite3_file* h, int flags, int* out)
  {
    h->pMethods = nullptr;
    if (d->dead) return SQLITE_CANTOPEN;
    std::string n = name ? name : "temp";
    auto& f = d->files[n]; f.name = n;
    if (!f.is) { if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN; f.is = true; f.was = false; f.cur.clear(); f.dur.clear(); f.dirty.clear(); f.resized = true; }    // another file, whatever had the name before
    auto x = reinterpret_cast<handle*>(h); x->f = &f; x->base.pMethods = &methods;
    if (out) *out = flags;
    return SQLITE_OK;
  }
  static int x_delete(sqlite3_vfs*, const char* name, int sync_dir)
  {
    if (int r = access(DELETE_, 0)) return SQLITE_IOERR_DELETE;
    auto i = d->files.find(name); if (i == d->files.end() || !i->second.is) return SQLITE_IOERR_DELETE_NOENT;
    auto& f = i->second; f.is = false; f.cur.clear(); f.dirty.clear(); f.resized = false; if (sync_dir) { f.was = false; f.dur.clear(); }
    return SQLITE_OK;
  }
  static int x_access(sqlite3_vfs*, const char* name, int, int* r)
  { if (d->dead) return SQLITE_IOERR_ACCESS; auto i = d->files.find(name); *r = i != d->files.end() && i->second.is ; return SQLITE_OK; }
  static int x_path(sqlite3_vfs*, const char* n, int s, char* o) { snprintf(o, s, "%s", n); return SQLITE_OK; }
  static int x_random(sqlite3_vfs*, int n, char* p) { for (int i = 0; i < n; i++) p[i] = char(i * 37 + (d ? d->clock : 0)); return n; }
  static int x_sleep(sqlite3_vfs*, int us) { sim::advance(us); return us; }
  static int x_time(sqlite3_vfs*, double* t) { *t = 2460000.5 + d->clock / 86400e6; return SQLITE_OK; }
  static int x_error(sqlite3_vfs*, int, char*) { return 0; }
  static sqlite3_vfs vfs = {1, sizeof(handle), 512, nullptr, "sim", nullptr, x_open, x_delete, x_access, x_path, nullptr, nullptr, nullptr, nullptr, x_random, x_sleep, x_time, x_error};

  // memory of SQLite, which may run out
  static int64_t no_memory_in;
  static void* m_malloc(int n) { if (no_memory_in && !--no_memory_in) { fault("no-memory-in-database"); log("no memory"); return nullptr; } auto p = static_cast<int64_t*>(malloc(n + 16)); if (!p) return p; *p = n; return p + 2; }
  static void m_free(void* p) { if (p) free(static_cast<int64_t*>(p) - 2); }
  static int m_size(void* p) { return p ? int(static_cast<int64_t*>(p)[-2]) : 0; }
  static void* m_realloc(void* p, int n) { auto q = m_malloc(n); if (!q) return q; memcpy(q, p, std::min(n, m_size(p))); m_free(p); return q; }
  static int m_round(int n) { return (n + 7) & ~7; }
  static int m_init(void*) { return 0; } static void m_end(void*) { }
  static void set_up()
  {
    static bool once = false; if (once) return; once = true;
    static sqlite3_mem_methods const m = {m_malloc, m_free, m_realloc, m_size, m_round, m_init, m_end, nullptr};
    sqlite3_config(SQLITE_CONFIG_SINGLETHREAD); sqlite3_config(SQLITE_CONFIG_MALLOC, &m); sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
    sqlite3_initialize(); sqlite3_vfs_register(&vfs, 1);
  }
}

// ------------------------------------------------------------ the entities
namespace ent
{
  using nbdl::string; using blob = std::vector<unsigned char>;
  enum mood : int { CALM, GLAD = 7, CROSS = -3 };
  struct foo { int foo_value = 0; };
  struct note { string text; long long stamp = 0; bool done = false; double weight = 0; blob data; mood how = CALM; unsigned tries = 0; };
  struct bar { string bar_value; foo bar_foo; };
  struct baz { int baz_value = 0; foo baz_foo; bar baz_bar; };
  struct twin { foo left; foo right; string label; };
  struct shell { bar inner; };
  struct line { int qty = 0; string what; foo extra; };
  struct order { string who; std::vector<line> lines; };
  struct page { int n = 0; string words; };
  struct chapter { string name; std::vector<page> pages; note head; };
  struct book { string title; std::vector<chapter> chapters; int year = 0; };
  struct dot { int x = 0, y = 0; };
  struct cloud { std::vector<dot> dots; };
  struct person { string nick; int age = 0; };
  struct guest { string nick; bool late = false; };
  struct club { person chair; string name; std::vector<guest> guests; std::vector<dot> seats; };
  struct deep { int t = 0; baz d; twin w; };
}
namespace nbdl
{
  using namespace ent;
  NBDL_ENTITY(foo, foo_value); NBDL_ENTITY(note, text, stamp, done, weight, data, how, tries); NBDL_ENTITY(bar, bar_value, bar_foo); NBDL_ENTITY(baz, baz_value, baz_foo, baz_bar);
  NBDL_ENTITY(twin, left, right, label); NBDL_ENTITY(shell, inner); NBDL_ENTITY(line, qty, what, extra); NBDL_ENTITY(order, who, lines); NBDL_ENTITY(page, n, words);
  NBDL_ENTITY(chapter, name, pages, head); NBDL_ENTITY(book, title, chapters, year); NBDL_ENTITY(dot, x, y); NBDL_ENTITY(cloud, dots); NBDL_ENTITY(person, nick, age);
  NBDL_ENTITY(guest, nick, late); NBDL_ENTITY(club, chair, name, guests, seats); NBDL_ENTITY(deep, t, d, w);
  // tables and keys of their own
  template <> struct sql_db::table_name_impl<ent::person> { using type = decltype("members"_s); };
  template <> struct sql_db::primary_key_impl<ent::person> { using type = nbdl::key<ent::person, int64_t>; };
  template <> struct sql_db::primary_key_impl<ent::club> { using type = nbdl::key<ent::club, int64_t>; };
}

namespace sql
{
  using namespace ent;
  // what must be in the database, written by hand
  struct kid_t; struct list_t;
  struct node { std::string table; std::map<std::string, std::string> cols; std::vector<kid_t> kids; std::vector<list_t> lists; };
  struct kid_t { std::string first; node second; };                                    // column -> row
  struct list_t { std::string table, col; std::vector<node> rows; };                   // table, its column -> rows
  static std::string I(long long v) { return "i:" + std::to_string(v); }
  static std::string T(std::string const& v) { return "t:" + v; }
  static std::string R(double v) { char b[64]; snprintf(b, sizeof b, "r:%a", v); return b; }
  static std::string B(char const* p, size_t n) { std::string r = "b:"; for (size_t i = 0; i < n; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char) p[i]); r += b; } return r; }
  static std::string B(blob const& v) { return B(reinterpret_cast<char const*>(v.data()), v.size()); }
  static std::string S(string const& s) { return T(std::string(s)); }

  template <typename X> std::vector<node> all(std::vector<X> const& v);
  static node of(foo const& x) { return {"foo", {{"foo_value", I(x.foo_value)}}}; }
  static node of(note const& x) { return {"note", {{"text", S(x.text)}, {"stamp", I(x.stamp)}, {"done", I(x.done)}, {"weight", R(x.weight)}, {"data", B(x.data)}, {"how", I(x.how)}, {"tries", I(x.tries)}}}; }
  static node of(bar const& x) { return {"bar", {{"bar_value", S(x.bar_value)}}, {{"bar_foo", of(x.bar_foo)}}}; }
  static node of(baz const& x) { return {"baz", {{"baz_value", I(x.baz_value)}}, {{"baz_foo", of(x.baz_foo)}, {"baz_bar", of(x.baz_bar)}}}; }
  static node of(twin const& x) { return {"twin", {{"label", S(x.label)}}, {{"left", of(x.left)}, {"right", of(x.right)}}}; }
  static node of(shell const& x) { return {"shell", {}, {{"inner", of(x.inner)}}}; }
  static node of(line const& x) { return {"line", {{"qty", I(x.qty)}, {"what", S(x.what)}}, {{"extra", of(x.extra)}}}; }
  static node of(page const& x) { return {"page", {{"n", I(x.n)}, {"words", S(x.words)}}}; }
  static node of(dot const& x) { return {"dot", {{"x", I(x.x)}, {"y", I(x.y)}}}; }
  static node of(person const& x) { return {"members", {{"nick", S(x.nick)}, {"age", I(x.age)}}}; }
  static node of(guest const& x) { return {"guest", {{"nick", S(x.nick)}, {"late", I(x.late)}}}; }
  static node of(chapter const& x) { return {"chapter", {{"name", S(x.name)}}, {{"head", of(x.head)}}, {{"page", "chapter_id", all(x.pages)}}}; }
  static node of(order const& x) { return {"order", {{"who", S(x.who)}}, {}, {{"line", "order_id", all(x.lines)}}}; }
  static node of(book const& x) { return {"book", {{"title", S(x.title)}, {"year", I(x.year)}}, {}, {{"chapter", "book_id", all(x.chapters)}}}; }
  static node of(cloud const& x) { return {"cloud", {}, {}, {{"dot", "cloud_id", all(x.dots)}}}; }
  static node of(club const& x) { return {"club", {{"name", S(x.name)}}, {{"chair", of(x.chair)}}, {{"guest", "club_id", all(x.guests)}, {"dot", "club_id", all(x.seats)}}}; }
  static node of(deep const& x) { return {"deep", {{"t", I(x.t)}}, {{"d", of(x.d)}, {"w", of(x.w)}}}; }
  template <typename X> std::vector<node> all(std::vector<X> const& v) { std::vector<node> r; for (auto& x : v) r.push_back(of(x)); return r; }

  static char const* const ddl[] = {
    "foo", "foo_value", "note", "text,stamp,done,weight,data,how,tries", "bar", "bar_value,bar_foo_id", "baz", "baz_value,baz_foo_id,baz_bar_id",
    "twin", "left_id,right_id,label", "shell", "inner_id", "line", "qty CHECK(qty >= 0),what,extra_id,order_id", "order", "who", "page", "n CHECK(n >= 0),words,chapter_id",
    "chapter", "name,head_id,book_id", "book", "title,year", "dot", "x CHECK(x >= 0),y,cloud_id,club_id", "cloud", "", "members", "nick,age", "guest", "nick,late,club_id", "club", "name,chair_id", "deep", "t,d_id,w_id"};

  static std::string word()
  {
    static std::vector<std::string> const ws = {"", "a", "Ann's \"own\"", "?", "); DROP TABLE \"foo\"; --", "h\xc3\xa9llo w\xc3\xb6rld", "0", "NULL", "12e5", "a text that is too long to be kept inside the string object itself"};
    return flip(1, 20) ? sim::pattern(choose(9), range(1, 5000)).append(1, 'x') : ws[choose(ws.size())];
  }
  static string str() { auto w = word(); for (auto& c : w) if (!c) c = '.'; return string(w); }
  static int num() { static int const v[] = {0, 1, 2, 42, -1, INT_MAX, INT_MIN, 70000}; return flip(1, 3) ? int(range(0, 5)) : v[choose(8)]; }
  static bool bad_values;
  static int natural() { if (bad_values && flip(1, 25)) { fault("constraint-failed"); return -range(1, 9); } return range(0, 100); }
  template <typename X> struct maker;
  template <typename X> X make() { return maker<X>::make(); }
  template <typename X> std::vector<X> some() { std::vector<X> r; int n = flip(1, 15) ? range(5, 30) : choose(4); while (n--) r.push_back(make<X>()); return r; }
  template <> struct maker<foo> { static foo make() { return {num()}; } };
  template <> struct maker<note> { static note make() {
    static double const ds[] = {0, 1, -2.5, 1e300, 5e-324, 0.1, 3e9}; static long long const ls[] = {0, 1, -1, LLONG_MAX, LLONG_MIN, 1ll << 40}; static mood const ms[] = {CALM, GLAD, CROSS};
    note x; x.text = str(); x.stamp = ls[choose(6)]; x.done = flip(1, 2); x.weight = ds[choose(7)]; auto w = word(); x.data.assign(w.begin(), w.end()); if (flip(1, 3)) x.data.push_back(0); x.how = ms[choose(3)]; x.tries = flip(1, 3) ? UINT_MAX : choose(5); return x; } };
  template <> struct maker<bar> { static bar make() { bar x; x.bar_value = str(); x.bar_foo = sql::make<foo>(); return x; } };
  template <> struct maker<baz> { static baz make() { baz x; x.baz_value = num(); x.baz_foo = sql::make<foo>(); x.baz_bar = sql::make<bar>(); return x; } };
  template <> struct maker<twin> { static twin make() { twin x; x.left = sql::make<foo>(); x.right = sql::make<foo>(); x.label = str(); return x; } };
  template <> struct maker<shell> { static shell make() { return {sql::make<bar>()}; } };
  template <> struct maker<line> { static line make() { line x; x.qty = natural(); x.what = str(); x.extra = sql::make<foo>(); return x; } };
  template <> struct maker<order> { static order make() { order x; x.who = str(); x.lines = some<line>(); return x; } };
  template <> struct maker<page> { static page make() { page x; x.n = natural(); x.words = str(); return x; } };
  template <> struct maker<chapter> { static chapter make() { chapter x; x.name = str(); x.pages = some<page>(); x.head = sql::make<note>(); return x; } };
  template <> struct maker<book> { static book make() { book x; x.title = str(); x.chapters = some<chapter>(); if (x.chapters.size() > 4) x.chapters.resize(4); x.year = num(); return x; } };
  template <> struct maker<dot> { static dot make() { dot x; x.x = natural(); x.y = num(); return x; } };
  template <> struct maker<cloud> { static cloud make() { return {some<dot>()}; } };
  template <> struct maker<person> { static person make() { person x; x.nick = str(); x.age = num(); return x; } };
  template <> struct maker<guest> { static guest make() { guest x; x.nick = str(); x.late = flip(1, 2); return x; } };
  template <> struct maker<club> { static club make() { club x; x.chair = sql::make<person>(); x.name = str(); x.guests = some<guest>(); x.seats = some<dot>(); return x; } };
  template <> struct maker<deep> { static deep make() { deep x; x.t = num(); x.d = sql::make<baz>(); x.w = sql::make<twin>(); return x; } };

  // ---------------------------------------------------------- the application
  struct db_error : std::exception { int code; db_error(int c) : code(c) { } };
  struct other_error { int code; };
  struct row_ref { std::string table; int64_t id; bool operator<(row_ref const& o) const { return std::tie(table, id) < std::tie(o.table, o.id); } };
  struct root { node n; std::map<std::string, std::string> keys; };     // keys: what came with it
  using model = std::map<row_ref, root>;

  struct world
  {
    disk::state st; sqlite3* db = nullptr; int journal = 0;
    model durable, now; bool in_tx = false;
    bool failed = false;            // a statement failed: nothing may follow it
    int statements = 0; bool ended = false;

    world() { disk::d = &st; }
    ~world() { shut(); disk::d = nullptr; }
    void shut() { if (db) { for (auto s = sqlite3_next_stmt(db, nullptr); s; s = sqlite3_next_stmt(db, nullptr)) sqlite3_finalize(s); sqlite3_close(db); db = nullptr; } }
    int exec(char const* q) { return sqlite3_exec(db, q, nullptr, nullptr, nullptr); }
    bool must(char const* q)
    { int r = exec(q); if (r && !st.dead) { sim::fail("P26", "harness", "%s: %s", q, sqlite3_errmsg(db)); } return !r; }
    void open()
    {
      disk::no_memory_in = 0; st.fail_in = 0;
      if (sqlite3_open_v2("db", &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, "sim")) { sim::fail("P26", "harness", "the database does not open"); return; }
      sqlite3_extended_result_codes(db, 1);
      static char const* const js[] = {"PRAGMA journal_mode=DELETE", "PRAGMA journal_mode=TRUNCATE", "PRAGMA journal_mode=PERSIST"};
      log("journal %d", journal); must("PRAGMA synchronous=EXTRA"); must("PRAGMA temp_store=MEMORY"); must(js[journal]);
    }

    // a statement nbdl composed, with its values
    struct statement
    {
      world& w; sqlite3_stmt* s = nullptr; int n = 0;
      statement(world& w_, std::string const& q) : w(w_)
      {
        if (w.failed) sim::fail("P26", "after-failure", "a statement follows one that failed: %s", q.c_str());
        w.statements++; sim::step(); log("%s", q.c_str());
        char const* rest = nullptr;
        int r = sqlite3_prepare_v2(w.db, q.c_str(), q.size() + 1, &s, &rest);
        if (r == SQLITE_ERROR) sim::fail("P26", "statement", "the database does not understand: %s: %s", q.c_str(), sqlite3_errmsg(w.db));
        if (r) w.error(r);
        if (rest && *rest) sim::fail("P26", "statement", "more than a statement: %s", q.c_str());
      }
      ~statement() { sqlite3_finalize(s); }
      void check(int r) { if (r) { sqlite3_finalize(s); s = nullptr; w.error(r); } }
      void bind(std::string const& v) { check(sqlite3_bind_text(s, ++n, v.data(), v.size(), SQLITE_TRANSIENT)); log("  '%.40s' (%zu)", v.c_str(), v.size()); }
      void bind(double v) { check(sqlite3_bind_double(s, ++n, v)); log("  %a", v); }
      void bind(blob const& v) { check(sqlite3_bind_blob(s, ++n, v.empty() ? "" : (char const*) v.data(), v.size(), SQLITE_TRANSIENT)); log("  blob of %zu", v.size()); }
      template <typename X, typename K> void bind(nbdl::key_impl<X, K> const& k) { bind(k.value); }
      template <typename X> void bind(X const& v) requires (std::is_integral_v<X> || std::is_enum_v<X>) { check(sqlite3_bind_int64(s, ++n, sqlite3_int64(v))); log("  %lld", (long long) v); }
      template <typename Vs> void bind_all(Vs const& vs)
      {
        hana::for_each(vs, [&](auto const& v) { bind(v); });
        if (n != sqlite3_bind_parameter_count(s)) sim::fail("P26", "statement", "%d values for %d places: %s", n, sqlite3_bind_parameter_count(s), sqlite3_sql(s));
      }
      bool step() { int r = sqlite3_step(s); if (r == SQLITE_ROW) return true; if (r != SQLITE_DONE) { sqlite3_finalize(s); s = nullptr; w.error(r); } return false; }
      std::string at(int i)
      {
        switch (sqlite3_column_type(s, i))
        {
          case SQLITE_INTEGER: return I(sqlite3_column_int64(s, i));
          case SQLITE_FLOAT: return R(sqlite3_column_double(s, i));
          case SQLITE_TEXT: { auto p = (char const*) sqlite3_column_text(s, i); return T(std::string(p ? p : "", sqlite3_column_bytes(s, i))); }
          case SQLITE_BLOB: { auto p = (char const*) sqlite3_column_blob(s, i); return B(p, sqlite3_column_bytes(s, i)); }
          default: return "null";
        }
      }
    };
    [[noreturn]] void error(int r) { failed = true; log("error %d", r); if (flip(1, 3)) throw other_error{r}; throw db_error{r}; }

    // ---- the functions nbdl is given
    struct inserter
    {
      world* w;
      template <typename Table, typename Params> int64_t operator()(Table t, Params&& ps) const
      {
        auto q = sdb::statement::insert(t, hana::to<hana::map_tag>(std::forward<Params>(ps)));
        statement s(*w, hana::first(q).c_str()); s.bind_all(hana::second(q)); s.step();
        return sqlite3_last_insert_rowid(w->db);
      }
    };
    struct updater
    {
      world* w;
      template <typename Table, typename Values, typename Keys> void operator()(Table t, Values&& v, Keys&& k) const
      {
        auto bt = [](auto&& ...x) { return hana::make_basic_tuple(std::forward<decltype(x)>(x)...); };
        auto q = sdb::statement::update(t, hana::unpack(std::forward<Values>(v), bt), hana::unpack(std::forward<Keys>(k), bt));
        statement s(*w, hana::first(q).c_str()); s.bind_all(hana::second(q)); s.step();
      }
    };
    using rows = std::vector<std::map<std::string, std::string>>;
    struct selector
    {
      world* w;
      template <typename Table, typename Columns, typename Joins, typename Keys> rows operator()(Table t, Columns c, Joins j, Keys&& k) const
      {
        auto q = sdb::statement::select(t, c, j, hana::to<hana::map_tag>(std::forward<Keys>(k)));
        // the names of the columns as the statement lists them
        std::vector<std::string> names; std::string n; bool in = false;
        for (char x : std::string(c.c_str())) { if (x == '"') in = !in; else if (x == ',' && !in) { names.push_back(n); n.clear(); } else n += x; }
        names.push_back(n);
        statement s(*w, hana::first(q).c_str()); s.bind_all(hana::second(q));
        rows r;
        while (s.step())
        {
          if (int(names.size()) != sqlite3_column_count(s.s)) { sim::fail("P26", "statement", "%zu columns are named, %d come", names.size(), sqlite3_column_count(s.s)); break; }
          std::map<std::string, std::string> row; for (size_t i = 0; i < names.size(); i++) if (!row.insert({names[i], s.at(i)}).second) sim::fail("P26", "columns", "the column %s comes twice", names[i].c_str());
          r.push_back(row);
        }
        return r;
      }
    };

    // ---- transactions
    bool begin() { if (in_tx) return true; if (exec("BEGIN IMMEDIATE")) return false; in_tx = true; now = durable; return true; }
    void roll_back()
    {
      log("roll back"); disk::no_memory_in = 0; sim::alloc_fail_in = 0; st.fail_in = 0; failed = false;
      bool ok = sqlite3_get_autocommit(db) || !exec("ROLLBACK");
      if (ok && exec("SELECT count(*) FROM \"foo\"")) ok = false;      // a connection may stay unusable after an error
      if (!ok && !st.dead) { log("starting again"); probe("sql:connected-again"); restart(); }
      in_tx = false; now = durable;
    }
    // after a failed commit it is not known which of the two holds
    void commit()
    {
      log("commit"); int r = exec("COMMIT"); disk::no_memory_in = 0; st.fail_in = 0;
      if (!r && !st.dead) { durable = now; in_tx = false; probe("sql:committed"); return; }
      log("the commit failed: %d", r); probe("sql:commit-failed");
      model other = now; in_tx = false;
      restart(&other);
    }
    void restart(model* other = nullptr)
    {
      if (ended) { ended = false; shut(); disk::process_on(); } else if (st.dead) { shut(); disk::power_on(); probe("sql:power-on"); } else { st.crash_in = 0; st.fail_in = 0; shut(); }
      failed = false; disk::no_memory_in = 0; sim::alloc_fail_in = 0; in_tx = false;
      open();
      // what is found after a failed commit need not be durable yet
      if (other) { disk::write_down(); std::string why; now = durable; if (!check(now, why)) { std::string w2; if (check(*other, w2)) { durable = *other; probe("sql:failed-commit-held"); } else sim::fail("P26", "half", "after a commit that failed, neither what was nor what should be is there: %s; %s", why.c_str(), w2.c_str()); } }
      now = durable;
    }

    // ---- the oracle: all tables against the model
    struct q
    {
      sqlite3_stmt* s = nullptr; sqlite3* db;
      q(sqlite3* d, std::string const& t) : db(d) { if (sqlite3_prepare_v2(d, t.c_str(), -1, &s, nullptr)) sim::fail("P26", "harness", "%s: %s", t.c_str(), sqlite3_errmsg(d)); }
      ~q() { sqlite3_finalize(s); }
      bool step() { return sqlite3_step(s) == SQLITE_ROW; }
    };
    std::string value(sqlite3_stmt* s, int i)
    {
      switch (sqlite3_column_type(s, i))
      {
        case SQLITE_INTEGER: return I(sqlite3_column_int64(s, i));
        case SQLITE_FLOAT: return R(sqlite3_column_double(s, i));
        case SQLITE_TEXT: return T(std::string((char const*) sqlite3_column_text(s, i), sqlite3_column_bytes(s, i)));
        case SQLITE_BLOB: return B((char const*) sqlite3_column_blob(s, i), sqlite3_column_bytes(s, i));
        default: return "null";
      }
    }
    // everything there is, read once
    using record = std::map<std::string, std::string>;
    std::map<std::string, std::map<int64_t, record>> there;
    void read_all()
    {
      there.clear();
      for (size_t i = 0; i < sizeof ddl / sizeof *ddl; i += 2)
      {
        auto& t = there[ddl[i]]; q s(db, std::string("SELECT * FROM \"") + ddl[i] + "\"");
        while (s.step()) { auto& r = t[sqlite3_column_int64(s.s, 0)]; for (int c = 1; c < sqlite3_column_count(s.s); c++) r[sqlite3_column_name(s.s, c)] = value(s.s, c); }
      }
    }
    bool row(node const& n, int64_t id, record const& keys, std::map<std::string, int>& count, std::string& why)
    {
      count[n.table]++;
      std::string where = n.table + " " + std::to_string(id);
      auto& t = there[n.table]; auto me = t.find(id);
      if (me == t.end()) { why = where + " is not there"; return false; }
      std::set<std::string> left; for (auto& c : n.cols) left.insert(c.first); for (auto& k : keys) left.insert(k.first); for (auto& k : n.kids) left.insert(k.first + "_id");
      std::vector<std::pair<node const*, int64_t>> kids;
      for (auto& [name, v] : me->second)
      {
        left.erase(name);
        auto c = n.cols.find(name); bool col = c != n.cols.end(); if (!col) { c = keys.find(name); col = c != keys.end(); }
        if (col) { if (c->second != v) { why = where + "." + name + " is " + v.substr(0, 80) + " and not " + c->second.substr(0, 80); return false; } continue; }
        node const* kid = nullptr; for (auto& k : n.kids) if (k.first + "_id" == name) kid = &k.second;
        if (kid) { if (v.substr(0, 2) != "i:") { why = where + "." + name + " is " + v; return false; } kids.push_back({kid, std::stoll(v.substr(2))}); continue; }
        if (v != "null") { why = where + "." + name + " is " + v.substr(0, 80) + " and not set by anyone"; return false; }
      }
      if (!left.empty()) { why = where + " has no column " + *left.begin(); return false; }
      for (auto& k : kids) if (!row(*k.first, k.second, {}, count, why)) return false;
      for (auto& [table, col, list] : n.lists)
      {
        size_t i = 0; auto mine = I(id);
        for (auto& [kid, r] : there[table])
        {
          auto c = r.find(col); if (c == r.end() || c->second != mine) continue;
          if (i >= list.size()) { why = where + " has more rows of " + table + " than " + std::to_string(list.size()); return false; }
          if (!row(list[i++], kid, {{col, mine}}, count, why)) return false;
        }
        if (i < list.size()) { why = where + " has " + std::to_string(i) + " rows of " + table + " and not " + std::to_string(list.size()); return false; }
      }
      return true;
    }
    bool check(model const& m, std::string& why)
    {
      read_all(); std::map<std::string, int> count;
      for (auto& [ref, r] : m) if (!row(r.n, ref.id, r.keys, count, why)) return false;
      for (auto& [name, t] : there) if (int(t.size()) != count[name]) { why = std::to_string(t.size()) + " rows of " + name + " and not " + std::to_string(count[name]); return false; }
      return true;
    }
    void verify(char const* when)
    {
      if (st.dead) return;
      auto f = st.fail_in; auto c = st.crash_in; auto m = disk::no_memory_in; st.fail_in = st.crash_in = 0; disk::no_memory_in = 0;
      std::string why; if (!check(now, why)) sim::fail("P26", "content", "%s: %s", when, why.c_str());
      st.fail_in = f; st.crash_in = c; disk::no_memory_in = m;
    }

    // ---- operations
    template <typename F> void attempt(F f)
    {
      bool ok = false; statements = 0; failed = false;
      try { f(); ok = true; } catch (db_error const&) { } catch (other_error const&) { } catch (std::bad_alloc const&) { fault("no-memory"); failed = true; }
      sim::alloc_fail_in = 0;
      if (ok && failed) sim::fail("P26", "swallowed", "a statement failed and the caller was not told");
      if (!ok) { probe("sql:failed"); if (st.dead) { restart(); verify("after the power came back"); } else { roll_back(); verify("after rolling back"); } }
    }
    template <typename X> static std::string table_of() { return std::string(sdb::table_name<X>{}.c_str()); }
    struct extra { bool on; string owner; int room; std::map<std::string, std::string> cols() const { return on ? std::map<std::string, std::string>{{"owner", S(owner)}, {"room", I(room)}} : std::map<std::string, std::string>{}; } };
    extra keys() { extra e; e.on = flip(1, 3); e.owner = str(); e.room = num(); return e; }
    static auto pairs(extra const& e) { return hana::make_tuple(hana::make_pair("owner"_s, e.owner), hana::make_pair("room"_s, e.room)); }

    template <typename X> void insert_one()
    {
      X x = make<X>(); auto n = of(x); auto e = keys(); int how = choose(3);
      if (!begin()) { trouble(); return; }
      maybe_no_memory();
      attempt([&] {
        log("insert %s", n.table.c_str());
        int64_t id;
        auto go = [&](auto&& v) {
          if (e.on) { auto k = pairs(e); if (flip(1, 2)) return sdb::insert(inserter{this}, std::forward<decltype(v)>(v), k); return sdb::insert(inserter{this}, std::forward<decltype(v)>(v), std::move(k)); }
          return sdb::insert(inserter{this}, std::forward<decltype(v)>(v)); };
        if (how == 0) id = go(x).value; else if (how == 1) id = go(std::as_const(x)).value; else id = go(std::move(x)).value;
        sim::alloc_fail_in = 0;
        if (how < 2) { X y = x; (void) y; }
        if (!now.insert({{n.table, id}, {n, e.cols()}}).second) sim::fail("P26", "key", "%s %lld is given out twice", n.table.c_str(), (long long) id);
        probe("sql:inserted");
      });
    }
    template <typename X> void insert_many()
    {
      auto xs = some<X>(); auto ns = all(xs); auto e = keys(); e.on = true; int how = choose(3);
      if (!begin()) { trouble(); return; }
      auto first = next_id(table_of<X>());
      maybe_no_memory();
      attempt([&] {
        log("insert %zu of %s", xs.size(), table_of<X>().c_str());
        auto go = [&](auto&& v) { auto k = pairs(e); if (flip(1, 2)) sdb::insert(inserter{this}, std::forward<decltype(v)>(v), k); else sdb::insert(inserter{this}, std::forward<decltype(v)>(v), std::move(k)); };
        if (how == 0) go(xs); else if (how == 1) go(std::as_const(xs)); else go(std::move(xs));
        sim::alloc_fail_in = 0;
        for (auto& n : ns) now.insert({{n.table, first++}, {n, e.cols()}});
        probe("sql:inserted-many");
      });
    }
    int64_t next_id(std::string const& t)
    { auto f = st.fail_in; auto m = disk::no_memory_in; st.fail_in = 0; disk::no_memory_in = 0; int64_t r; { q s(db, "SELECT coalesce((SELECT seq FROM sqlite_sequence WHERE name='" + t + "'),0)"); s.step(); r = sqlite3_column_int64(s.s, 0) + 1; } st.fail_in = f; disk::no_memory_in = m; return r; }
    // begin failed
    void trouble() { log("cannot begin"); probe("sql:cannot-begin"); disk::no_memory_in = 0; if (st.dead) { restart(); verify("after the power came back"); } else { st.fail_in = 0; failed = false; restart(); verify("after starting again"); } }

    template <typename X> row_ref pick()
    {
      std::vector<row_ref> c; for (auto& [r, _] : now) if (r.table == table_of<X>()) c.push_back(r);
      if (c.empty() || flip(1, 8)) return {table_of<X>(), UINT_MAX - int64_t(choose(3))};
      return c[choose(c.size())];
    }
    template <typename X> void update_one()
    {
      if (!begin()) { trouble(); return; }
      auto ref = pick<X>(); auto it = now.find(ref); bool is = it != now.end();
      X x = make<X>(); auto n = of(x); int mode = choose(3);
      string owner = is && it->second.keys.count("owner") && flip(2, 3) ? string(it->second.keys["owner"].substr(2)) : str();
      int room = is && it->second.keys.count("room") && flip(2, 3) ? int(std::stoll(it->second.keys["room"].substr(2))) : num();
      bool hit = is; if (hit && mode > 0) hit = it->second.keys.count("owner") && it->second.keys["owner"] == S(owner); if (hit && mode > 1) hit = it->second.keys["room"] == I(room);
      auto key = sdb::primary_key<X>(ref.id);
      maybe_no_memory();
      attempt([&] {
        log("update %s %lld (%s)", ref.table.c_str(), (long long) ref.id, hit ? "hit" : "miss");
        auto K = hana::make_pair(sdb::table_key_name<X>{}, key); auto O = hana::make_pair("owner"_s, owner); auto M = hana::make_pair("room"_s, room);
        if (mode == 0) sdb::update(updater{this}, x, hana::make_tuple(K));
        else if (mode == 1) { if (flip(1, 2)) sdb::update(updater{this}, std::move(x), hana::make_tuple(K, O)); else sdb::update(updater{this}, std::as_const(x), hana::make_tuple(O, K)); }
        else sdb::update(updater{this}, x, hana::make_tuple(O, K, M));
        if (statements != 1) sim::fail("P26", "update", "an update is %d statements", statements);
        sim::alloc_fail_in = 0;
        if (hit) { now[ref].n = n; probe(mode ? "sql:updated-where" : "sql:updated"); }
      });
    }
    static void flatten(node const& n, std::string const& prefix, std::map<std::string, std::string>& to)
    { for (auto& c : n.cols) to[prefix + "." + c.first] = c.second; for (auto& k : n.kids) flatten(k.second, prefix + "." + k.first, to); }
    template <typename X> void select_some()
    {
      bool tx = in_tx; if (!tx) now = durable;
      auto ref = pick<X>(); auto it = now.find(ref); bool is = it != now.end(); int mode = choose(3);
      string owner = is && it->second.keys.count("owner") && flip(3, 4) ? string(it->second.keys["owner"].substr(2)) : str();
      auto owned = [&](root const& r) { return r.keys.count("owner") && r.keys.at("owner") == S(owner); };
      rows want;
      for (auto& [r, x] : now) if (r.table == ref.table && (mode == 1 || r.id == ref.id) && (mode == 0 || owned(x))) { std::map<std::string, std::string> m; flatten(x.n, r.table, m); want.push_back(m); }
      attempt([&] {
        log("select %s %lld", ref.table.c_str(), (long long) ref.id);
        constexpr auto owner_name = decltype("\""_s + sdb::table_name<X>{} + "\".\"owner\""_s){};
        auto K = hana::make_pair(sdb::select_primary_key_name<X>{}, sdb::primary_key<X>(ref.id)); auto O = hana::make_pair(owner_name, owner);
        rows got;
        if (mode == 0) got = sdb::select<X>(selector{this}, hana::make_tuple(K)); else if (mode == 1) got = sdb::select<X>(selector{this}, hana::make_tuple(O)); else got = sdb::select<X>(selector{this}, hana::make_tuple(K, O));
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got != want)
        {
          std::string d = std::to_string(got.size()) + " rows for " + std::to_string(want.size());
          if (got.size() == want.size()) for (size_t i = 0; i < got.size(); i++) for (auto& [k, v] : want[i]) if (!got[i].count(k) || got[i][k] != v) d = k + " is " + (got[i].count(k) ? got[i][k].substr(0, 60) : "missing") + " and not " + v.substr(0, 60);
          sim::fail("P26", "selected", "%s %lld: %s", ref.table.c_str(), (long long) ref.id, d.c_str());
        }
        probe(want.empty() ? "sql:selected-none" : "sql:selected");
      });
    }
    int no_memory_rate = 0;
    void maybe_no_memory() { if (no_memory_rate && flip(1, no_memory_rate)) { if (flip(1, 2)) sim::alloc_fail_in = range(1, 40); else disk::no_memory_in = range(1, 300); } }

    template <typename X> static constexpr bool flat = std::is_same_v<X, foo> || std::is_same_v<X, note> || std::is_same_v<X, person>;
    template <typename X> static constexpr bool listed = std::is_same_v<X, order> || std::is_same_v<X, book> || std::is_same_v<X, cloud> || std::is_same_v<X, club>;
    template <typename X> void act()
    {
      switch (sim::weighted({4, 2, 4, 6}))
      {
        case 0: insert_one<X>(); break;
        case 1: insert_many<X>(); break;
        case 2: if constexpr (flat<X>) update_one<X>(); else insert_one<X>(); break;
        case 3: if constexpr (!listed<X>) select_some<X>(); else insert_one<X>(); break;
      }
    }
  };

  static void scenario()
  {
    sim::leaks_for("P26"); disk::set_up(); sqlite3_randomness(0, nullptr); disk::no_memory_in = 0;
    {
      world w; w.journal = choose(3); bad_values = false; w.open();
      w.must("BEGIN");
      for (size_t i = 0; i < sizeof ddl / sizeof *ddl; i += 2)
      {
        std::string t = ddl[i], c = ddl[i + 1];
        w.must(("CREATE TABLE \"" + t + "\" (\"" + t + "_id\" INTEGER PRIMARY KEY AUTOINCREMENT" + (c.empty() ? "" : "," + c) + ",owner,room)").c_str());
        if (flip(1, 3)) // keys that were given out before
        { static int64_t const at[] = {7, 255, 65535, INT_MAX - 3ll, UINT_MAX - 100000ll}; auto v = (t == "members" || t == "club") && flip(1, 2) ? 1ll << 33 : at[choose(5)];
          w.must(("INSERT INTO sqlite_sequence VALUES('" + t + "'," + std::to_string(v) + ")").c_str()); }
      }
      w.must("COMMIT");
      bool disk_faults = flip(1, 2), power = flip(1, 2); bad_values = flip(1, 2); w.no_memory_rate = flip(1, 3) ? 12 : 0;
      int ops = range(4, 40);
      std::vector<int> kinds; if (flip(1, 4)) for (int i = 0; i < 12; i++) kinds.push_back(i); else for (int i = range(1, 3); i--;) kinds.push_back(choose(12));
      for (int i = 0; i < ops + 2; i++)
      {
        bool settle = i >= ops; sim::step();
        if (settle) { bad_values = false; w.no_memory_rate = 0; w.st.fail_in = 0; }
        if (!settle && disk_faults && !w.st.fail_in && flip(1, 6)) { w.st.fail_in = range(1, 30); w.st.fail_kind = choose(5); }
        if (!settle && power && !w.st.crash_in && flip(1, 8)) w.st.crash_in = range(1, 40);
        if (settle && w.st.crash_in) w.st.crash_in = 0;
        switch (kinds[choose(kinds.size())])
        {
          case 0: w.act<foo>(); break; case 1: w.act<note>(); break; case 2: w.act<bar>(); break; case 3: w.act<baz>(); break; case 4: w.act<twin>(); break;
          case 5: w.act<shell>(); break; case 6: w.act<order>(); break; case 7: w.act<book>(); break; case 8: w.act<club>(); break; case 9: w.act<person>(); break; case 11: w.act<cloud>(); break; case 10: w.act<deep>(); break;
        }
        if (w.in_tx && (settle || flip(1, 3)))
        {
          if (!settle && flip(1, 5)) { probe("sql:rolled-back"); w.roll_back(); if (w.st.dead) w.restart(); w.verify("after rolling back"); }
          else { w.verify("before committing"); if (w.st.dead) w.restart(); else w.commit(); w.verify("after committing"); }
        }
        if (!settle && flip(1, 15))
        { // the process ends
          log("the process ends"); fault("process-ends"); w.st.dead = w.ended = true; w.restart(); w.verify("after starting again");
        }
        if (settle && w.durable.empty() && w.st.dead) sim::fail("P26", "stuck", "nothing can be stored any more");
      }
      if (!w.in_tx) w.now = w.durable;
      w.verify("at the end");
      if (w.durable.size() > 3) sim::nontrivial();
      log("%zu entities", w.durable.size());
      w.st.crash_in = w.st.fail_in = 0;
    }
  }
  static sim::add_scenario reg("sql", scenario);
}
