// C19: results do not depend on history, on errno, or on other threads.
#include <thread>
#include <mutex>
#include <sys/wait.h>
#include "ops.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

struct Op { int kind; uint64_t seed; uint64_t want = 0; bool known = false; };
static const int errnos[] = {0, ERANGE, EINVAL, EDOM, ENOENT, ENOMEM, EINTR, -1, 12345};

static uint64_t exec(const Op& o, std::string* text = nullptr) { std::string s = ops::run(o.kind, o.seed); if (text) *text = s; return ops::hash(s); }

/// The operation's result in a process that has done nothing else with the library.
static bool fresh(const Op& o, uint64_t& h) {
  int p[2]; if (pipe(p)) return false;
  pid_t c = fork(); if (c < 0) { close(p[0]); close(p[1]); return false; }
  if (c == 0) { close(p[0]); errno = 0; uint64_t v = exec(o); ssize_t k = write(p[1], &v, sizeof v); _exit(k == sizeof v ? 0 : 1); }
  close(p[1]); ssize_t k; do k = read(p[0], &h, sizeof h); while (k < 0 && errno == EINTR);
  close(p[0]); int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  return k == (ssize_t)sizeof h;
}
// ------------------------------------------------------------ before main()
/// The operations as a global object's constructor of another file may use them: before any initialisation in the
/// library's own files has run. Done in a child, which is the only one to use the library that early.
static constexpr int PER = 12;
static uint64_t early_hash[ops::NK * PER]; static int early_status = -1;
static uint64_t early_seed(int i) { return (uint64_t)(i / ops::NK) * 2654435761u + (uint64_t)i; }
static bool lock_step(int to, const void* b, size_t n) { const char* p = (const char*)b; while (n) { ssize_t k = write(to, p, n); if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
__attribute__((constructor(101))) static void early() {
  int p[2]; if (pipe(p)) return;
  pid_t c = fork(); if (c < 0) return;
  if (c == 0) {
    close(p[0]); alarm(60); errno = 0; static uint64_t h[ops::NK * PER];
    for (int i = 0; i < ops::NK * PER; i++) h[i] = ops::hash(ops::run(i % ops::NK, early_seed(i)));
    _exit(lock_step(p[1], h, sizeof h) ? 0 : 7);
  }
  close(p[1]); size_t got = 0; for (;;) { ssize_t k = read(p[0], (char*)early_hash + got, sizeof early_hash - got); if (k <= 0) { if (k < 0 && errno == EINTR) continue; break; } got += (size_t)k; }
  close(p[0]); int st = -1; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  early_status = got == sizeof early_hash ? st : st ? st : -2;
}
static void before_main() {
  set_cur("before main"); EXPECT(early_status == 0, "early-crash", "using the library before main ends the process (status %d)", early_status);
  if (early_status != 0) return;
  for (int i = 0; i < ops::NK * PER; i++) { Op o; o.kind = i % ops::NK; o.seed = early_seed(i); set_cur(ops::kinds[o.kind].name, o.kind, (long)o.seed); std::string text; errno = 0; uint64_t h = exec(o, &text); EXPECT(h == early_hash[i], std::string("early:") + ops::kinds[o.kind].name, "before main the same call gave another result than now: \"%.200s\"", text.c_str()); judged(); count("calls made before main"); }
}
static Op gen(Rng& r, uint64_t cluster) { Op o; o.kind = (int)r.in(0, ops::NK - 1); o.seed = (cluster << 32) | (uint64_t)r.in(0, 0xffffffffL); return o; }
static void check(Op& o, int e, const char* sec) {
  set_cur(ops::kinds[o.kind].name, o.kind, (long)o.seed, e); errno = e;
  std::string text; uint64_t h = exec(o, &text);
  if (!o.known) { o.want = h; o.known = true; return; }
  EXPECT(h == o.want, std::string(sec) + ":" + ops::kinds[o.kind].name, "the same call gives another result: now \"%.200s\" (errno %d before)", text.c_str(), e);
  judged();
}
/// histories over `pool`, in `passes` different random orders with repeats
static void histories(std::vector<Op>& pool, Rng& r, int passes, const char* sec) {
  uint64_t n = 0;
  for (int p = 0; p < passes; p++) {
    std::vector<size_t> order; for (size_t i = 0; i < pool.size(); i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)r.in(0, (long)i - 1)]);
    for (size_t i : order) { int e = r.pick(errnos); check(pool[i], e, sec); ++n; if (r.chance(20)) { check(pool[i], r.pick(errnos), sec); ++n; } }
  }
  count("calls in histories", n);
}

// ------------------------------------------------------------------ threads
static constexpr int NT = 8;
struct Bad { int kind; uint64_t seed; std::string text; };
struct Shared {
  std::atomic<int> go{0};
  std::atomic<int> busy[NT];              // kind in progress, relaxed: no ordering is added
  std::atomic<uint64_t> overlap[ops::NK];
  std::mutex mu; std::vector<Bad> bad;
};
static void worker(Shared& sh, int id, const std::vector<Op>& pool, uint64_t seed, int rounds, std::vector<uint64_t>& got) {
  Rng r(seed); std::vector<size_t> order; for (size_t i = 0; i < pool.size(); i++) order.push_back(i);
  sh.go.fetch_add(1, std::memory_order_relaxed);
  while (sh.go.load(std::memory_order_relaxed) < NT) {}
  for (int k = 0; k < rounds; k++) {
    if (!(k == 0 && id % 2)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)r.in(0, (long)i - 1)]);
    for (size_t i : order) {
      const Op& o = pool[i]; errno = r.pick(errnos);
      sh.busy[id].store(o.kind + 1, std::memory_order_relaxed);
      uint64_t v = exec(o);
      for (int t = 0; t < NT; t++) if (t != id) { int b = sh.busy[t].load(std::memory_order_relaxed); if (b) sh.overlap[o.kind].fetch_or(1ULL << (b - 1), std::memory_order_relaxed); }
      advance();
      if (k == 0) got[i] = v; 
      bool wrong = o.known ? v != o.want : v != got[i];
      if (wrong) { std::string t = ops::run(o.kind, o.seed); std::lock_guard<std::mutex> g(sh.mu); if (sh.bad.size() < 20) sh.bad.push_back({o.kind, o.seed, t}); }
    }
  }
  sh.busy[id].store(0, std::memory_order_relaxed);
}
/// NT threads run the same operations, each in its own order; results are
/// compared with the known ones, or (cold start) with a single-thread run after.
static void threads(std::vector<Op>& pool, Rng& r, int rounds, const char* sec) {
  Shared sh; for (auto& b : sh.busy) b.store(0); for (auto& o : sh.overlap) o.store(0);
  std::vector<std::vector<uint64_t>> got((size_t)NT, std::vector<uint64_t>(pool.size(), 0));
  std::vector<std::thread> ts;
  set_cur(sec, NT, (long)pool.size(), rounds);
  for (int i = 0; i < NT; i++) { uint64_t s = r.next(); ts.emplace_back([&, i, s] { set_cur(sec, i); worker(sh, i, pool, s, rounds, got[(size_t)i]); }); }
  for (auto& t : ts) t.join();
  for (auto& b : sh.bad) { set_cur(ops::kinds[b.kind].name, b.kind, (long)b.seed); viol(std::string(sec) + ":" + ops::kinds[b.kind].name, "a thread got another result than a single thread; alone it is \"%.200s\"", b.text.c_str()); }
  for (size_t i = 0; i < pool.size(); i++) {
    set_cur(ops::kinds[pool[i].kind].name, pool[i].kind, (long)pool[i].seed);
    errno = 0; uint64_t w = exec(pool[i]);
    for (int t = 0; t < NT; t++) { EXPECT(got[(size_t)t][i] == w, std::string(sec) + ":" + ops::kinds[pool[i].kind].name, "thread %d got another result than a single thread", t); judged(); }
  }
  uint64_t pairs = 0; for (auto& o : sh.overlap) pairs += (uint64_t)__builtin_popcountll(o.load());
  count("calls made concurrently", (uint64_t)pool.size() * (uint64_t)NT * (uint64_t)rounds);
  counters["distinct pairs of operations seen overlapping"] = std::max(counters["distinct pairs of operations seen overlapping"], pairs);
}
/// objects shared by all threads, which only read them
template<class S> static std::string views(const datetime<S>& t, const datetime<S>& u, const datetime_interval<S>& iv, const char* text, const S& amount) {
  ops::Out o; ops::look(o, t); o << (t < u) << (t == u) << t.delta_date(u) << U(t.delta_sec(u)) << t.stringify() << strftime_ymd_hmfs(t) << strftime_ymd_hms(t);
  o << iv.as_mjd() << iv << iv / 7 << (iv < datetime_interval<S>{}) << t.template cast_to<seconds>() << dat(t) << t.template add<S>(iv.days(), iv.sec()); long w = 0; o << U(t.as_gps_wsow(w)) << w;
  o << strptime_ymd_hms<S>(text); o << U(amount) << amount.to_days() << amount.fractional_days(); auto h = amount.to_hmsf(); o << std::get<3>(h);
  return o.s;
}
template<class S> static void shared(Rng& r, int rounds) {
  CLS(S); struct Set { datetime<S> t, u; datetime_interval<S> iv; std::string text; S amount; };
  std::vector<Set> v; for (int i = 0; i < 40; i++) { long m = r.in(44244, 80000), m2 = r.in(44244, 80000); Set s{datetime<S>{modified_julian_day{m}, S{gen_tod<S>(r)}}, datetime<S>{modified_julian_day{m2}, S{gen_tod<S>(r)}}, datetime_interval<S>{modified_julian_day{r.in(0, 900)}, S{gen_tod<S>(r)}}, "2019-03-18 10:20:30.5", S{gen_amount<S>(r, 1000000000L, false)}}; v.push_back(s); }
  const std::vector<Set>& cv = v; std::vector<std::vector<uint64_t>> got((size_t)NT, std::vector<uint64_t>(v.size(), 0)); std::atomic<int> go{0}; std::atomic<uint64_t> bad{0};
  set_cur("shared objects", (long)v.size(), rounds);
  std::vector<std::thread> ts;
  for (int i = 0; i < NT; i++) ts.emplace_back([&, i] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < NT) {}
    for (int k = 0; k < rounds; k++) for (size_t j = 0; j < cv.size(); j++) { const Set& s = cv[j]; uint64_t h = ops::hash(views<S>(s.t, s.u, s.iv, s.text.c_str(), s.amount)); if (k == 0) got[(size_t)i][j] = h; else if (got[(size_t)i][j] != h) bad.fetch_add(1, std::memory_order_relaxed); advance(); } });
  for (auto& t : ts) t.join();
  EXPECT(bad.load() == 0, "shared", "%lu times a thread saw another value of an object nobody changes", (unsigned long)bad.load());
  for (size_t j = 0; j < v.size(); j++) { const Set& s = v[j]; set_cur("shared objects", U(s.t.mjd()), U(s.t.sec())); uint64_t h = ops::hash(views<S>(s.t, s.u, s.iv, s.text.c_str(), s.amount)); for (int i = 0; i < NT; i++) { EXPECT(got[(size_t)i][j] == h, "shared", "thread %d saw another value", i); judged(); } }
  count("views of shared objects", (uint64_t)NT * (uint64_t)rounds * v.size());
}

// ------------------------------------------------- results that were kept
template<class T> static auto put(ops::Out& o, const T& v) -> decltype(v.as_underlying_type(), void()) { o << U(v); }
template<class T> static auto put(ops::Out& o, const T& v) -> decltype(o << v, void()) { o << v; }
template<class T> static void put(ops::Out& o, const std::tuple<hours, minutes, seconds, T>& h) { o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << (long)std::get<3>(h); }
template<class T> static std::string shown(const T& v) { ops::Out o; put(o, v); return o.s; }
/// What one call returned is kept as it was returned (by value or by reference) while the same function and another
/// are called with other arguments: it must go on showing what it showed.
template<class S> static void held(Rng& r) {
  CLS(S); const long a = gen_mjd(r, 44244, 2973483), b = gen_mjd(r, 44244, 2973483), ua = gen_tod<S>(r), ub = gen_tod<S>(r);
  const datetime<S> t{modified_julian_day{a}, S{ua}}, u{modified_julian_day{b}, S{ub}}; const datetime_interval<S> i{modified_julian_day{a - 44244}, S{ua}}, j{modified_julian_day{b - 44244}, S{ub}};
  const modified_julian_day m{a}, n{b}; const Ymd ca = civil(a), cb = civil(b); const year ya{(int)ca.y}, yb{(int)cb.y}; const month ma{ca.m}, mb{cb.m}; const day_of_month da{ca.d}, db{cb.d}; const day_of_year oa{ca.doy}, ob{cb.doy};
  const ymd_date da3{ya, ma, da}, db3{yb, mb, db}; const ydoy_date do2{ya, oa}, dp2{yb, ob}; const S x{ua}, y{ub}; const int k = (int)r.in(2, 500);
  char ta[64], tb[64]; snprintf(ta, sizeof ta, "%04ld-%02d-%02d 10:20:30.25", ca.y, ca.m, ca.d); snprintf(tb, sizeof tb, "%04ld-%02d-%02d 01:02:03.5", cb.y, cb.m, cb.d); long l1 = 0, l2 = 0; S s1{0}, s2{0};
#define HELD(name, A, B, C) { set_cur("held: " name, a, ua, b, ub); auto&& p = (A); const std::string was = shown(p); auto&& q = (B); const std::string then = shown(q); auto&& z = (C); (void)z; const std::string now = shown(p), now2 = shown(q); EXPECT(was == now && then == now2, "held:" name, "what was returned showed \"%.100s\" and shows \"%.100s\" after other calls", (was == now ? then : was).c_str(), (was == now ? now2 : now).c_str()); judged(); count("results kept and looked at again", 2); }
  HELD("as_ymd", t.as_ymd(), u.as_ymd(), u.as_ydoy()) HELD("as_ydoy", t.as_ydoy(), u.as_ydoy(), u.as_ymd()) HELD("as_hmsf", t.as_hmsf(), u.as_hmsf(), y.to_hmsf()) HELD("to_hmsf", x.to_hmsf(), y.to_hmsf(), u.as_hmsf())
  HELD("mjd", t.mjd(), u.mjd(), t.sec()) HELD("sec", t.sec(), u.sec(), t.mjd()) HELD("sec_as_i", t.sec_as_i(), u.sec_as_i(), u.sec()) HELD("as_mjd", t.as_mjd(), u.as_mjd(), j.as_mjd())
  HELD("stringify", t.stringify(), u.stringify(), strftime_ymd_hms(u)) HELD("strftime_ymd_hms", strftime_ymd_hms(t), strftime_ymd_hms(u), strftime_ymd_hmfs(u)) HELD("strftime_ymd_hmfs", strftime_ymd_hmfs(t), strftime_ymd_hmfs(u), u.stringify())
  HELD("cast_to", t.template cast_to<seconds>(), u.template cast_to<seconds>(), u.template cast_to<microseconds>()) HELD("add", t.template add<S>(m, x), u.template add<S>(n, y), t.template add<S>(n, y))
  HELD("datetime delta_date", t.delta_date(u), u.delta_date(t), t.delta_date(t)) HELD("delta_date", delta_date(t, u), delta_date(u, t), u.delta_date(u)) HELD("delta_sec", delta_sec(t, u), delta_sec(u, t), t.delta_sec(u)) HELD("datetime delta_sec", t.delta_sec(u), u.delta_sec(t), delta_sec(t, u))
  HELD("interval days", i.days(), j.days(), j.sec()) HELD("interval sec", i.sec(), j.sec(), j.days()) HELD("interval division", i / k, j / k, j / 3)
  HELD("as_gps_wsow", t.as_gps_wsow(l1), u.as_gps_wsow(l2), u.as_gps_wsow(s1)) HELD("as_gps_wsow-S", t.as_gps_wsow(s1), u.as_gps_wsow(s2), u.as_gps_wsow(l1)) HELD("dat", dat(m), dat(n), dat(u)) HELD("dat-ym", dat(ya, ma), dat(yb, mb), dat(n))
  HELD("to_ymd", m.to_ymd(), n.to_ymd(), n.to_ydoy()) HELD("to_ydoy", m.to_ydoy(), n.to_ydoy(), n.to_ymd()) HELD("ymd to_ydoy", da3.to_ydoy(), db3.to_ydoy(), dp2.to_ymd()) HELD("ydoy to_ymd", do2.to_ymd(), dp2.to_ymd(), db3.to_ydoy()) HELD("cal2mjd", cal2mjd(ya, ma, da), cal2mjd(yb, mb, db), ydoy2mjd(yb, ob)) HELD("ydoy2mjd", ydoy2mjd(ya, oa), ydoy2mjd(yb, ob), cal2mjd(yb, mb, db))
  HELD("short_name", ma.short_name(), mb.short_name(), mb.long_name()) HELD("long_name", ma.long_name(), mb.long_name(), mb.short_name()) HELD("to_days", x.to_days(), y.to_days(), y.more_than_day()) HELD("+", x + y, y + x + S{1}, y - x) HELD("-", x - y, y - x, x + y)
  HELD("strptime_ymd_hms", strptime_ymd_hms<S>(ta), strptime_ymd_hms<S>(tb), strptime_ymd<S>(tb)) HELD("strptime_ymd", strptime_ymd<S>(ta), strptime_ymd<S>(tb), strptime_ymd_hms<S>(tb)) HELD("min-max", datetime<S>::min(), datetime<S>::max(), datetime<S>::min())
  HELD("cast_to amount", (ngpt::cast_to<S, seconds>(x)), (ngpt::cast_to<S, seconds>(y)), (ngpt::cast_to<seconds, microseconds>(seconds{1})))
#undef HELD
  { S c{ua}, d{ub}; auto&& p = c.remove_days(); long was = p; auto&& q = d.remove_days(); (void)q; EXPECT(p == was, "held:remove_days", "what was returned changed"); auto&& v = c++; auto&& w = d++; EXPECT(U(v) == ua && U(w) == ub, "held:postfix", "x++ and y++ returned %ld and %ld, they were %ld and %ld", U(v), U(w), ua, ub); }
}
/// Arguments a power of two apart one after the other: what a call gives must not be what the other gave.
static void alike_args(Rng& r) {
  auto is = [](const char* what, const std::string& got, const std::string& want, long v) { EXPECT(got == want, std::string("alike:") + what, "%s of %ld gives %s, in another history %s", what, v, got.c_str(), want.c_str()); judged(); };
  auto tx = [](auto... v) { ops::Out o; (void)std::initializer_list<int>{(o << (long)v, 0)...}; return o.s; };
  alike(r, mjd_lo(), mjd_of(INT_MAX, 12, 31), scale(20000), [&](long m) {
    set_cur("alike: day", m); const Ymd c = civil(m); const modified_julian_day j{m}; auto d = j.to_ymd(); auto o = j.to_ydoy();
    is("to_ymd", tx(U(d.__year), U(d.__month), U(d.__dom)), tx(c.y, c.m, c.d), m); is("to_ydoy", tx(U(o.__year), U(o.__doy)), tx(c.y, c.doy), m); is("cal2mjd", tx(U(cal2mjd(year{(int)c.y}, month{c.m}, day_of_month{c.d}))), tx(m), m); is("ydoy2mjd", tx(U(ydoy2mjd(year{(int)c.y}, day_of_year{c.doy}))), tx(m), m);
    if (m >= 41317) is("dat", tx(dat(j), dat(year{(int)c.y}, month{c.m}), dat(datetime<microseconds>{j, microseconds{1}})), tx(tai_utc(m), tai_utc(m), tai_utc(m)), m);
    if (m >= 44244) { long s = -1; const datetime<milliseconds> t{j, milliseconds{5}}; long w = U(t.as_gps_wsow(s)); is("as_gps_wsow", tx(w, s), tx((m - 44244) / 7, (m - 44244) % 7 * 86400), m); } });
  alike(r, -4799, INT_MAX, scale(20000), [&](long y) { set_cur("alike: year", y); is("is_leap", tx(is_leap((int)y), day_of_month{29}.is_valid(year{(int)y}, month{2}), day_of_year{366}.is_valid(year{(int)y})), tx(leap(y), leap(y), leap(y)), y); auto e = ymd_date{year{(int)y}, month{12}, day_of_month{31}}.to_ydoy(); auto f = ydoy_date{year{(int)y}, day_of_year{60}}.to_ymd(); is("day of year", tx(U(e.__year), U(e.__doy), U(f.__year), U(f.__month), U(f.__dom)), tx(y, ydays(y), y, leap(y) ? 2 : 3, leap(y) ? 29 : 1), y); });
  each_res([&](auto s) { using S = decltype(s); CLS(S); const long f = res<S>::f, D = day_units<S>();
    alike(r, 0, (long)INT_MAX * 3600, scale(20000), [&](long v) { set_cur("alike: amount", v); const S x{v}; auto h = x.to_hmsf(); is("to_hmsf", tx(U(std::get<0>(h)), U(std::get<1>(h)), U(std::get<2>(h)), std::get<3>(h)), tx(v / f / 3600, v / f / 60 % 60, v / f % 60, v % f), v);
      S e{v}; long d = v / D <= INT_MAX ? e.remove_days() : v / D; is("days", tx(d, v / D <= INT_MAX ? U(e) : v % D, v / D <= INT_MAX ? x.to_days() : v / D), tx(v / D, v % D, v / D), v); is("cast_to", tx(U(ngpt::cast_to<S, seconds>(x))), tx(v / f), v);
      const datetime<S> t{modified_julian_day{0}, x}; is("normalizing", tx(U(t.mjd()), U(t.sec())), tx(v / D, v % D), v); });
    cur.cls = ""; });
}

// -------------------------------------------------------------- endurance
/// few arguments, very many calls: a result that wears off (a counter, a pool, a cache that fills up)
template<class F> static void endure(const char* name, long n, F f) {
  static int turn = 0; if (turn++ % 2 != opt.shard % 2 && opt.shards > 1) return;     // one process makes all calls of a kind
  set_cur(name, n); uint64_t want[16]; for (int i = 0; i < 16; i++) want[i] = f(i);
  long k = 0; for (; k < n; k++) { const int i = (int)((uint32_t)k * 2654435761u >> 28); const uint64_t h = f(i); if (h != want[i]) { cur.a[1] = k; cur.a[2] = i; viol(std::string("endurance:") + name, "call %ld, with argument %d, gives another result than the first ones", k + 16, i); break; } }
  judged(); count("calls of few arguments", (uint64_t)k);
}
static void endurance() {
#if defined(__SANITIZE_ADDRESS__)
  const bool slow = true;
#else
  const bool slow = false;
#endif
  const long m = (opt.thorough ? 8 : 1) * (slow ? 30000L : 1200000L);
  static const long days[16] = {51544, 57754, 0, -1, 41317, 60000, 15079, -678575, 88127, 40587, 44244, 58848, 59214, 2973849, 65536, 99999};
  static const char* names[16] = {"Jan", "february", "MAR", "April", "may", "JUNE", "Jul", "August", "sep", "October", "NOV", "december", "January", "dec", "SEPTEMBER", "Feb"};
  static std::string text[16], month_text[16]; for (int i = 0; i < 16; i++) { char b[64]; snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d.%03d", 1960 + i * 5, i % 12 + 1, i + 5, i, i * 3, i * 2 + 1, i * 60); text[i] = b; snprintf(b, sizeof b, "%d-%.3s-%02d %02d:%02d:%02d.%03d", 1960 + i * 5, names[i], i + 5, i, i * 3, i * 2 + 1, i * 60); month_text[i] = b; }
  auto hs = [](const std::string& s) { return ops::hash(s); }; auto hd = [](auto t) { return (uint64_t)U(t.mjd()) * 1000003u ^ (uint64_t)U(t.sec()); };
  endure("to_ymd", 10 * m, [&](int i) { const ymd_date d = modified_julian_day{days[i]}.to_ymd(); return (uint64_t)U(d.__year) << 16 ^ (uint64_t)U(d.__month) << 8 ^ (uint64_t)U(d.__dom); });
  endure("cal2mjd", 10 * m, [&](int i) { return (uint64_t)U(cal2mjd(year{1900 + i * 13}, month{i % 12 + 1}, day_of_month{i + 10})); });
  endure("to_ydoy", 10 * m, [&](int i) { const ydoy_date d = modified_julian_day{days[i]}.to_ydoy(); return (uint64_t)U(d.__year) << 16 ^ (uint64_t)U(d.__doy); });
  endure("day of year to MJD", 10 * m, [&](int i) { return (uint64_t)U(modified_julian_day{year{1900 + i * 13}, day_of_year{i * 20 + 1}}); });
  endure("dat", 10 * m, [&](int i) { return (uint64_t)dat(modified_julian_day{41317 + i * 1100}); });
  endure("dat of a month", 10 * m, [&](int i) { return (uint64_t)dat(year{1972 + i * 4}, month{i % 12 + 1}); });
  endure("validity", 10 * m, [&](int i) { return (uint64_t)day_of_month{i + 16}.is_valid(year{1999 + i}, month{i % 13}); });
  endure("day of year to calendar", 10 * m, [&](int i) { const ymd_date d = ydoy_date{year{1990 + i}, day_of_year{i * 23 + 2}}.to_ymd(); return (uint64_t)U(d.__month) << 8 ^ (uint64_t)U(d.__dom); });
  endure("arithmetic", 10 * m, [&](int i) { datetime<milliseconds> t(modified_julian_day{days[i]}, milliseconds{i * 5000000L}); t.add_seconds(milliseconds{86400000L * i + 7}); t.remove_seconds(seconds{i * 1000L}); t += datetime_interval<milliseconds>{modified_julian_day{i - 8}, milliseconds{-i * 77L}}; const auto q = t.as_hmsf(); return hd(t) ^ (uint64_t)U(std::get<1>(q)) << 50 ^ (uint64_t)std::get<3>(q) << 20; });
  endure("differences", 10 * m, [&](int i) { const datetime<seconds> a(modified_julian_day{days[i]}, seconds{i * 5000L}); const datetime<microseconds> b(modified_julian_day{days[15 - i]}, microseconds{i * 5000000001L}); return (uint64_t)U(delta_sec(a, b)) ^ (uint64_t)U(a.delta_date(datetime<seconds>(modified_julian_day{i}, seconds{4})).sec()); });
  endure("gps", 10 * m, [&](int i) { const datetime<seconds> a(modified_julian_day{44244 + i * 1234}, seconds{i * 5000L}); seconds s; long l; const uint64_t w = (uint64_t)U(a.as_gps_wsow(s)); return w * 7919 ^ (uint64_t)U(s) ^ (uint64_t)U(a.as_gps_wsow(l)) << 30 ^ (uint64_t)l << 40; });
  endure("quotients", 10 * m, [&](int i) { const datetime_interval<seconds> v{modified_julian_day{100 + i * 77}, seconds{i * 4321L}}; const auto q = v / (i + 1); return (uint64_t)U(q.days()) << 20 ^ (uint64_t)U(q.sec()); });
  endure("month by name", 2 * m, [&](int i) { return (uint64_t)U(month{names[i]}); });
  endure("name of month", 10 * m, [&](int i) { const month x{i % 12 + 1}; const char *a = x.short_name(), *b = x.long_name(); return (uint64_t)(unsigned char)a[1] << 8 ^ (uint64_t)(unsigned char)b[2]; });
  endure("strptime_ymd", m / 2, [&](int i) { return hd(strptime_ymd<seconds>(text[i].c_str())); });
  endure("strptime_ymd_hms", m / 2, [&](int i) { char* e; return hd(strptime_ymd_hms<milliseconds>(text[i].c_str(), &e)) ^ (uint64_t)(e - text[i].c_str()); });
  endure("strptime_yod_hms", m / 2, [&](int i) { return hd(strptime_yod_hms<milliseconds>(month_text[i].c_str())); });
  endure("strptime_ydoy", m / 2, [&](int i) { return hd(strptime_ydoy<seconds>(text[i].c_str())); });
  endure("strptime_ydoy_hms", m / 2, [&](int i) { return hd(strptime_ydoy_hms<microseconds>(text[i].c_str())); });
  endure("refused text", m / 20, [&](int i) { try { return hd(strptime_ymd_hms<seconds>(names[i])); } catch (const std::invalid_argument&) { return (uint64_t)1; } });
  endure("strftime_ymd_hms", m / 4, [&](int i) { return hs(strftime_ymd_hms(datetime<seconds>(modified_julian_day{days[i]}, seconds{i * 5000L}))); });
  endure("strftime_ymd_hmfs", m / 4, [&](int i) { return hs(strftime_ymd_hmfs(datetime<milliseconds>(modified_julian_day{days[i]}, milliseconds{i * 5000003L}))); });
  endure("stringify", m / 4, [&](int i) { return hs(datetime<microseconds>(modified_julian_day{days[i]}, microseconds{i * 5000000003L}).stringify()); });
}

int main(int argc, char** argv) {
  init(argc, argv);
#if defined(__SANITIZE_THREAD__)
  const bool tsan = true;
#else
  const bool tsan = false;
#endif
  Rng r = rng_for("c19");
  auto pool_of = [&](int per_kind, uint64_t cluster) { std::vector<Op> p; for (int k = 0; k < ops::NK; k++) for (int i = 0; i < per_kind; i++) { Op o = gen(r, cluster); o.kind = k; p.push_back(o); } return p; };
  // Cold: the very first use of the library in this process is by 8 threads at once.
  if (tsan || opt.shard % 2 == 1) if (section("cold")) { auto p = pool_of(30, 0); threads(p, r, 2, "cold"); count("cold starts"); sample("cold"); }
  // Fresh: what each call gives in a process of its own is what it gives after any history.
  if (!tsan && opt.shard % 2 == 0 && section("fresh")) {
    std::vector<Op> all;
    for (long c = 0, n = scale(3, 6); c < n; c++) { auto p = pool_of(10, c ? (uint64_t)r.in(1, 1000000) : 0); for (auto& o : p) { progress++; set_cur("fresh process", o.kind, (long)o.seed); if (fresh(o, o.want)) { o.known = true; count("calls in a fresh process"); } else count("fresh process failed"); } all.insert(all.end(), p.begin(), p.end()); }
    if (counters["fresh process failed"]) { viol("fresh-crash", "a call in a fresh process did not give a result (%lu times)", (unsigned long)counters["fresh process failed"]); }
    histories(all, r, opt.thorough ? 40 : 12, "fresh"); sample("fresh");
  }
  if (section("early")) { before_main(); sample("early"); }
  if (!tsan && section("history")) {
    long n = scale(40, 10);
    for (long c = 0; c < n; c++) { auto p = pool_of(c % 4 == 0 ? 40 : 12, c % 4 == 0 ? 0 : (uint64_t)r.in(1, 100000000)); histories(p, r, c % 4 == 0 ? 4 : 8, "history"); count("pools of operations"); }
    sample("history");
  }
  if (!tsan && section("held")) { long n = scale(4000); each_res([&](auto s) { for (long i = 0; i < n; i++) held<decltype(s)>(r); }); cur.cls = ""; sample("held"); }
  if (!tsan && section("alike")) { alike_args(r); sample("alike"); }
  if (!tsan && section("endurance")) { endurance(); sample("endurance"); }
  if (section("threads")) {
    long n = tsan ? scale(6, 10) : scale(20, 10);
    for (long c = 0; c < n; c++) { auto p = pool_of(8, c % 3 ? (uint64_t)r.in(1, 100000000) : 0); for (auto& o : p) { errno = 0; o.want = exec(o); o.known = true; } threads(p, r, tsan ? 4 : 8, "threads"); }
    // one kind of operation in all threads: the same code at the same moment
    for (long c = 0, k = tsan ? 1 : scale(6, 10); c < k; c++) for (int kind = 0; kind < ops::NK; kind++) { std::vector<Op> p; for (int i = 0; i < (tsan ? 10 : 40); i++) { Op o = gen(r, c % 2 ? (uint64_t)r.in(1, 100000000) : 0); o.kind = kind; errno = 0; o.want = exec(o); o.known = true; p.push_back(o); } threads(p, r, tsan ? 2 : 25, "threads"); count("crowds on one operation"); }
    sample("threads");
  }
  if (section("shared")) { int n = (int)scale(tsan ? 20 : 60, 8); each_res([&](auto s) { shared<decltype(s)>(r, n); }); sample("shared"); }
  return finish();
}
