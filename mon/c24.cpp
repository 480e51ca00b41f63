// C24: bounded work, bounded stack and no memory left behind, whatever the magnitude of the arguments.
// Built with -fsanitize-coverage=trace-pc: every basic block executed between on() and off() is a step.
#define NOCOV __attribute__((no_sanitize_coverage))
#include "ops.hpp"
#include "heap.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

namespace meter {
static bool live = false; static uint64_t steps = 0; static char* base = nullptr; static char* low = nullptr;
static constexpr uint64_t RUNAWAY = 60000000;
NOCOV static inline void charge(size_t n) { if (!live) return; steps += n; if (steps > RUNAWAY) { live = false; flush_log(); die("HANG", 2); } }
}
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() {
  if (!meter::live) return;
  char* here = (char*)__builtin_frame_address(0); if (here < meter::low) meter::low = here;
  meter::charge(1);
}
// Scans of the C library are charged by their length (these stand in for it, for the library under test and for libstdc++).
#define PLAIN NOCOV __attribute__((optimize("O2", "no-tree-loop-distribute-patterns")))
PLAIN size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; meter::charge(n / 8); return n; }
void* metered_memchr(const void*, int, size_t) asm("memchr");
PLAIN void* metered_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; size_t i = 0; for (; i < n; i++) if (s[i] == (unsigned char)c) break; meter::charge(i / 8); return i < n ? (void*)(s + i) : nullptr; }
PLAIN void* memcpy(void* d, const void* s, size_t n) { meter::charge(n / 8); void* to = d; asm volatile("rep movsb" : "+D"(to), "+S"(s), "+c"(n) : : "memory"); return d; }
}
struct Use { uint64_t steps = 0, bytes = 0; long net = 0; size_t stack = 0; bool threw = false; };
template<class F> __attribute__((noinline)) static Use once(F&& f) {
  Use u; meter::steps = 0; heap::bytes = 0; heap::net = 0; meter::base = meter::low = (char*)__builtin_frame_address(0); meter::live = heap::live = true;
  try { f(); } catch (const std::exception&) { u.threw = true; }
  meter::live = heap::live = false; u.steps = meter::steps; u.bytes = heap::bytes; u.net = heap::net; u.stack = (size_t)(meter::base - meter::low); return u;
}
static std::map<std::string, uint64_t> most_steps, most_bytes; static uint64_t most_stack = 0, calls = 0, threw = 0;
/// What the calls of one name have left behind so far, by the number of different calls made: memory that is kept
/// once for every new argument (a table that never forgets) grows as fast in the second half of them as in the first.
struct Kept { std::vector<long> after; long sum = 0; }; static std::map<std::string, Kept> kept;
static void judge_kept() {
  for (auto& m : kept) { const std::vector<long>& v = m.second.after; if (v.size() < 500) continue; long half = v[v.size() / 2], all = v.back(); set_cur("all calls together", (long)v.size());
    EXPECT(!(all - half > 32768 && all - half > half / 3), "grows:" + m.first, "after %ld different calls of %s %ld bytes are kept, after half of them %ld", (long)v.size(), m.first.c_str(), all, half); count("operations watched for growth"); judged(); }
}
/// Run f (the same call each time) and judge what it used; len: length of the text it is given.
template<class F> static void use(const char* name, F&& f, size_t len = 0, uint64_t limit = 20000) {
  Use a = once(f), b = once(f), c = once(f); uint64_t L = len;
  std::string k = name;
  EXPECT(c.steps <= limit + 200 * L, "steps:" + k, "%lu steps for a text of %lu characters", (unsigned long)c.steps, (unsigned long)L);
  EXPECT(c.bytes <= 20000 + 64 * L, "bytes:" + k, "%lu bytes allocated for a text of %lu characters", (unsigned long)c.bytes, (unsigned long)L);
  EXPECT(c.stack <= 65536, "stack:" + k, "%lu bytes of stack", (unsigned long)c.stack);
  EXPECT(!(b.net > 0 && c.net > 0), "leak:" + k, "every call leaves %ld bytes behind%s", c.net, c.threw ? " (it ends by an exception)" : "");
  EXPECT(a.threw == c.threw, "outcome:" + k, "the same call ends by an exception only sometimes");
  Kept& g = kept[k]; g.sum += a.net + b.net + c.net; g.after.push_back(g.sum);
  auto& m = most_steps[k]; if (c.steps > m && !L) m = c.steps; auto& n = most_bytes[k]; if (c.bytes > n && !L) n = c.bytes; if (c.stack > most_stack) most_stack = c.stack; calls += 3; threw += c.threw; judged();
}
template<class T> static void keep(const T& v) { asm volatile("" : : "g"(&v) : "memory"); }

/// magnitudes: small, powers of ten, random over all scales, and the limits
static long mag(Rng& r, long max) {
  long v; switch (r.in(0, 5)) { case 0: v = max - r.in(0, 3); break; case 1: v = r.in(0, 100); break; case 2: { v = 1; for (int k = (int)r.in(0, 18); k > 0 && v <= max / 10; k--) v *= 10; break; } case 3: v = max / 2; break; default: v = r.logu(max); }
  return v;
}
static long smag(Rng& r, long max) { long v = mag(r, max); return r.chance(50) ? -v : v; }

template<class S> static void times(Rng& r) {
  CLS(S); const long cap = cap_days<S>() - 4; const long max = LONG_MAX - 2 * day_units<S>();
  { long v = smag(r, max), d = smag(r, 1000000000L); set_cur("normalize", d, v); use("datetime(mjd, time)", [&] { datetime<S> t(modified_julian_day{d}, S{v}); keep(t); }); use("interval(days, time)", [&] { datetime_interval<S> t(modified_julian_day{d}, S{v}); keep(t); }); }
  { long v = mag(r, max), w = mag(r, 100000000L); set_cur("gps", w, v); use("datetime(gps week, time)", [&] { datetime<S> t(gps_week{w}, S{v}); keep(t); long s; keep(t.as_gps_wsow(s)); S x{0}; keep(t.as_gps_wsow(x)); keep(day_of_week(x)); }); }
  { int h = (int)smag(r, INT_MAX), m = (int)smag(r, INT_MAX); long d = smag(r, 1000000000L); if ((i128)(h < 0 ? -(i128)h : h) * 3600 * res<S>::f + (i128)(m < 0 ? -(i128)m : m) * 60 * res<S>::f < (i128)max / 2) { set_cur("hours and minutes", d, h, m); use("datetime(mjd, h, m, s)", [&] { datetime<S> t(modified_julian_day{d}, hours{h}, minutes{m}, S{0}); keep(t); }); } }
  { long y = smag(r, 4000000); if (y < -4700) y = -y; int mo = (int)r.in(1, 12), dd = (int)r.in(1, 28), doy = (int)r.in(1, 365); set_cur("date", y, mo, dd, doy);
    use("datetime(calendar)", [&] { datetime<S> t(year{(int)y}, month{mo}, day_of_month{dd}, S{1}); keep(t.as_ymd()); keep(t.as_ydoy()); keep(t.as_mjd()); keep(t.as_hmsf()); });
    use("datetime(day of year)", [&] { datetime<S> t(year{(int)y}, day_of_year{doy}, hours{1}, minutes{2}, S{3}); keep(t); }); }
  { long base = smag(r, 1000000000L), tod = gen_tod<S>(r), v = smag(r, max - day_units<S>()); set_cur("add", base, tod, v);
    use("add_seconds", [&] { datetime<S> t(modified_julian_day{base}, S{tod}); t.add_seconds(S{v}); keep(t); }); use("remove_seconds", [&] { datetime<S> t(modified_julian_day{base}, S{tod}); t.remove_seconds(S{v}); keep(t); });
    long d2 = smag(r, 1000000000L), u2 = gen_tod<S>(r); set_cur("add interval", base, tod, d2, u2); use("add interval", [&] { datetime<S> t(modified_julian_day{base}, S{tod}); t += datetime_interval<S>{modified_julian_day{d2}, S{u2}}; keep(t); const modified_julian_day md{d2}; const S ms{u2}; keep(t.template add<S>(md, ms)); }); }
  each_res([&](auto x) { using T = decltype(x); long v = smag(r, LONG_MAX / 1000000 / 2), base = smag(r, 1000000000L); set_cur("mixed", base, v, res<T>::f); use("add or remove another resolution", [&] { datetime<S> t(modified_julian_day{base}, S{5}); t.add_seconds(T{v}); t.remove_seconds(T{v / 3}); keep(t); });
    long c = std::min(cap_days<S>(), cap_days<T>()) / 4, a = smag(r, c), b = smag(r, c); set_cur("difference", a, b, res<T>::f); use("delta_sec", [&] { datetime<S> p(modified_julian_day{a}, S{1}); datetime<T> q(modified_julian_day{b}, T{2}); keep(delta_sec(p, q)); }); use("cast_to", [&] { keep(ngpt::cast_to<S, T>(S{v / 1000})); keep(datetime<S>(modified_julian_day{a}, S{7}).template cast_to<T>()); }); });
  { long c = cap / 4, a = smag(r, c), b = smag(r, c); set_cur("delta_date", a, b); use("delta_date", [&] { datetime<S> p(modified_julian_day{a}, S{1}), q(modified_julian_day{b}, S{2}); keep(p.delta_date(q)); keep(p < q); keep(p == q); keep(p >= q); }); }
  { long v = mag(r, std::min(max, (long)INT_MAX * 3600 * res<S>::f)); set_cur("split", v); use("to_hmsf", [&] { S x{v}; keep(x.to_hmsf()); keep(x.to_days()); keep(x.fractional_days()); keep(x.to_fractional_seconds()); keep(x.more_than_day()); }); use("remove_days", [&] { S x{v}; keep(x.remove_days()); keep(x); }); }
  { long d = mag(r, cap), u = gen_tod<S>(r); int q = (int)std::max(1L, mag(r, INT_MAX)); set_cur("divide", d, u, q); use("interval / integer", [&] { datetime_interval<S> t(modified_julian_day{d}, S{u}); keep(t / q); keep(t.as_mjd()); }); }
  { long m = gen_mjd(r, mjd_of(0, 1, 1), mjd_of(9999, 12, 31)), u = gen_tod<S>(r); set_cur("write", m, u); use("writers", [&] { datetime<S> t(modified_julian_day{m}, S{u}); keep(strftime_ymd_hmfs(t)); keep(strftime_ymd_hms(t, '/')); keep(t.stringify()); }); }
  { long m = 41317 + mag(r, 1000000000L); set_cur("tai-utc", m); use("dat(datetime)", [&] { keep(dat(datetime<S>(modified_julian_day{m}, S{1}))); }); }
  { double f = (double)smag(r, 2000000000L) + 0.25; int h = (int)r.in(0, 23); set_cur("fractional", h); cur_d(f); if (f > 0) use("time from fractional seconds", [&] { keep(S{hours{h}, minutes{59}, f}); }); }
}
static void dates(Rng& r) {
  long m = smag(r, 1500000000L); if (m < mjd_lo()) m = -m; set_cur("to calendar", m);
  use("mjd to calendar", [&] { keep(modified_julian_day{m}.to_ymd()); keep(modified_julian_day{m}.to_ydoy()); keep(modified_julian_day{m}.to_julian_day()); });
  long y = smag(r, 4000000); if (y < -4700) y = -y; int mo = (int)r.in(-2, 15), d = (int)r.in(-3, 35); set_cur("calendar", y, mo, d);
  use("calendar to mjd", [&] { keep(cal2mjd(year{(int)y}, month{mo}, day_of_month{d})); });
  int doy = (int)r.in(1, 365); set_cur("day of year", y, doy); use("day of year to mjd", [&] { keep(ydoy2mjd(year{(int)y}, day_of_year{doy})); keep(ydoy_date{year{(int)y}, day_of_year{doy}}.to_ymd()); });
  int vm = (int)smag(r, INT_MAX), vd = (int)smag(r, INT_MAX), vy = (int)smag(r, INT_MAX); set_cur("validity", vy, vm, vd); use("is_valid", [&] { keep(month{vm}.is_valid()); keep(day_of_year{vd}.is_valid(year{vy})); keep(year{vy}.is_leap()); if (vm >= 1 && vm <= 12) keep(day_of_month{vd}.is_valid(year{vy}, month{vm})); });
  long my = 1972 + mag(r, INT_MAX - 1972L); set_cur("tai-utc", my); use("dat(year, month)", [&] { keep(dat(year{(int)my}, month{mo < 1 ? 1 : mo > 12 ? 12 : mo})); });
  long mm = 41317 + mag(r, LONG_MAX / 2); set_cur("tai-utc by mjd", mm); use("dat(mjd)", [&] { keep(dat(modified_julian_day{mm})); });
  int h = (int)mag(r, INT_MAX); set_cur("hours", h); use("hours and minutes removal", [&] { hours a{h}; keep(a.remove_days()); minutes b{h}; keep(b.remove_hours()); keep(a); keep(b); });
  long ms = smag(r, LONG_MAX - 1); set_cur("resolve_sec", ms); use("resolve_sec", [&] { double f; keep(milliseconds{ms}.resolve_sec(f)); keep(f); });
}
static void texts(Rng& r, long n) {
  static const size_t lens[] = {0, 1, 10, 100, 1000, 10000, 100000};
  for (long i = 0; i < n; i++) {
    int f = (int)r.in(0, NFMT - 1); Text t = gen_text(r, f); std::string s = t.str(); size_t extra = r.pick(lens); if (extra) extra += (size_t)r.in(0, (long)extra);
    switch (r.in(0, 8)) {
      case 0: s += " " + std::string(extra, 'x'); break;                          // a long tail
      case 1: s = std::string(extra, '0') + s; break;                             // long padding
      case 2: if (f >= YMD_HMS) s = t.body() + "." ; s += std::string(extra, '9'); break;
      case 3: s = std::string(extra, (char)r.in(1, 255)); break;
      case 4: s = s.substr(0, (size_t)r.in(0, (long)s.size())) + std::string(extra, ' ') + s; break;
      case 5: { size_t p = (size_t)r.in(0, (long)s.size()); s.insert(p, std::string(extra, (char)r.in('0', '9'))); break; }
      case 6: s = s.substr(0, (size_t)r.in(0, (long)s.size())); break;
      case 7: { size_t p = (size_t)r.in(0, (long)s.size()); s.insert(p, std::string(extra, r.chance(50) ? 'a' : '-')); break; }
      default: break;
    }
    s = s.c_str(); Exact x(s); set_cur(fmt_name(f), (long)s.size()); cur_s(x.p, x.len);
    each_res([&](auto v) { using S = decltype(v); CLS(S); use(fmt_name(f), [&] { char* stop = nullptr; keep(read<S>(f, x.p, i % 2 ? &stop : nullptr)); keep(stop); }, s.size()); });
    count("texts read"); if (s.size() >= 1000) count("texts of a thousand characters or more");
    std::string m = r.chance(40) ? std::string(months()[r.in(0, 11)]) + std::string(extra, 'a') : r.chance(50) ? std::string("September", (size_t)r.in(0, 9)) : s; m = m.c_str(); Exact w(m); set_cur("month", (long)m.size()); cur_s(w.p, w.len);
    use("month name", [&] { keep(month{w.p}); }, m.size(), 20000);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  // the instrument itself: a known number of steps, a leak and a deep stack are seen
  { volatile long n = 1000000; Use u = once([&] { for (long i = 0; i < n; i++) keep(i); }); if (u.steps < 900000) { fprintf(stderr, "steps are not counted\n"); return 9; }
    void* volatile p = nullptr; Use v = once([&] { p = malloc(1000); }); if (v.net < 1000) { fprintf(stderr, "allocations are not counted\n"); return 9; } free(p); }
  if (section("magnitudes")) {
    Rng r = rng_for("magnitudes"); long n = scale(30000);
    for (long i = 0; i < n; i++) { each_res([&](auto s) { times<decltype(s)>(r); }); dates(r); }
    sample("magnitudes");
  }
  if (section("texts")) { Rng r = rng_for("texts"); texts(r, scale(20000)); sample("texts"); }
  if (section("operations")) {         // any of the seeded operations: nothing is left behind
    Rng r = rng_for("operations"); long n = scale(4000);
    for (long i = 0; i < n; i++) for (int k = 0; k < ops::NK; k++) { uint64_t seed = (uint64_t)r.in(0, 0xffffffffL); set_cur(ops::kinds[k].name, k, (long)seed); use(ops::kinds[k].name, [&] { keep(ops::run(k, seed)); }, 0, 200000); count("seeded operations"); }
    sample("operations");
  }
  judge_kept();
  count("calls metered", calls); count("calls that ended by an exception", threw);
  uint64_t top = 0; std::string who; for (auto& m : most_steps) if (m.second > top) { top = m.second; who = m.first; }
  for (auto& m : most_steps) counters["largest steps in one call of " + m.first] = m.second;
  counters["largest stack in bytes"] = most_stack; for (auto& m : most_bytes) if (m.second) counters["largest allocation in bytes by " + m.first] = m.second;
  return finish();
}
