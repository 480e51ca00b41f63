// One operation of the public interface = (kind, argument seed) -> result text.
// The arguments come from the seed alone (oracle generators, no library code),
// so the same operation can be repeated in any order, after any history, in
// any thread, in any process and in any build, and the results compared.
// Only valid arguments (and strings of any kind); nothing here reports, counts
// or shares state, so it may run in any thread.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "text.hpp"
namespace ops {
using namespace ngpt; using namespace orc; using mon::Rng; using mon::i128;

struct Out {
  std::string s;
  Out& operator<<(long v) { char b[32]; s.append(b, (size_t)snprintf(b, sizeof b, "%ld;", v)); return *this; }
  Out& operator<<(int v) { return *this << (long)v; }
  Out& operator<<(bool v) { return *this << (long)v; }
  Out& operator<<(double d) { uint64_t u; memcpy(&u, &d, 8); char b[32]; s.append(b, (size_t)snprintf(b, sizeof b, "d%016lx;", (unsigned long)u)); return *this; }
  Out& operator<<(const std::string& v) { s += '"'; s += v; s += "\";"; return *this; }
  Out& operator<<(const char* v) { return *this << std::string(v); }
  template<class S> Out& operator<<(const datetime<S>& t) { return *this << U(t.mjd()) << U(t.sec()); }
  template<class S> Out& operator<<(const datetime_interval<S>& t) { return *this << U(t.days()) << U(t.sec()); }
  Out& operator<<(const ymd_date& d) { return *this << U(d.__year) << U(d.__month) << U(d.__dom); }
  Out& operator<<(const ydoy_date& d) { return *this << U(d.__year) << U(d.__doy); }
};
template<class F> void guarded(Out& o, F f) {
  try { f(); } catch (const std::invalid_argument& e) { message(e); o << "invalid_argument"; } catch (const std::exception& e) { message(e); o << "exception"; }
}

struct Arg { long mjd, y; int m, d, doy; };
inline Arg arg_day(Rng& r, long lo = 0, long hi = 0) {
  if (!lo && !hi) { lo = mjd_lo(); hi = 4000000; }
  long m = gen_mjd(r, lo, hi); Ymd c = civil(m); return {m, c.y, c.m, c.d, c.doy};
}
template<class F> void one_res(Rng& r, F f) {
  switch (r.in(0, 2)) { case 0: f(seconds{0}); break; case 1: f(milliseconds{0}); break; default: f(microseconds{0}); }
}

inline void k_cal(Rng& r, Out& o) { Arg a = arg_day(r); o << U(cal2mjd(year{(int)a.y}, month{a.m}, day_of_month{a.d})) << is_leap((int)a.y) << year{(int)a.y}.is_leap() << U(modified_julian_day{year{(int)a.y}, month{a.m}, day_of_month{a.d}}); }
inline void k_calbad(Rng& r, Out& o) {
  int y = (int)r.in(-4799, 12000), m, d;
  if (r.chance(50)) { m = r.chance(50) ? (int)r.in(13, 200) : (int)-r.in(0, 200); d = (int)r.in(-3, 40); }
  else { m = (int)r.in(1, 12); d = r.chance(60) ? mdays(y, m) + (int)r.in(1, 5) : (int)-r.in(0, 5); }
  guarded(o, [&] { o << U(cal2mjd(year{y}, month{m}, day_of_month{d})); });
  guarded(o, [&] { o << datetime<milliseconds>(year{y}, month{m}, day_of_month{d}); });
  guarded(o, [&] { o << datetime<seconds>(year{y}, month{m}, day_of_month{d}, hours{1}, minutes{2}, seconds{3}); });
}
inline void k_back(Rng& r, Out& o) { Arg a = arg_day(r); const modified_julian_day m{a.mjd}; o << m.to_ymd() << m.to_ydoy() << m.to_julian_day(); }
inline void k_doy(Rng& r, Out& o) { Arg a = arg_day(r); o << U(ydoy2mjd(year{(int)a.y}, day_of_year{a.doy})) << ymd_date{year{(int)a.y}, month{a.m}, day_of_month{a.d}}.to_ydoy() << ydoy_date{year{(int)a.y}, day_of_year{a.doy}}.to_ymd() << U(modified_julian_day{year{(int)a.y}, day_of_year{a.doy}}); }
inline void k_valid(Rng& r, Out& o) {
  int y = (int)r.in(-4799, 12000), m = (int)r.in(-2, 15), d = (int)r.in(-3, 34), n = (int)r.in(-2, 369);
  o << month{m}.is_valid() << day_of_month{d}.is_valid(year{y}, month{m}) << day_of_year{n}.is_valid(year{y}) << ymd_date{year{y}, month{m}, day_of_month{d}}.is_valid() << ydoy_date{year{y}, day_of_year{n}}.is_valid() << gps_week{r.in(-3, 3)}.is_valid();
}
inline void k_dat(Rng& r, Out& o) {
  Arg a = arg_day(r, 41317, r.chance(80) ? 60000 : 4000000);
  if (r.chance(50)) { const Leap& l = r.pick(leaps()); long m = std::max(41317L, mjd_of(l.y, l.m, 1) + r.in(-2, 2)); Ymd c = civil(m); a = {m, c.y, c.m, c.d, c.doy}; }
  o << dat(year{(int)a.y}, month{a.m}) << dat(modified_julian_day{a.mjd});
  one_res(r, [&](auto s) { using S = decltype(s); o << dat(datetime<S>{modified_julian_day{a.mjd}, S{gen_tod<S>(r)}}); });
}
inline void k_month(Rng& r, Out& o) {
  int m = (int)r.in(1, 12); o << month{m}.short_name() << month{m}.long_name();
  std::string n = r.chance(50) ? month{m}.short_name() : month{m}.long_name();
  for (char& c : n) if (r.chance(50)) c = (char)(c & ~0x20); else if (r.chance(50)) c = (char)(c | 0x20);
  if (r.chance(40)) { if (r.chance(50)) n += (char)r.in(1, 255); else if (n.size() > 1) n.erase((size_t)r.in(0, (long)n.size() - 1), 1); }
  guarded(o, [&] { o << U(month{n.c_str()}); });
}
template<class S> void look(Out& o, const datetime<S>& t) {
  o << t << t.as_ymd() << t.as_ydoy() << t.as_mjd() << t.sec_as_i();
  auto h = t.as_hmsf(); o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << std::get<3>(h);
}
inline void k_ctor(Rng& r, Out& o) {
  one_res(r, [&](auto s) { using S = decltype(s); Arg a = arg_day(r); const year y{(int)a.y}; const month m{a.m}; const day_of_month d{a.d}; const day_of_year n{a.doy};
    S x{gen_amount<S>(r, LONG_MAX)}, t{gen_tod<S>(r)}; hours h{(int)r.in(-2, 60)}; minutes mn{(int)r.in(-70, 130)};
    switch (r.in(0, 6)) {
      case 0: look(o, datetime<S>(y, m, d, t)); break;
      case 1: look(o, datetime<S>(y, n, t)); break;
      case 2: look(o, datetime<S>(y, m, d, h, mn, t)); break;
      case 3: look(o, datetime<S>(y, n, h, mn, t)); break;
      case 4: o << datetime<S>(modified_julian_day{a.mjd}, x); break;
      case 5: look(o, datetime<S>(modified_julian_day{a.mjd}, h, mn, t)); break;
      default: o << datetime_interval<S>{modified_julian_day{a.mjd}, x} << datetime<S>{gps_week{r.in(0, 5000)}, x};
    } });
}
inline void k_addrem(Rng& r, Out& o) {
  one_res(r, [&](auto s) { using S = decltype(s); datetime<S> t{modified_julian_day{arg_day(r).mjd}, S{gen_tod<S>(r)}};
    for (int i = 0; i < 4; i++) one_res(r, [&](auto v) { using T = decltype(v);
      T a{gen_amount<T>(r, 1000000000000L)};
      if (r.chance(50)) t.add_seconds(a); else t.remove_seconds(a); o << t; });
    const datetime_interval<S> iv{modified_julian_day{r.in(-5000, 5000)}, S{gen_amount<S>(r, 1000000000000L)}}; t += iv; const modified_julian_day dd{r.in(-99, 99)}; const S ds{gen_tod<S>(r)}; o << t << t.template add<S>(dd, ds) << t; });
}
inline void k_delta(Rng& r, Out& o) {
  one_res(r, [&](auto s) { one_res(r, [&](auto v) { using S = decltype(s); using T = decltype(v); const long c = 40000000;
    const datetime<S> a{modified_julian_day{arg_day(r, -c, c).mjd}, S{gen_tod<S>(r)}}; const datetime<T> b{modified_julian_day{r.chance(50) ? U(a.mjd()) + r.in(-1, 1) : arg_day(r, -c, c).mjd}, T{gen_tod<T>(r)}};
    o << U(delta_sec(a, b)); if constexpr (std::is_same<S, T>::value) o << delta_date(a, b) << a.delta_date(b) << U(a.delta_sec(b)) << (a < b) << (a <= b) << (a > b) << (a >= b) << (a == b) << (a != b);
    o << U(mjd_sec_diff<S>(a.mjd(), b.mjd())); }); });
}
inline void k_cast(Rng& r, Out& o) {
  one_res(r, [&](auto s) { one_res(r, [&](auto v) { using S = decltype(s); using T = decltype(v);
    o << U(ngpt::cast_to<S, T>(S{gen_amount<S>(r, LONG_MAX / 1000000)})) << datetime<S>{modified_julian_day{arg_day(r).mjd}, S{gen_tod<S>(r)}}.template cast_to<T>(); }); });
  o << U(static_cast<seconds>(milliseconds{r.logu(LONG_MAX)})) << U(static_cast<milliseconds>(microseconds{r.logu(LONG_MAX)})) << U(static_cast<seconds>(microseconds{r.logu(LONG_MAX)}));
}
inline void k_split(Rng& r, Out& o) {
  one_res(r, [&](auto s) { using S = decltype(s); S x{gen_amount<S>(r, (long)INT_MAX * 3600, false)};
    auto h = x.to_hmsf(); o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << std::get<3>(h) << x.more_than_day() << x.to_days() << x.fractional_days() << x.to_fractional_seconds();
    if constexpr (std::is_same<S, milliseconds>::value) { double f = 0; o << U(x.resolve_sec(f)) << f; }
    o << x.remove_days() << U(x); });
  hours h{(int)r.logu(INT_MAX)}; o << h.remove_days() << U(h); minutes m{(int)r.logu(INT_MAX)}; o << U(m.remove_hours()) << U(m);
}
inline void k_interval(Rng& r, Out& o) {
  one_res(r, [&](auto s) { using S = decltype(s); const long c = cap_days<S>() - 2;
    const datetime_interval<S> a{modified_julian_day{r.logu(std::min(c, 100000000L))}, S{gen_tod<S>(r)}}, b{modified_julian_day{r.chance(50) ? U(a.days()) : r.in(0, 9999)}, S{gen_tod<S>(r)}};
    o << a << b << a / (int)(1 + r.logu(INT_MAX - 1)) << (a < b) << (a <= b) << (a > b) << (a >= b) << (a == b) << (a != b) << a.as_mjd(); });
}
inline void k_fsec(Rng& r, Out& o) {
  double f = r.chance(50) ? (double)r.in(0, 59999) / 1000.0 : (double)r.in(0, 59999999) / 1e6; hours h{(int)r.in(0, 23)}; minutes m{(int)r.in(0, 59)};
  o << U(seconds{h, m, f}) << U(milliseconds{h, m, f}) << U(microseconds{h, m, f});
  Arg a = arg_day(r); o << datetime<milliseconds>(year{(int)a.y}, month{a.m}, day_of_month{a.d}, h, m, f) << datetime<microseconds>(year{(int)a.y}, day_of_year{a.doy}, h, m, f);
}
inline void k_gps(Rng& r, Out& o) {
  one_res(r, [&](auto s) { using S = decltype(s); const datetime<S> t{modified_julian_day{arg_day(r, 44244, 3000000).mjd}, S{gen_tod<S>(r)}};
    long l = 0; o << U(t.as_gps_wsow(l)) << l; S x{0}; gps_week w = t.as_gps_wsow(x); o << U(w) << U(x) << day_of_week(x) << datetime<S>(w, x); });
}
/// a string: well formed, cut, or with a few bytes changed
inline std::string any_text(Rng& r, int fmt) {
  std::string s = txt::gen_text(r, fmt).str();
  switch (r.in(0, 9)) {
    case 0: s.resize((size_t)r.in(0, (long)s.size())); break;
    case 1: if (!s.empty()) s[(size_t)r.in(0, (long)s.size() - 1)] = (char)r.in(1, 255); break;
    case 2: if (!s.empty()) s.erase((size_t)r.in(0, (long)s.size() - 1), 1); break;
    case 3: { static const char* w[] = {"99999999999999999999", "nan", "inf", "1e400", "0x10", "-", "", " ", "1e-400", "4294967297", "-1", "2147483648"};
              size_t k = (size_t)r.in(0, (long)s.size()); s.insert(k, r.pick(w)); break; }
    default: break;
  }
  return s;
}
inline void read_op(Rng& r, Out& o, int fmt) {
  std::string s = any_text(r, fmt); txt::Exact heap(s);
  // half of the strings come from one buffer that is overwritten each time
  static thread_local char buf[400]; struct { char* p; } e{heap.p};
  if (r.chance(50) && s.size() < sizeof buf) { memcpy(buf, s.data(), s.size()); buf[s.size()] = 0; e.p = buf; }
  one_res(r, [&](auto v) { using S = decltype(v); char* stop;        // as a caller has it: not set
    bool ws = r.chance(70);
    guarded(o, [&] { o << txt::read<S>(fmt, e.p, ws ? &stop : nullptr); if (ws) o << (long)(stop - e.p); }); });
}
inline void k_r0(Rng& r, Out& o) { read_op(r, o, 0); }
inline void k_r1(Rng& r, Out& o) { read_op(r, o, 1); }
inline void k_r2(Rng& r, Out& o) { read_op(r, o, 2); }
inline void k_r3(Rng& r, Out& o) { read_op(r, o, 3); }
inline void k_r4(Rng& r, Out& o) { read_op(r, o, 4); }
inline void k_write(Rng& r, Out& o) {
  static const char del[] = {'-', '/', ' ', '.', ':', '_'};
  one_res(r, [&](auto s) { using S = decltype(s); const datetime<S> t{modified_julian_day{arg_day(r, mjd_of(0, 1, 1), mjd_of(9999, 12, 31)).mjd}, S{gen_tod<S>(r)}};
    char d = del[r.in(0, 5)]; o << strftime_ymd_hmfs(t, d) << strftime_ymd_hms(t, d) << t.stringify(); });
}
template<class T> void unit(Rng& r, Out& o) {
  long a0 = r.in(-1000000, 1000000), b0 = r.in(-1000000, 1000000); T a{(typename T::underlying_type)a0}, b{(typename T::underlying_type)b0};
  a += b; o << U(a); a -= b0 / 2; o << U(a); o << U(a++) << U(++a) << U(b--) << U(--b) << (a == b) << (a < b) << (a <= b) << (a > b) << (a >= b) << (a != b); a -= b; o << U(a) << U(b);
}
inline void k_unit(Rng& r, Out& o) { unit<year>(r, o); unit<month>(r, o); unit<gps_week>(r, o); unit<day_of_month>(r, o); unit<day_of_year>(r, o); unit<modified_julian_day>(r, o); unit<hours>(r, o); unit<minutes>(r, o); unit<seconds>(r, o); unit<milliseconds>(r, o); unit<microseconds>(r, o); }

struct Kind { const char* name; void (*f)(Rng&, Out&); };
inline const Kind kinds[] = {
  {"calendar to mjd", k_cal}, {"impossible dates", k_calbad}, {"mjd to calendar", k_back}, {"day of year", k_doy}, {"validity", k_valid}, {"tai-utc", k_dat}, {"month names", k_month},
  {"constructors and accessors", k_ctor}, {"add and remove", k_addrem}, {"differences and order", k_delta}, {"casts", k_cast}, {"splits", k_split}, {"intervals", k_interval},
  {"fractional seconds", k_fsec}, {"gps", k_gps}, {"strptime_ymd", k_r0}, {"strptime_ydoy", k_r1}, {"strptime_ymd_hms", k_r2}, {"strptime_yod_hms", k_r3}, {"strptime_ydoy_hms", k_r4},
  {"writers", k_write}, {"unit types", k_unit}};
constexpr int NK = sizeof kinds / sizeof kinds[0];

/// A seed with a nonzero upper half names a neighbourhood (see orc::Focus).
inline std::string run(int kind, uint64_t seed) {
  Rng r(seed * 64 + (uint64_t)kind); Out o;
  focus.on = false;
  if (uint64_t cl = seed >> 32) { Rng c(cl); long d = gen_mjd(c, -600000, 200000); if (c.chance(50)) d = c.in(41317, 60000); focus.day = d; focus.tod = gen_tod<seconds>(c); focus.on = true; }
  kinds[kind].f(r, o);
  focus.on = false; return o.s;
}
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
} // namespace ops
#endif
