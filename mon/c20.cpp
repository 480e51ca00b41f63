// C20: floating-point views, against exact rationals in 113-bit arithmetic.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;
typedef __float128 f128;

/// |got - num/den| within k units in the last place of the exact value
static bool close(double got, i128 num, i128 den, double k, double floor_mag = 0) {
  f128 ex = (f128)num / (f128)den, e = (f128)got - ex; if (e < 0) e = -e;
  double mag = std::max(std::fabs((double)ex), floor_mag); double ulp = std::nextafter(mag, INFINITY) - mag;
  return e <= (f128)ulp * k;
}
template<class S> static void amount(long a) {
  CLS(S); set_cur("amount", a); const S x{a}; const long f = res<S>::f, D = day_units<S>();
  double d = x.fractional_days(), s = x.to_fractional_seconds();
  EXPECT(close(d, a, D, 3), "fractional_days", "fractional_days is %.17g", d);
  EXPECT(close(s, a, f, 3), "to_fractional_seconds", "to_fractional_seconds is %.17g", s);
  if (std::labs(a) < LONG_MAX) for (long b : {a + 1}) { const S y{b}; EXPECT(y.fractional_days() >= d, "fractional_days-monotone", "one unit later is %.17g < %.17g", y.fractional_days(), d); EXPECT(y.to_fractional_seconds() >= s, "to_fractional_seconds-monotone", "one unit later is %.17g < %.17g", y.to_fractional_seconds(), s); }
  if constexpr (std::is_same<S, milliseconds>::value) if (a >= 0) {
    double fr = -1; seconds q = x.resolve_sec(fr);
    EXPECT(fr >= 0 && fr < 1, "resolve_sec-fraction", "fraction %.17g", fr);
    EXPECT(close(fr, a % 1000, 1000, 3) && U(q) == a / 1000, "resolve_sec-recombine", "%ld + %.17g", U(q), fr); count("fractions split off");
  }
  EXPECT(U(x) == a, "operand-changed", "the amount changed"); judged(a != 0);
}
template<class S> static double instant(long m, long u) {
  CLS(S); set_cur("instant", m, u); const long D = day_units<S>();
  const datetime<S> t(modified_julian_day{m}, S{u}); double v = t.as_mjd();
  // the day and its fraction are each rounded: a few ulp of the larger of the two
  EXPECT(close(v, (i128)m * D + u, D, 3, 1.0), "datetime-as_mjd", "as_mjd is %.17g", v);
  const datetime_interval<S> iv{modified_julian_day{m}, S{u}}; EXPECT(iv.as_mjd() == v || close(iv.as_mjd(), (i128)m * D + u, D, 3, 1.0), "interval-as_mjd", "as_mjd is %.17g", iv.as_mjd());
  judged(); return v;
}
/// the Julian Day of a day: MJD + 2400000.5, and never smaller for a later day
static void julian(long m) {
  CLS(seconds); set_cur("julian day", m); const modified_julian_day d{m}; const double j = d.to_julian_day();
  EXPECT(close(j, (i128)m * 2 + 4800001, 2, 3, 1.0), "julian-day", "to_julian_day is %.17g", j);
  if (m > -(1L << 50) && m < 1L << 50) EXPECT(j == (double)m + 2400000.5, "julian-day-exact", "to_julian_day is %.17g, the day is a sum a double holds", j);
  const double k = modified_julian_day{m + 1}.to_julian_day(); EXPECT(k >= j, "julian-day-monotone", "the next day has %.17g after %.17g", k, j);
  EXPECT(U(d) == m, "operand-changed", "the day changed"); judged(m != 0); count("julian days");
}
template<class S> static void later(long m, long u, long m2, long u2) {       // (m,u) <= (m2,u2)
  double a = instant<S>(m, u), b = instant<S>(m2, u2); set_cur("pair", m, u, m2, u2);
  EXPECT(a <= b, "as_mjd-monotone", "the later one has the smaller date: %.17g then %.17g", a, b);
  const datetime_interval<S> x{modified_julian_day{m}, S{u}}, y{modified_julian_day{m2}, S{u2}}; EXPECT(x.as_mjd() <= y.as_mjd(), "interval-monotone", "%.17g then %.17g", x.as_mjd(), y.as_mjd());
  count("ordered pairs"); judged();
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("amounts")) { Rng r = rng_for("amounts"); long n = scale(300000);
    each_res([&](auto s) { using S = decltype(s);
      for (long a = -2000; a <= 90000; a++) amount<S>(a);
      for (int b = 0; b < 63; b++) for (long e = -2; e <= 2; e++) { amount<S>((1L << b) + e); amount<S>(-(1L << b) - e); }
      for (long i = 0; i < n; i++) amount<S>(gen_amount<S>(r, LONG_MAX)); sample("amounts"); }); }
  if (section("instants")) { Rng r = rng_for("instants"); long n = scale(200000);
    each_res([&](auto s) { using S = decltype(s); const long D = day_units<S>();
      for (long m : {-2431640L, -678575L, -1L, 0L, 1L, 51544L, 57754L, 2973849L}) for (long u : {0L, 1L, 2L, D / 4, D / 2 - 1, D / 2, D / 2 + 1, D - 2, D - 1}) { if (u < D - 1) later<S>(m, u, m, u + 1); later<S>(m, u, m + 1, 0); later<S>(m, D - 1, m + 1, u); }
      for (long i = 0; i < n; i++) { long m = gen_mjd(r, -1000000000L, 1000000000L), u = gen_tod<S>(r); long m2 = m, u2 = u;
        switch (r.in(0, 3)) { case 0: u2 = std::min(D - 1, u + r.in(0, 3)); break; case 1: m2 = m + r.in(0, 2); u2 = m2 == m ? std::max(u, gen_tod<S>(r)) : gen_tod<S>(r); break; case 2: m2 = m + r.logu(1000000000L); u2 = m2 == m ? u : gen_tod<S>(r); break; default: { long k = std::min(r.in(1, 400) * res<S>::f, D - 1 - u); u2 = u + k; } }
        later<S>(m, u, m2, u2); } sample("instants"); });
    if (r.chance(100)) for (long sec = 0; sec < 86399; sec++) later<seconds>(57754, sec, 57754, sec + 1); }
  if (section("julian")) { Rng r = rng_for("julian"); const long n = scale(400000);
    for (long m = -700000; m <= (opt.thorough ? 3000000 : 400000); m++) if (mine(m)) julian(m);
    for (int b = 0; b < 62; b++) for (long e = -3; e <= 3; e++) { julian((1L << b) + e); julian(-(1L << b) - e); }
    for (long i = 0; i < n; i++) julian(gen_mjd(r, -4000000000000000000L, 4000000000000000000L));
    alike(r, -4000000000000000000L, 4000000000000000000L, scale(20000), julian); sample("julian"); }
  if (section("sweep")) { long st = opt.thorough ? 1 : 29;     // as_mjd along every millisecond of a day
    for (long u = 0; u + st < 86400000; u += st) later<milliseconds>(57754, u, 57754, u + st); sample("sweep"); }
  if (section("alike")) { Rng r = rng_for("alike"); each_res([&](auto s) { using S = decltype(s); alike(r, -LONG_MAX, LONG_MAX, scale(20000), [](long a) { amount<S>(a); }); long u = 0; alike(r, -1000000000000L, 1000000000000L, scale(20000), [&](long m) { if (r.chance(10)) u = gen_tod<S>(r); instant<S>(m, u); }); alike(r, 0, day_units<S>() - 1, scale(20000), [](long v) { instant<S>(57754, v); }); sample("alike"); }); }
  return finish();
}
