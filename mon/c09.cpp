// C09: conversions between resolutions.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class A, class B> static i128 conv(long a) {   // exact up, toward zero down
  if (res<B>::f >= res<A>::f) return (i128)a * (res<B>::f / res<A>::f);
  return a / (res<A>::f / res<B>::f);
}
template<class A, class B> static void one(long a) {
  i128 want = conv<A, B>(a);
  if (!fits_long(want)) return;
  CLS(A); set_cur("amount", a, res<A>::f, res<B>::f);
  const A x{a};
  B y = cast_to<A, B>(x);
  EXPECT(U(y) == want, "cast_to", "cast_to gives %ld, expected %s", U(y), i128s(want).c_str());
  if constexpr (std::is_constructible<B, A>::value) {     // the explicit conversion operators
    B z = static_cast<B>(x);
    EXPECT(U(z) == want, "static_cast", "explicit conversion gives %ld, expected %s", U(z), i128s(want).c_str());
    B w(x); EXPECT(U(w) == want, "direct-init", "B(a) gives %ld, expected %s", U(w), i128s(want).c_str());
    count("explicit conversions");
  }
  if (res<B>::f >= res<A>::f) {
    A back = cast_to<B, A>(y);
    EXPECT(U(back) == a, "refine-back", "refining and converting back gives %ld", U(back));
    count("exact (finer) conversions");
  } else count(a % (res<A>::f / res<B>::f) ? "truncating conversions" : "coarser conversions of whole units");
  EXPECT(U(x) == a, "operand-changed", "the operand changed");
  judged(a != 0);
}
template<class A, class B> static void dt(long mjd, long u) {
  CLS(A); set_cur("datetime", mjd, u, res<A>::f, res<B>::f);
  const datetime<A> t(modified_julian_day{mjd}, A{u});
  datetime<B> v = t.template cast_to<B>();
  i128 want = conv<A, B>(u);
  EXPECT(U(v.mjd()) == mjd, "datetime-date", "the conversion moved the date to %ld", U(v.mjd()));
  EXPECT(U(v.sec()) == want, "datetime-time", "the time of day became %ld, expected %s", U(v.sec()), i128s(want).c_str());
  ymd_date p = t.as_ymd(), q = v.as_ymd();
  EXPECT(p.__year == q.__year && p.__month == q.__month && p.__dom == q.__dom, "datetime-ymd", "the calendar date changed");
  if (res<B>::f >= res<A>::f) {
    EXPECT(v.template cast_to<A>() == t, "datetime-refine-back", "refining and converting back is not the identity");
  } else {
    i128 d = total(t) - total(v) * (res<A>::f / res<B>::f);     // never forward, never a whole unit
    EXPECT(d >= 0 && d < res<A>::f / res<B>::f, "datetime-coarsen", "coarsening moved the instant by %s", i128s(-d).c_str());
  }
  EXPECT(U(t.mjd()) == mjd && U(t.sec()) == u, "operand-changed", "the operand changed");
  judged();
}
template<class F> static void each_pair(F f) { each_res([&](auto a) { each_res([&](auto b) { f(a, b); }); }); }

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("small")) {
    long lim = opt.thorough ? 3000000 : 200000;
    each_pair([&](auto a, auto b) { using A = decltype(a); using B = decltype(b); for (long v = -lim; v <= lim; v++) if (mine(v)) one<A, B>(v); });
    sample("small");
  }
  if (section("boundaries")) {
    each_pair([&](auto a, auto b) { using A = decltype(a); using B = decltype(b);
      const long k = res<A>::f > res<B>::f ? res<A>::f / res<B>::f : res<B>::f / res<A>::f;
      for (int bit = 0; bit < 63; bit++) for (long e = -3; e <= 3; e++) for (long m : {1L, k}) { i128 v = (i128)(1L << bit) * m + e; if (fits_long(v)) { one<A, B>((long)v); one<A, B>(-(long)v); } }
      for (long e = 0; e < 50; e++) { one<A, B>(LONG_MAX - e); one<A, B>(-(LONG_MAX - e)); one<A, B>(LONG_MAX / k - e); one<A, B>(-(LONG_MAX / k) + e); }
      one<A, B>(LONG_MIN + 1); });
    each_res([&](auto a) { using A = decltype(a); CLS(A); const long f = res<A>::f; const long md = A::max_in_day; set_cur("scale of the unit", f);
      EXPECT(md == day_units<A>(), "max_in_day", "a day has %ld units", md); EXPECT(A::template sec_factor<long>() == f && A::template sec_factor<int>() == f && A::template sec_factor<double>() == (double)f && A::template sec_factor<float>() == (float)f, "sec_factor", "a second has %ld units", A::template sec_factor<long>()); judged(); });
    // the most negative amount, where it stays representable
    set_cur("amount", LONG_MIN); EXPECT(U(cast_to<microseconds, seconds>(microseconds{LONG_MIN})) == LONG_MIN / 1000000 && U(cast_to<microseconds, microseconds>(microseconds{LONG_MIN})) == LONG_MIN, "cast_to", "wrong for the most negative amount"); judged();
    sample("boundaries");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(120000);
    each_pair([&](auto a, auto b) { using A = decltype(a); using B = decltype(b);
      for (long i = 0; i < n; i++) { one<A, B>(gen_amount<A>(r, LONG_MAX)); one<A, B>(gen_amount<A>(r, LONG_MAX / 1000000)); } sample("random"); });
  }
  if (section("datetime")) {
    Rng r = rng_for("datetime"); long n = scale(60000);
    each_pair([&](auto a, auto b) { using A = decltype(a); using B = decltype(b); const long D = day_units<A>();
      for (long m : {-678575L, -1L, 0L, 1L, 57754L}) for (long u : {0L, 1L, 2L, 998L, 999L, 1000L, 1001L, 999999L, 1000000L, D / 2, D - 1000, D - 999, D - 2, D - 1}) if (u >= 0 && u < D) dt<A, B>(m, u);
      for (long i = 0; i < n; i++) dt<A, B>(gen_mjd(r, mjd_lo(), 100000000), gen_tod<A>(r)); });
    for (long u = 0; u < 86400; u++) { dt<seconds, milliseconds>(57754, u); dt<seconds, microseconds>(57754, u); dt<milliseconds, seconds>(57754, u * 1000 + 999); dt<microseconds, milliseconds>(57754, u * 1000000 + 999999); }
    if (opt.thorough) for (long u = 0; u < 86400000; u++) if (mine(u)) dt<milliseconds, seconds>(57754, u);
    sample("datetime");
  }
  if (section("alike")) { Rng r = rng_for("alike"); each_pair([&](auto a, auto b) { using A = decltype(a); using B = decltype(b); alike(r, -LONG_MAX, LONG_MAX, scale(8000), [](long x) { one<A, B>(x); }); long u = 0; alike(r, mjd_lo(), 100000000000L, scale(8000), [&](long m) { if (r.chance(10)) u = gen_tod<A>(r); dt<A, B>(m, u); }); alike(r, 0, day_units<A>() - 1, scale(8000), [](long x) { dt<A, B>(57754, x); }); sample("alike"); }); }
  return finish();
}
