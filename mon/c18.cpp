// C18: interval division is exact at the resolution.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static void one(long d, long u, int div) {
  CLS(S); set_cur("interval/div", d, u, div);
  const datetime_interval<S> iv{modified_julian_day{d}, S{u}}; const i128 tot = (i128)d * day_units<S>() + u, want = tot / div;
  datetime_interval<S> q = iv / div; i128 got = total(q);
  EXPECT(normalized<S>(q), "range", "quotient has time part %ld", U(q.sec()));
  EXPECT(got == want, "quotient", "quotient is %s units, exact is %s", i128s(got).c_str(), i128s(want).c_str());
  EXPECT(got * div <= tot && tot - got * div < div, "bound", "divisor times quotient is %s of %s", i128s(got * div).c_str(), i128s(tot).c_str());
  if (div == 1) EXPECT(q == iv, "by-one", "dividing by one changes the interval");
  EXPECT(total(iv) == tot, "operand-changed", "the dividend changed");
  // the same dividend, given with days in its time part or with a negative one
  for (long k : {-2L, 1L, 3L}) if (d + k >= 0 && (i128)u - (i128)k * day_units<S>() >= -(i128)LONG_MAX && (i128)u - (i128)k * day_units<S>() <= LONG_MAX) {
    const datetime_interval<S> w{modified_julian_day{d + k}, S{u - k * day_units<S>()}}; datetime_interval<S> x = w / div;
    EXPECT(normalized<S>(x) && total(x) == want, "quotient-other-parts", "given as %ld days %+ld it divides to %s, exact is %s", d + k, u - k * day_units<S>(), i128s(total(x)).c_str(), i128s(want).c_str());
  }
  // a multiple divides back exactly
  i128 m = want * div; long md, mu; if (m >= 0) { split<S>(m, md, mu); datetime_interval<S> k{modified_julian_day{md}, S{mu}}; datetime_interval<S> b = k / div; EXPECT(total(b) == want, "multiple", "a multiple divides back to %s, not %s", i128s(total(b)).c_str(), i128s(want).c_str()); }
  count(tot % div ? "truncated quotients" : "exact quotients"); judged(tot != 0 && div != 1);
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("small")) each_res([&](auto s) { using S = decltype(s); const long D = day_units<S>(); int K = opt.thorough ? 400 : 60;
    for (long d = 0; d <= 20; d++) for (long u : {0L, 1L, 2L, 3L, 59L, D / 3, D / 2, D - 2, D - 1}) for (int k = 1; k <= K; k++) one<S>(d, u, k);
    for (int k : {1, 2, 3, 7, 24, 60, 86399, 86400, 86401, 65536, 1000000, 86400000, 100000000, INT_MAX - 1, INT_MAX}) for (long d : {0L, 1L, 2L, (long)k - 1, (long)k, (long)k + 1, 2L * k, cap_days<S>() - 1}) if (d >= 0 && d < cap_days<S>()) for (long u : {0L, 1L, D / 2, D - 1}) one<S>(d, u, k);
    sample("small"); });
  if (section("random")) { Rng r = rng_for("random"); long n = scale(250000); each_res([&](auto s) { using S = decltype(s); for (long i = 0; i < n; i++) {
      long cap = cap_days<S>() - 1; long d = r.chance(60) ? r.in(0, 40000) : r.logu(cap); int k = (int)(r.chance(50) ? r.in(1, 1000) : r.logu(INT_MAX)); if (k < 1) k = 1; if (r.chance(2)) k = INT_MAX - (int)r.in(0, 3); else if (r.chance(8)) { long p = (1L << r.in(0, 31)) + (r.chance(60) ? 0 : r.in(-1, 1)); if (p >= 1 && p <= INT_MAX) k = (int)p; } if (r.chance(10) && d >= 1 && d <= INT_MAX) k = (int)d;
      one<S>(d, gen_tod<S>(r), k); } sample("random"); }); }
  return finish();
}
