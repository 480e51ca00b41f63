// C11: GPS week / seconds of week.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static void one(long mjd, long u) {
  CLS(S); set_cur("instant", mjd, u);
  const long D = day_units<S>(), f = res<S>::f;
  const datetime<S> t(modified_julian_day{mjd}, S{u});
  long days = mjd - 44244, w = days / 7, dow = days % 7, sow = dow * D + u;
  long ls = -1; gps_week a = t.as_gps_wsow(ls);
  EXPECT(U(a) == w, "week-long", "week is %ld, whole weeks since 6 Jan 1980 are %ld", U(a), w);
  EXPECT(ls == dow * 86400 + u / f, "sow-long", "seconds of week %ld, expected %ld", ls, dow * 86400 + u / f);
  S su{-1}; gps_week b = t.as_gps_wsow(su);
  EXPECT(U(b) == w, "week-S", "week is %ld, whole weeks since 6 Jan 1980 are %ld", U(b), w);
  EXPECT(U(su) == sow, "sow-S", "seconds of week %ld, expected %ld", U(su), sow);
  EXPECT(ls >= 0 && ls < 604800 && U(su) >= 0 && U(su) < 7 * D, "sow-range", "seconds of week out of the week");
  EXPECT(b.is_valid(), "week-valid", "the week reports itself invalid");
  EXPECT(day_of_week(su) == dow, "day_of_week", "day of week is %d, expected %ld (0 = Sunday)", day_of_week(su), dow);
  EXPECT(day_of_week(seconds{ls}) == dow, "day_of_week-seconds", "day of week is %d, expected %ld", day_of_week(seconds{ls}), dow);
  // there and back
  datetime<S> r(b, su); EXPECT(r == t && total(r) == total(t), "roundtrip", "back as %s, was %s", i128s(total(r)).c_str(), i128s(total(t)).c_str());
  // remainders of more than a week, carried from an earlier (valid) week
  for (long k : {1L, 2L, 53L, 1024L}) if (w - k >= 0 && (i128)k * 7 * D + sow <= LONG_MAX) {
    datetime<S> q(gps_week{w - k}, S{sow + k * 7 * D});
    EXPECT(q == t && total(q) == total(t), "long-sow", "week-%ld with %ld of week is %s, expected %s", k, sow + k * 7 * D, i128s(total(q)).c_str(), i128s(total(t)).c_str());
  }
  EXPECT(U(t.mjd()) == mjd && U(t.sec()) == u, "operand-changed", "the datetime changed");
  judged();
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("days")) {          // every day since the epoch
    Rng r = rng_for("days"); long last = mjd_of(opt.thorough ? 9999 : 4000, 12, 31), n = 0;
    for (long m = 44244; m <= last; m++) { if (!mine(m)) continue; ++n;
      one<seconds>(m, 0); one<seconds>(m, 86399); one<milliseconds>(m, 86399999); one<microseconds>(m, 86399999999L); one<microseconds>(m, gen_tod<microseconds>(r)); one<milliseconds>(m, gen_tod<milliseconds>(r)); }
    count("consecutive days", n); sample("days");
  }
  if (section("week")) {          // every second of some weeks
    for (long w : {0L, 1L, 1023L, 1024L, 2047L, 2048L, 2086L}) for (long s = 0; s < 604800; s += opt.thorough ? 1 : 7) if (mine(s)) {
      one<seconds>(44244 + w * 7 + s / 86400, s % 86400); one<milliseconds>(44244 + w * 7 + s / 86400, s % 86400 * 1000 + 999); one<microseconds>(44244 + w * 7 + s / 86400, s % 86400 * 1000000 + 999999); }
    sample("week");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(200000);
    each_res([&](auto s) { using S = decltype(s); for (long i = 0; i < n; i++) {
      long d = r.chance(50) ? r.logu(1000000000000000L) : r.chance(50) ? r.in(0, 20000) : r.in(0, 400) * 7 + r.in(-1, 1);
      if (d < 0) d = 0;
      one<S>(44244 + d, gen_tod<S>(r)); } sample("random"); });
  }
  if (section("alike")) { Rng r = rng_for("alike"); each_res([&](auto s) { using S = decltype(s); long u = gen_tod<S>(r); alike(r, 44244, 1000000000000000L, scale(20000), [&](long m) { if (r.chance(5)) u = gen_tod<S>(r); one<S>(m, u); }); long m = 44244;
      alike(r, 0, day_units<S>() - 1, scale(20000), [&](long v) { if (r.chance(5)) m = gen_mjd(r, 44244, 3000000); one<S>(m, v); }); sample("alike"); }); }
  if (section("dow")) {           // any amount: whole days
    each_res([&](auto s) { using S = decltype(s); CLS(S); const long D = day_units<S>();
      for (long d = 0; d < 7; d++) for (long e : {0L, 1L, D / 2, D - 2, D - 1}) { set_cur("dow", d * D + e); EXPECT(day_of_week(S{d * D + e}) == d, "day_of_week", "day of week is %d", day_of_week(S{d * D + e})); judged(); } });
  }
  return finish();
}
