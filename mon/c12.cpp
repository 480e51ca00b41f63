// C12: TAI-UTC against the published leap seconds, in all three forms.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static void dt(long mjd, long u, int want) {
  CLS(S); set_cur("datetime", mjd, u);
  int a = dat(datetime<S>(modified_julian_day{mjd}, S{u}));
  EXPECT(a == want, "dat-datetime", "dat(datetime) is %d, published %d", a, want);
  judged();
}
static void day(long mjd, bool times, Rng& r) {
  cur.cls = ""; Ymd c = civil(mjd); int want = tai_utc(mjd);
  set_cur("mjd", mjd, c.y, c.m, c.d);
  int a = dat(modified_julian_day{mjd});
  EXPECT(a == want, "dat-mjd", "dat(mjd) is %d, published %d", a, want);
  if (c.y <= 170000000) { 
    int b = dat(year{(int)c.y}, month{c.m});
    EXPECT(b == want, "dat-ym", "dat(year,month) is %d, published %d", b, want);
  }
  judged();
  if (times) {
    for (long u : {0L, 1L, 43200L, 86399L}) dt<seconds>(mjd, u, want);
    for (long u : {0L, 1L, 86399000L, 86399999L}) dt<milliseconds>(mjd, u, want);
    for (long u : {0L, 1L, 86399999999L, 86399999998L}) dt<microseconds>(mjd, u, want);
  }
  each_res([&](auto s) { using S = decltype(s); dt<S>(mjd, gen_tod<S>(r), want); });
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (leaps().size() != 28 || leaps().back().v != 37) return 9;
  if (section("days")) {           // every day since 1972
    Rng r = rng_for("days"); long lo = 41317, hi = mjd_of(opt.thorough ? 9999 : 2500, 12, 31), n = 0, changes = 0; int prev = 0;
    for (long m = lo; m <= hi; m++) {
      if (m >= 62000 && !mine(m)) continue;          // every process sees all days to 2028
      day(m, m < 60000, r); ++n;
      if (m < 62000) {
        int v = dat(modified_julian_day{m}); Ymd c = civil(m);
        if (m > lo && v != prev) { ++changes; set_cur("mjd", m); EXPECT(v == prev + 1, "step", "the offset goes from %d to %d", prev, v); EXPECT(c.d == 1 && (c.m == 1 || c.m == 7), "step-date", "the offset changes on %ld-%d-%d", c.y, c.m, c.d); }
        prev = v;
      }
    }
    count("consecutive days", n); count("leap seconds observed", (uint64_t)changes); EXPECT(changes == 27, "count", "%ld changes seen, 27 leap seconds are published", changes);
    sample("days");
  }
  if (section("months")) {         // every month to the year 100000
    for (long y = 1972; y <= 100000; y++) for (int m = 1; m <= 12; m++) {
      set_cur("year/month", y, m); int a = dat(year{(int)y}, month{m});
      EXPECT(a == tai_utc(y, m), "dat-ym", "dat(year,month) is %d, published %d", a, tai_utc(y, m)); judged(); count("months"); }
    for (long y : {INT_MAX / 12L, INT_MAX / 12L + 1, (long)INT_MAX - 1, (long)INT_MAX, 1000000000L, 178956970L, 178956971L, 357913941L}) for (int m = 1; m <= 12; m++) {
      set_cur("year/month", y, m); int a = dat(year{(int)y}, month{m}); EXPECT(a == 37, "dat-ym", "dat(year,month) is %d, published 37", a); judged(); }
    sample("months");
  }
  if (section("leaps")) {          // every unit of the seconds around each change, in every resolution
    long n = opt.thorough ? 2000000 : 60000;
    for (const Leap& l : leaps()) { long m = mjd_of(l.y, l.m, 1);
      for (long e = 1; e <= 100; e++) { if (m > 41317) { dt<seconds>(m - 1, 86400 - e, l.v - 1); dt<milliseconds>(m - 1, 86400000 - e, l.v - 1); dt<microseconds>(m - 1, 86400000000L - e, l.v - 1); } dt<seconds>(m, e - 1, l.v); dt<milliseconds>(m, e - 1, l.v); dt<microseconds>(m, e - 1, l.v); }
      Rng r = rng_for("leaps"); for (long i = 0; i < n / 28; i++) { dt<microseconds>(m, gen_tod<microseconds>(r), l.v); if (m > 41317) dt<microseconds>(m - 1, gen_tod<microseconds>(r), l.v - 1); } }
    sample("leaps");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(150000);
    for (long i = 0; i < n; i++) day(r.chance(50) ? 41317 + r.logu(770000000000L) : r.chance(50) ? r.in(41317, 58000) : gen_mjd(r, 41317, 3000000), false, r);
    for (long m : {LONG_MAX, LONG_MAX - 1, 1L << 32, (1L << 32) + 41317, (1L << 32) + 41499, 1L << 31, (1L << 62)}) { set_cur("mjd", m); int a = dat(modified_julian_day{m}); EXPECT(a == 37, "dat-mjd", "dat(mjd) is %d", a); judged(); }
    sample("random");
  }
  if (section("alike")) { Rng r = rng_for("alike"); alike(r, 41317, 770000000000L, scale(40000), [&](long m) { day(m, false, r); });
    alike(r, 1972, INT_MAX, scale(40000), [&](long y) { for (int m : {1, 6, 7, 12}) { set_cur("year/month", y, m); int a = dat(year{(int)y}, month{m}); EXPECT(a == tai_utc(y, m), "dat-ym", "dat(year,month) is %d, published %d", a, tai_utc(y, m)); judged(); } }); sample("alike"); }
  return finish();
}
