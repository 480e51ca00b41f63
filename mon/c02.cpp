// C02: year/day-of-year <-> calendar <-> MJD, against an odometer.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

static void is_ymd(const char* key, const ymd_date& c, long y, int m, int d) {
  EXPECT(U(c.__year) == y && U(c.__month) == m && U(c.__dom) == d, key, "%s gives %ld-%ld-%ld, by counting %ld-%d-%d", key, U(c.__year), U(c.__month), U(c.__dom), y, m, d);
}
static void is_ydoy(const char* key, const ydoy_date& c, long y, int doy) {
  EXPECT(U(c.__year) == y && U(c.__doy) == doy, key, "%s gives %ld/%ld, by counting %ld/%d", key, U(c.__year), U(c.__doy), y, doy);
}
static void one(long y, int m, int d, int doy, long mjd) {
  set_cur("date", y, m, d, doy, mjd);
  year Y{(int)y}; day_of_year N{doy};
  long a = U(ydoy2mjd(Y, N));
  EXPECT(a == mjd, "ydoy2mjd", "ydoy2mjd gives %ld", a);
  long b = U(modified_julian_day(Y, N));
  EXPECT(b == mjd, "mjd-ctor-ydoy", "modified_julian_day(y,doy) is %ld", b);
  ymd_date c{Y, month{m}, day_of_month{d}}; ydoy_date e{Y, N};
  is_ydoy("ymd.to_ydoy", c.to_ydoy(), y, doy);
  is_ymd("ydoy.to_ymd", e.to_ymd(), y, m, d);
  modified_julian_day mj{mjd};
  is_ydoy("mjd.to_ydoy", mj.to_ydoy(), y, doy);
  is_ymd("mjd.to_ymd", mj.to_ymd(), y, m, d);
  EXPECT(e.is_valid(), "ydoy-valid", "the day of year reports itself invalid");
  // the routes compose
  is_ymd("mjd.to_ydoy.to_ymd", mj.to_ydoy().to_ymd(), y, m, d);
  is_ydoy("ydoy.to_ymd.to_ydoy", e.to_ymd().to_ydoy(), y, doy);
  datetime<milliseconds> t(Y, N, milliseconds{0}), u(Y, month{m}, day_of_month{d}, milliseconds{86399999});
  EXPECT(U(t.mjd()) == mjd, "datetime-ydoy", "datetime(y,doy).mjd() is %ld", U(t.mjd()));
  is_ydoy("datetime.as_ydoy", u.as_ydoy(), y, doy);
  is_ydoy("datetime.as_ydoy", t.as_ydoy(), y, doy);
  is_ymd("datetime.as_ymd", t.as_ymd(), y, m, d);
  EXPECT(U(c.__month) == m && U(c.__dom) == d && U(e.__doy) == doy && U(c.__year) == y && U(e.__year) == y, "operand-changed", "a conversion changed its operand");
  judged();
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("sweep")) {
    const long hi = opt.thorough ? 100000 : 10000;
    long mjd = mjd_lo(), days = 0;
    for (long y = -4799; y <= hi; y++) {
      if (!mine(y)) { mjd += ydays(y); continue; }
      int doy = 0;
      for (int m = 1; m <= 12; m++)
        for (int d = 1; d <= mdays(y, m); d++, mjd++, days++) one(y, m, d, ++doy, mjd);
    }
    count("consecutive days swept", days); sample("sweep");
  }
  if (section("far")) {
    Rng r = rng_for("far"); long n = scale(200000);
    for (long i = 0; i < n; i++) {
      long y = r.chance(5) ? INT_MAX - r.in(0, 800) : r.logu(INT_MAX);
      if (r.chance(20)) y = y / 100 * 100;
      int doy = r.chance(30) ? ydays(y) : r.chance(20) ? 60 : (int)r.in(1, ydays(y));
      long mjd = mjd_of(y, doy); Ymd c = civil(mjd);
      one(y, c.m, c.d, doy, mjd);
    }
    count("far dates", n); sample("far");
  }
  if (section("alike")) { Rng r = rng_for("alike"); alike(r, mjd_lo(), mjd_of(INT_MAX, 12, 31), scale(40000), [](long x) { Ymd c = civil(x); one(c.y, c.m, c.d, c.doy, x); });
    alike(r, -4799, INT_MAX, scale(40000), [](long y) { int n = ydays(y); one(y, 12, 31, n, mjd_of(y, n)); }); sample("alike"); }
  return finish();
}
