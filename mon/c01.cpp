// C01: calendar date <-> MJD, against an odometer that counts days.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

static void one(long y, int m, int d, long want) {
  set_cur("date", y, m, d);
  year Y{(int)y}; month M{m}; day_of_month D{d};
  long a = U(cal2mjd(Y, M, D));
  EXPECT(a == want, "cal2mjd", "cal2mjd gives %ld, day count is %ld", a, want);
  long b = U(modified_julian_day(Y, M, D));
  EXPECT(b == want, "mjd-ctor", "modified_julian_day(y,m,d) is %ld, day count is %ld", b, want);
  modified_julian_day mj{want};
  ymd_date c = mj.to_ymd();
  EXPECT(U(c.__year) == y && U(c.__month) == m && U(c.__dom) == d, "to_ymd", "MJD %ld to_ymd is %d-%d-%d", want, c.__year.as_underlying_type(), c.__month.as_underlying_type(), c.__dom.as_underlying_type());
  EXPECT(U(mj) == want, "to_ymd-const", "the MJD changed to %ld", U(mj));
  EXPECT(c.is_valid(), "to_ymd-valid", "MJD %ld gives a date that reports itself invalid", want);
  double jd = mj.to_julian_day();
  EXPECT(jd == (double)want + 2400000.5, "julian-day", "Julian day of MJD %ld is %.9f", want, jd);
  datetime<seconds> t(mj, seconds{0}); ymd_date e = t.as_ymd();
  EXPECT(U(e.__year) == y && U(e.__month) == m && U(e.__dom) == d, "as_ymd", "datetime of MJD %ld as_ymd is %ld-%ld-%ld", want, U(e.__year), U(e.__month), U(e.__dom));
  datetime<microseconds> t2(Y, M, D); 
  EXPECT(U(t2.mjd()) == want, "datetime-mjd", "datetime(y,m,d).mjd() is %ld, day count is %ld", U(t2.mjd()), want);
  judged();
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("sweep")) {                // every day, by counting, nothing computed
    const long lo = -4799, hi = opt.thorough ? 120000 : 10000;
    long mjd = mjd_lo(), days = 0, leaps_seen = 0;
    for (long y = lo; y <= hi; y++) {
      bool L = leap(y); leaps_seen += L;
      set_cur("is_leap", y);
      EXPECT(ngpt::is_leap((int)y) == L, "is_leap", "is_leap is %d", (int)ngpt::is_leap((int)y));
      EXPECT(year{(int)y}.is_leap() == L, "year-is_leap", "year::is_leap is %d", (int)year{(int)y}.is_leap());
      judged();
      bool full = mine(y);
      for (int m = 1; m <= 12; m++) {
        int n = mdays(y, m);
        if (!full) { mjd += n; continue; }
        for (int d = 1; d <= n; d++, mjd++, days++) one(y, m, d, mjd);
      }
    }
    count("consecutive days swept", days); count("leap years seen", leaps_seen); sample("sweep");
  }
  if (section("far")) {                  // far years, up to the last an int holds
    Rng r = rng_for("far"); long n = scale(300000);
    for (long i = 0; i < n; i++) {
      long y = r.chance(5) ? INT_MAX - r.in(0, 800) : r.logu(INT_MAX);
      if (r.chance(20)) y = y / 100 * 100;
      if (y < -4799) y = -4799;
      int m = r.chance(40) ? 2 : (int)r.in(1, 12), n_d = mdays(y, m);
      int d = r.chance(50) ? n_d : r.chance(30) ? 1 : (int)r.in(1, n_d);
      one(y, m, d, mjd_of(y, m, d));
      set_cur("is_leap", y);
      EXPECT(ngpt::is_leap((int)y) == leap(y), "is_leap", "is_leap is %d", (int)ngpt::is_leap((int)y));
    }
    count("far dates", n); sample("far");
    for (long y : {(long)INT_MIN, (long)INT_MIN + 1, -1000000L, -400L, -300L, -4L, -1L}) {
      set_cur("is_leap", y); EXPECT(ngpt::is_leap((int)y) == leap(y), "is_leap", "is_leap is %d", (int)ngpt::is_leap((int)y)); judged();
    }
  }
  if (section("alike")) { Rng r = rng_for("alike"); alike(r, mjd_lo(), mjd_of(INT_MAX, 12, 31), scale(40000), [](long x) { Ymd c = civil(x); one(c.y, c.m, c.d, x); });
    alike(r, -4799, INT_MAX, scale(40000), [&](long y) { one(y, 3, 1, mjd_of(y, 3, 1)); set_cur("is_leap", y); EXPECT(ngpt::is_leap((int)y) == leap(y) && year{(int)y}.is_leap() == leap(y), "is_leap", "is_leap is %d", (int)ngpt::is_leap((int)y)); }); sample("alike"); }
  if (section("epochs")) {               // the published numbers, against the calendar
    auto is = [](const char* name, double got, double want) { set_cur(name); cur_d(got); EXPECT(got == want, std::string("constant:") + name, "%s is %.17g, by the calendar %.17g", name, got, want); judged(); count("published constants"); };
    is("jan61980", jan61980, (double)mjd_of(1980, 1, 6)); is("jan11901", jan11901, (double)mjd_of(1901, 1, 1)); is("sec_per_day", sec_per_day, 86400);
    is("days_in_julian_year", days_in_julian_year, 365.25); is("days_in_julian_cent", days_in_julian_cent, 36525); is("mjd0_jd", mjd0_jd, 2400000.5);
    is("j2000_mjd", j2000_mjd, (double)mjd_of(2000, 1, 1) + 0.5); is("j2000_jd", j2000_jd, (double)mjd_of(2000, 1, 1) + 0.5 + 2400000.5); is("tt_minus_tai", tt_minus_tai, 32.184);
  }
  return finish();
}
