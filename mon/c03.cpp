// C03: validity predicates; impossible dates end in a catchable exception.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

static bool ok_ymd(long y, long m, long d) { return m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, (int)m); }

/// build with f, which returns the MJD; a valid date must succeed, any other throw
template<class F> static void build(const char* how, bool valid, long want, F f) {
  long got = 0; bool threw = false;
  try { got = f(); } catch (const std::exception& e) { threw = true; message(e); }
  if (valid) {
    if (threw) viol(std::string(how) + "-refused", "%s throws for a valid date", how);
    else EXPECT(got == want, std::string(how) + "-other", "%s gives MJD %ld, not %ld", how, got, want);
    count("valid dates constructed");
  } else {
    if (!threw) viol(std::string(how) + "-accepted", "%s accepts an impossible date (MJD %ld)", how, got);
    count("impossible dates refused");
  }
}

static void date(long y, long m, long d, bool all) {
  set_cur("ymd", y, m, d);
  bool v = ok_ymd(y, m, d);
  year Y{(int)y}; month M{(int)m}; day_of_month D{(int)d};
  EXPECT(D.is_valid(Y, M) == v, "dom-is_valid", "day_of_month::is_valid is %d", (int)D.is_valid(Y, M));
  ymd_date c{Y, M, D};
  EXPECT(c.is_valid() == v, "ymd-is_valid", "ymd_date::is_valid is %d", (int)c.is_valid());
  judged();
  if (!all || y < -4799) return;
  set_cur("construct", y, m, d);
  long want = v ? mjd_of(y, (int)m, (int)d) : 0;
  build("cal2mjd", v, want, [&] { return U(cal2mjd(Y, M, D)); });
  build("modified_julian_day", v, want, [&] { return U(modified_julian_day(Y, M, D)); });
  static int turn = 0; int which = v ? -1 : turn++ % 3, k = 0;   // throwing is slow: one resolution in turn
  each_res([&](auto s) {
    using S = decltype(s); CLS(S);
    if (which >= 0 && k++ != which) return;
    build("datetime(y,m,d)", v, want, [&] { return U(datetime<S>(Y, M, D).mjd()); });
    build("datetime(y,m,d,S)", v, want, [&] { return U(datetime<S>(Y, M, D, S{5}).mjd()); });
    build("datetime(y,m,d,h,m,S)", v, want, [&] { return U(datetime<S>(Y, M, D, hours{1}, minutes{2}, S{3}).mjd()); });
    build("datetime(y,m,d,h,m,T)", v, want, [&] { return U(datetime<S>(Y, M, D, hours{1}, minutes{2}, microseconds{3}).mjd()); });
    build("datetime(y,m,d,T)", v, want, [&] { return U(datetime<S>(Y, M, D, microseconds{3000000}).mjd()); });
    build("datetime(y,m,d,h,m,double)", v, want, [&] { return U(datetime<S>(Y, M, D, hours{1}, minutes{2}, 3.25).mjd()); });
  });
  cur.cls = "";
  judged();
}

/// one construction of an impossible (or possible) date, through a form that changes from call to call
static void one_form(long y, long m, long d) {
  static unsigned turn = 0; const bool v = ok_ymd(y, m, d); const long want = v ? mjd_of(y, (int)m, (int)d) : 0;
  const year Y{(int)y}; const month M{(int)m}; const day_of_month D{(int)d}; set_cur("one construction", y, m, d);
  unsigned k = turn++;
  auto forms = [&](auto s) { using S = decltype(s);
    switch (k % 5) {
      case 0: build("datetime(y,m,d)", v, want, [&] { return U(datetime<S>(Y, M, D).mjd()); }); break;
      case 1: build("datetime(y,m,d,S)", v, want, [&] { return U(datetime<S>(Y, M, D, S{5}).mjd()); }); break;
      case 2: build("datetime(y,m,d,h,m,S)", v, want, [&] { return U(datetime<S>(Y, M, D, hours{1}, minutes{2}, S{3}).mjd()); }); break;
      case 3: build("datetime(y,m,d,T)", v, want, [&] { return U(datetime<S>(Y, M, D, microseconds{3000000}).mjd()); }); break;
      default: build("datetime(y,m,d,h,m,double)", v, want, [&] { return U(datetime<S>(Y, M, D, hours{1}, minutes{2}, 3.25).mjd()); });
    } };
  if (k % 17 < 6) build("cal2mjd", v, want, [&] { return U(cal2mjd(Y, M, D)); });
  else if (k % 17 < 8) build("modified_julian_day", v, want, [&] { return U(modified_julian_day(Y, M, D)); });
  else if (k % 3 == 0) forms(seconds{}); else if (k % 3 == 1) forms(milliseconds{}); else forms(microseconds{});
  judged(); count("single constructions");
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  const std::vector<long> edges = {INT_MIN, INT_MIN + 1L, -65536, -256, -128, -100, -2, -1, 0, 1, 2, 12, 13, 28, 29, 30, 31, 32, 33, 100, 127, 128, 255, 256, 257, 268, 284, 287, 288, 365, 366, 367, 65536, 65537, 65548, INT_MAX - 1L, INT_MAX};
  if (section("predicates")) {
    for (long m = -70000; m <= 70000; m++) {
      set_cur("month", m); EXPECT(month{(int)m}.is_valid() == (m >= 1 && m <= 12), "month-is_valid", "is_valid is %d", (int)month{(int)m}.is_valid()); judged();
      set_cur("gps_week", m); EXPECT(gps_week{m}.is_valid() == (m >= 0), "gps_week-is_valid", "is_valid is %d", (int)gps_week{m}.is_valid()); judged();
    }
    for (long m : edges) { set_cur("month", m); EXPECT(month{(int)m}.is_valid() == (m >= 1 && m <= 12), "month-is_valid", "wrong"); judged(); }
    for (long w : {LONG_MIN, LONG_MIN + 1, (long)INT_MIN, -4294967296L, -4294967297L, 4294967296L, 2147483648L, (long)INT_MAX, LONG_MAX}) {
      set_cur("gps_week", w); EXPECT(gps_week{w}.is_valid() == (w >= 0), "gps_week-is_valid", "wrong"); judged();
    }
    sample("predicates");
  }
  if (section("doy")) {
    auto one = [&](long y, long d) {
      set_cur("doy", y, d); bool v = d >= 1 && d <= ydays(y);
      EXPECT(day_of_year{(int)d}.is_valid(year{(int)y}) == v, "doy-is_valid", "day_of_year::is_valid is %d", !v);
      EXPECT((ydoy_date{year{(int)y}, day_of_year{(int)d}}.is_valid()) == v, "ydoy-is_valid", "ydoy_date::is_valid is %d", !v);
      EXPECT(year{(int)y}.is_leap() == (ydays(y) == 366) && is_leap((int)y) == (ydays(y) == 366), "is_leap", "the year has %d days", ydays(y));
      judged();
    };
    for (long y = -4799; y <= 10000; y++) {
      if (!mine(y)) continue;
      for (long d : {-1L, 0L, 1L, 2L, 59L, 60L, 364L, 365L, 366L, 367L, 368L}) one(y, d);
      if (y % 25 == 0) for (long d = -400; d <= 800; d++) one(y, d);
    }
    for (long y : edges) for (long d : edges) one(y, d);
    sample("doy");
  }
  if (section("grid")) {                 // every year of two 400-year cycles, and edges
    for (long y = opt.thorough ? -4799 : 1580; y <= (opt.thorough ? 10000 : 2420); y++) {
      if (!mine(y)) continue;
      for (long m = -2; m <= 15; m++) for (long d = -2; d <= 34; d++) date(y, m, d, (y % 20 == 0 && (d > 27 || d < 2)) || (m == 2 && d > 27 && d < 31));
    }
    if (!opt.thorough) for (long y = -4799; y <= 10000; y++) if (mine(y))   // the rest of the years: the edges of each month
      for (long m = 0; m <= 13; m++) for (long d : {0L, 1L, 15L, 28L, 29L, 30L, 31L, 32L}) date(y, m, d, y % 50 == 0 && m != 7);
    for (long y = opt.thorough ? -4799 : 1580; y <= (opt.thorough ? 10000 : 2420); y++) if (mine(y)) {   // what each year refuses
      for (long m : {-12L, -1L, 0L, 13L, 14L, 24L, 36L}) one_form(y, m, (y + m) % 3 ? 1 : 31);
      for (long m = 1; m <= 12; m++) { const long n = mdays(y, (int)m); one_form(y, m, n + 1); one_form(y, m, n); if ((y + m) % 4 == 0) one_form(y, m, 0); }
    }
    sample("grid");
  }
  if (section("edges")) {
    std::vector<long> years = edges; for (long y : {-4799L, -4400L, -1L, 0L, 4L, 100L, 400L, 1900L, 2000L, 2100L, 2400L, 9999L, 10000L, 1000000L}) years.push_back(y);
    long i = 0;
    for (long y : years) for (long m = -1; m <= 14; m++) for (long d = -1; d <= 33; d++) date(y, m, d, i++ % 5 == 0);
    for (long y : years) for (long m : edges) for (long d : edges) date(y, m, d, i++ % 13 == 0);
    sample("edges");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(15000);
    for (long i = 0; i < n; i++) {
      long y = r.chance(60) ? r.in(-4799, 10000) : r.logu(INT_MAX);
      long m = r.chance(70) ? r.in(-1, 14) : r.in(INT_MIN, INT_MAX);
      long d = r.chance(70) ? r.in(-1, 33) : r.in(INT_MIN, INT_MAX);
      date(y, m, d, true);
    }
    sample("random");
  }
  if (section("alike")) { Rng r = rng_for("alike"); alike(r, -4799, INT_MAX, scale(8000), [](long y) { date(y, 2, 29, true); date(y, 12, 31, false); }); sample("alike"); }
  return finish();
}
