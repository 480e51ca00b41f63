// C04: every datetime and interval is normalized; normalizing keeps the instant.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

/// t must be normalized and denote exactly `want` units of S since MJD 0
template<class S, class D> static void check(const char* key, const D& t, i128 want) {
  long s = t.sec().as_underlying_type();
  if (s < 0 || s >= day_units<S>()) viol(std::string(key) + "-range", "%s: time part %ld not in [0,%ld)", key, s, day_units<S>());
  i128 got = total(t);
  if (got != want) viol(std::string(key) + "-total", "%s: total %s, given %s", key, i128s(got).c_str(), i128s(want).c_str());
}

template<class S> static void constructors(Rng& r, long n) {
  CLS(S); const long D = day_units<S>(), f = res<S>::f;
  uint64_t negs = 0, multi = 0;
  for (long i = 0; i < n; i++) {
    long a = gen_amount<S>(r, LONG_MAX);
    long mjd = gen_mjd(r, -1000000000000L, 1000000000000L);
    if (r.chance(3)) mjd = r.in(-4600000000000000000L, 4600000000000000000L);
    negs += a < 0; multi += a >= D || a < -D;
    i128 want = (i128)mjd * D + a;
    set_cur("mjd+units", mjd, a);
    check<S>("datetime(mjd,S)", datetime<S>(modified_julian_day{mjd}, S{a}), want);
    datetime_interval<S> iv{modified_julian_day{mjd}, S{a}};
    check<S>("interval(mjd,S)", iv, want);
    iv.normalize(); check<S>("interval.normalize", iv, want);
    datetime<S> t(modified_julian_day{mjd}, S{a}); t.normalize(); check<S>("datetime.normalize", t, want);
    EXPECT(t.sec_as_i() == U(t.sec()), "sec_as_i", "sec_as_i is %ld, sec is %ld", (long)t.sec_as_i(), U(t.sec()));
    if (r.chance(30)) {      // default constructed objects
      check<S>("interval()", datetime_interval<S>(), 0);
      EXPECT(normalized<S>(datetime<S>()), "datetime()-range", "default datetime has time part %ld", U(datetime<S>().sec()));
    }
    judged(a < 0 || a >= D);
    // calendar forms
    Ymd c = civil(gen_mjd(r, mjd_lo(), 400000000L)); long cm = mjd_of(c.y, c.m, c.d);
    year Y{(int)c.y}; month M{c.m}; day_of_month Dm{c.d}; day_of_year N{c.doy};
    set_cur("date+units", c.y, c.m, c.d, a); want = (i128)cm * D + a;
    check<S>("datetime(y,m,d,S)", datetime<S>(Y, M, Dm, S{a}), want);
    check<S>("datetime(y,doy,S)", datetime<S>(Y, N, S{a}), want);
    judged(a < 0 || a >= D);
    // hours, minutes, seconds of any size and sign that fit together
    int h = (int)(r.chance(50) ? r.in(-30, 60) : r.chance(50) ? r.in(INT_MIN, INT_MAX) : (r.chance(50) ? 1 : -1) * r.logu(INT_MAX));
    int m = (int)(r.chance(50) ? r.in(-70, 130) : r.chance(50) ? r.in(INT_MIN, INT_MAX) : (r.chance(50) ? 1 : -1) * r.logu(INT_MAX));
    long u = gen_amount<S>(r, LONG_MAX / 16);
    if (r.chance(6)) {       // the last readings of a clock, and the first ones past it
      h = (int)(r.chance(60) ? r.in(22, 24) : r.in(-1, 48)); m = (int)(r.chance(70) ? r.in(58, 61) : r.in(-1, 1)); u = (r.chance(70) ? r.in(58, 61) : r.in(-1, 1)) * f + (r.chance(60) ? 0 : r.chance(50) ? r.in(-1, 1) : r.in(0, f - 1)); count("clock readings around the end of a day"); }
    i128 hm = ((i128)h * 3600 + (i128)m * 60) * f;
    set_cur("date+hms", c.y, c.m, c.d, h, m, u); want = (i128)cm * D + hm + u;
    check<S>("datetime(y,m,d,h,m,S)", datetime<S>(Y, M, Dm, hours{h}, minutes{m}, S{u}), want);
    check<S>("datetime(y,doy,h,m,S)", datetime<S>(Y, N, hours{h}, minutes{m}, S{u}), want);
    check<S>("datetime(mjd,h,m,S)", datetime<S>(modified_julian_day{cm}, hours{h}, minutes{m}, S{u}), want);
    judged(hm + u < 0 || hm + u >= D);
    // the time given in another resolution (only finer ones are offered), any amount, hours and minutes of any size
    each_res([&](auto x) { using T = decltype(x); if constexpr (res<T>::f >= res<S>::f) {
      long v = gen_amount<T>(r, LONG_MAX / 16), k = res<T>::f / f; set_cur("date+hms+finer", c.y, c.m, c.d, h, m, v, k); i128 cut = (i128)cm * D + v / k;
      check<S>("datetime(y,m,d,T)", datetime<S>(Y, M, Dm, T{v}), cut); check<S>("datetime(y,doy,T)", datetime<S>(Y, N, T{v}), cut);
      check<S>("datetime(y,m,d,h,m,T)", datetime<S>(Y, M, Dm, hours{h}, minutes{m}, T{v}), cut + hm); check<S>("datetime(y,doy,h,m,T)", datetime<S>(Y, N, hours{h}, minutes{m}, T{v}), cut + hm);
      judged(v < 0 || hm != 0); } });
    // fractional seconds (whole and quarter values are exact in a double)
    double q = (double)(r.chance(50) ? r.in(-400000, 400000) : (r.chance(50) ? 1 : -1) * r.logu(4000000000L)) / 4;
    int hh = (int)r.in(-1000, 1000), mm = (int)r.in(-5000, 5000);
    set_cur("date+hms", c.y, c.m, c.d, hh, mm); cur_d(q);
    datetime<S> tf(Y, M, Dm, hours{hh}, minutes{mm}, q), tg(Y, N, hours{hh}, minutes{mm}, q);
    i128 base = (i128)cm * D + ((i128)hh * 3600 + mm * 60) * f;
    i128 fu = f == 1 ? (i128)q : (i128)(q * 4) * f / 4;      // truncated toward zero
    check<S>("datetime(y,m,d,h,m,double)", tf, base + fu);
    check<S>("datetime(y,doy,h,m,double)", tg, base + fu);
    judged(true);
    // GPS week and any seconds of week
    long w = r.chance(70) ? r.in(-3000, 20000) : (r.chance(30) ? -1 : 1) * r.logu(1000000000000L);
    set_cur("gps", w, a);
    check<S>("datetime(gps_week,S)", datetime<S>(gps_week{w}, S{a}), ((i128)w * 7 + 44244) * D + a);
    judged(a < 0 || a >= D);
  }
  count("objects with negative time given", negs); count("objects spanning more than a day", multi);
  sample("constructors");
}

template<class S> static void histories(Rng& r, long n) {
  CLS(S); const long D = day_units<S>();
  for (long i = 0; i < n; i++) {
    long m0 = gen_mjd(r, -3000000, 3000000), u0 = gen_tod<S>(r);
    datetime<S> t(modified_julian_day{m0}, S{u0}); 
    int len = (int)r.in(1, 30);
    for (int k = 0; k < len; k++) {
      long a = gen_amount<S>(r, 1000000000000000000L), d = gen_mjd(r, -100000000, 100000000);
      int op = (int)r.in(0, 8);
      set_cur("history", op, U(t.mjd()), U(t.sec()), a, d);
      i128 before = total(t);
      switch (op) {
        case 0: t.add_seconds(S{a}); check<S>("add_seconds", t, before + a); break;
        case 1: t.remove_seconds(S{a}); check<S>("remove_seconds", t, before - a); break;
        case 2: t.add_seconds(microseconds{a}); EXPECT(normalized<S>(t), "add_seconds-us-range", "time part %ld", U(t.sec())); break;
        case 3: t.remove_seconds(microseconds{a}); EXPECT(normalized<S>(t), "remove_seconds-us-range", "time part %ld", U(t.sec())); break;
        case 4: t = t.template add<S>(modified_julian_day{d}, S{a}); check<S>("add", t, before + (i128)d * D + a); break;
        case 5: { datetime_interval<S> iv{modified_julian_day{d}, S{a}}; check<S>("interval", iv, (i128)d * D + a); t += iv; check<S>("+=interval", t, before + (i128)d * D + a); break; }
        case 6: t = t.template cast_to<microseconds>().template cast_to<S>(); check<S>("cast-roundtrip", t, before); break;
        case 7: { auto v = t.template cast_to<seconds>(); check<seconds>("cast-seconds", v, fdiv128(before, res<S>::f)); break; }
        default: { datetime<S> z(modified_julian_day{gen_mjd(r, -3000000, 3000000)}, S{gen_tod<S>(r)});
                   auto iv = t.delta_date(z); check<S>("delta_date", iv, before - total(z)); check<S>("free-delta_date", delta_date(t, z), before - total(z));
                   auto q = iv / (int)r.in(1, 1000); if (iv.days() >= modified_julian_day{0}) EXPECT(normalized<S>(q), "interval-division-range", "time part %ld", U(q.sec())); }
      }
      count("history steps");
      judged(true);
      if (U(t.mjd()) > 1000000000000L || U(t.mjd()) < -1000000000000L) t = datetime<S>(modified_julian_day{m0}, S{u0});
    }
  }
  sample("histories");
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("boundaries")) {           // every small amount around every day multiple, exhaustively
    each_res([&](auto s) { using S = decltype(s); CLS(S); const long D = day_units<S>();
      EXPECT(max_days_allowed<S>() == LONG_MAX / D, "max_days_allowed", "max_days_allowed is %ld", (long)max_days_allowed<S>());
      std::vector<long> ks; for (long k = -400; k <= 400; k++) ks.push_back(k);
      for (long k : {24855L, 24856L, 49710L, 49711L, (long)INT_MAX / 100, LONG_MAX / D - 1}) { ks.push_back(k); ks.push_back(-k); }
      for (long k : ks) for (long e = -60; e <= 60; e++) {
        long a = k * D + e;
        set_cur("mjd+units", 0, a);
        check<S>("datetime(mjd,S)", datetime<S>(modified_julian_day{0}, S{a}), a);
        check<S>("interval(mjd,S)", datetime_interval<S>(modified_julian_day{0}, S{a}), a);
        judged();
      }
      for (long a : {LONG_MAX, -LONG_MAX, LONG_MAX - 1}) {
        set_cur("mjd+units", 5, a);
        check<S>("datetime(mjd,S)", datetime<S>(modified_julian_day{5}, S{a}), (i128)5 * D + a);
        check<S>("interval(mjd,S)", datetime_interval<S>(modified_julian_day{5}, S{a}), (i128)5 * D + a); judged();
      }
    }); sample("boundaries");
  }
  if (section("constructors")) { Rng r = rng_for("constructors"); each_res([&](auto s) { constructors<decltype(s)>(r, scale(200000)); }); }
  if (section("histories")) { Rng r = rng_for("histories"); each_res([&](auto s) { histories<decltype(s)>(r, scale(40000)); }); }
  return finish();
}
