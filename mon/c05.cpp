// C05: every way to construct a datetime agrees; accessors read the fields back.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static void same(const char* key, const datetime<S>& t, i128 want) {
  i128 got = total(t); EXPECT(normalized<S>(t), std::string(key) + "-range", "%s: the time of day is %ld units", key, U(t.sec()));
  if (got != want) viol(key, "%s is %s units, the same instant is %s", key, i128s(got).c_str(), i128s(want).c_str());
}

/// an instant given by calendar fields: y-m-d, h:m:s + u units below the second
template<class S> static void instant(long mjd, int h, int mi, int s, long u) {
  CLS(S); const long f = res<S>::f, D = day_units<S>();
  Ymd c = civil(mjd);
  set_cur("instant", c.y, c.m, c.d, h, mi, s, u);
  year Y{(int)c.y}; month M{c.m}; day_of_month Dm{c.d}; day_of_year N{c.doy}; modified_julian_day J{mjd};
  hours H{h}; minutes I{mi};
  long sec_u = s * f + u, tod = (h * 3600L + mi * 60L) * f + sec_u;
  i128 want = (i128)mjd * D + tod;
  same("(y,m,d,S)", datetime<S>(Y, M, Dm, S{tod}), want);
  same("(y,m,d,h,m,S)", datetime<S>(Y, M, Dm, H, I, S{sec_u}), want);
  same("(y,doy,S)", datetime<S>(Y, N, S{tod}), want);
  same("(y,doy,h,m,S)", datetime<S>(Y, N, H, I, S{sec_u}), want);
  same("(mjd,h,m,S)", datetime<S>(J, H, I, S{sec_u}), want);
  same("(mjd,S)", datetime<S>(J, S{tod}), want);
  if (mjd >= 44244) {                                 // GPS week form
    long w = (mjd - 44244) / 7, sow = ((mjd - 44244) % 7) * D + tod;
    same("(gps_week,S)", datetime<S>(gps_week{w}, S{sow}), want);
    same("(gps_week,S)-prev", datetime<S>(gps_week{w - 1}, S{sow + 7 * D}), want);
  }
  // hours and minutes only, and the time given otherwise
  same("(y,m,d,h,m)", datetime<S>(Y, M, Dm, H, I), (i128)mjd * D + (h * 3600L + mi * 60L) * f);
  same("(y,doy,h,m)", datetime<S>(Y, N, H, I), (i128)mjd * D + (h * 3600L + mi * 60L) * f);
  same("(mjd,h,m)", datetime<S>(J, H, I), (i128)mjd * D + (h * 3600L + mi * 60L) * f);
  same("(y,m,d,h)", datetime<S>(Y, M, Dm, H), (i128)mjd * D + h * 3600L * f);
  same("(y,doy,h)", datetime<S>(Y, N, H), (i128)mjd * D + h * 3600L * f);
  same("(mjd,h)", datetime<S>(J, H), (i128)mjd * D + h * 3600L * f);
  same("(y,m,d)", datetime<S>(Y, M, Dm), (i128)mjd * D);
  same("(y,doy)", datetime<S>(Y, N), (i128)mjd * D);
  same("(y,m,d,0,0,S)", datetime<S>(Y, M, Dm, hours{0}, minutes{0}, S{tod}), want);
  same("(y,m,d,0,min,S)", datetime<S>(Y, M, Dm, hours{0}, minutes{h * 60 + mi}, S{sec_u}), want);
  same("(y,m,d,h-24,..)+1day", datetime<S>(modified_julian_day{mjd + 1}, hours{h - 24}, I, S{sec_u}), want);
  same("(y,doy,h+24,..)-1day", datetime<S>(modified_julian_day{mjd - 1}, hours{h + 24}, I, S{sec_u}), want);
  // as fractional seconds
  double fs = (double)sec_u / (double)f;
  { datetime<S> a(Y, M, Dm, H, I, fs), b(Y, N, H, I, fs); cur_d(fs);
    if (f == 1) fs = s;
    same("(y,m,d,h,m,double)", a, want); same("(y,doy,h,m,double)", b, want); }
  // through the amount's own hours/minutes/seconds constructors
  { S x{H, I, S{sec_u}}; EXPECT(U(x) == tod, "S(h,m,S)", "S(h,m,S) is %ld, expected %ld", U(x), tod); 
    S y{H, I, fs}; EXPECT(U(y) == tod, "S(h,m,double)", "S(h,m,double) is %ld, expected %ld", U(y), tod); }
  // accessors
  datetime<S> t(Y, M, Dm, H, I, S{sec_u});
  ymd_date g = t.as_ymd(); ydoy_date e = t.as_ydoy();
  EXPECT(U(t.mjd()) == mjd, "mjd()", "mjd() is %ld, expected %ld", U(t.mjd()), mjd);
  EXPECT(U(g.__year) == c.y && U(g.__month) == c.m && U(g.__dom) == c.d, "as_ymd", "as_ymd is %ld-%ld-%ld", U(g.__year), U(g.__month), U(g.__dom));
  EXPECT(U(e.__year) == c.y && U(e.__doy) == c.doy, "as_ydoy", "as_ydoy is %ld/%ld, expected %ld/%d", U(e.__year), U(e.__doy), c.y, c.doy);
  EXPECT(U(t.sec()) == tod && (long)t.sec_as_i() == tod, "sec", "time of day is %ld, expected %ld", U(t.sec()), tod);
  auto q = t.as_hmsf();
  EXPECT(U(std::get<0>(q)) == h && U(std::get<1>(q)) == mi && U(std::get<2>(q)) == s && std::get<3>(q) == u, "as_hmsf", "as_hmsf is %ld:%ld:%ld + %ld", U(std::get<0>(q)), U(std::get<1>(q)), U(std::get<2>(q)), std::get<3>(q));
  same("copy", datetime<S>(t), want);
  judged();
}

/// the same instant given from another day: k days earlier (or later), the time in hours, minutes or seconds making up for it
template<class S> static void spanning(Rng& r, long n) {
  CLS(S); const long f = res<S>::f, D = day_units<S>();
  static const long ks[] = {1, 1, 1, -1, -1, 2, -2, 7, -7, 30, 31, 365, -365, 366, 1000, 1001, -1000, 1461};
  for (long i = 0; i < n; i++) {
    const long mjd = gen_mjd(r, mjd_lo() + 30000, 10000000L), tod = r.chance(30) ? 0 : gen_tod<S>(r), k = r.chance(80) ? r.pick(ks) : r.in(-20000, 20000);
    const long h = tod / f / 3600, mi = tod / f / 60 % 60, su = tod % (60 * f); const i128 want = (i128)mjd * D + tod;
    const Ymd c = civil(mjd - k); const year Y{(int)c.y}; const month M{c.m}; const day_of_month Dm{c.d}; const day_of_year N{c.doy}; const modified_julian_day J{mjd - k};
    set_cur("from another day", c.y, c.m, c.d, k, tod);
    same("other-day(y,m,d,S)", datetime<S>(Y, M, Dm, S{k * D + tod}), want); same("other-day(y,doy,S)", datetime<S>(Y, N, S{k * D + tod}), want); same("other-day(mjd,S)", datetime<S>(J, S{k * D + tod}), want);
    auto forms = [&](hours H, minutes I, S u) {
      same("other-day(y,m,d,h,m,S)", datetime<S>(Y, M, Dm, H, I, u), want); same("other-day(y,doy,h,m,S)", datetime<S>(Y, N, H, I, u), want); same("other-day(mjd,h,m,S)", datetime<S>(J, H, I, u), want);
      const double fs = (double)U(u) / (double)f;
      if (U(u) >= 0 && (U(u) < 3600 * f || U(u) % f == 0)) { same("other-day(y,m,d,h,m,double)", datetime<S>(Y, M, Dm, H, I, fs), want); same("other-day(y,doy,h,m,double)", datetime<S>(Y, N, H, I, fs), want); }
      each_res([&](auto x) { using T = decltype(x); if constexpr (res<T>::f >= res<S>::f) { const T t{U(u) * (res<T>::f / f)};
        same("other-day(y,m,d,h,m,T)", datetime<S>(Y, M, Dm, H, I, t), want); same("other-day(y,doy,h,m,T)", datetime<S>(Y, N, H, I, t), want); } });
      if (U(u) == 0) { same("other-day(y,m,d,h,m)", datetime<S>(Y, M, Dm, H, I), want); same("other-day(y,doy,h,m)", datetime<S>(Y, N, H, I), want); same("other-day(mjd,h,m)", datetime<S>(J, H, I), want); } };
    forms(hours{(int)(h + 24 * k)}, minutes{(int)mi}, S{su});
    forms(hours{(int)h}, minutes{(int)(mi + 1440 * k)}, S{su});
    forms(hours{0}, minutes{(int)(h * 60 + mi + 1440 * k)}, S{su});
    forms(hours{(int)h}, minutes{(int)mi}, S{su + D * k});
    forms(hours{(int)(h + 24 * k)}, minutes{0}, S{su + mi * 60 * f});
    if (mjd - k >= 44244) { const long d = mjd - k - 44244; same("other-week(gps_week,S)", datetime<S>(gps_week{d / 7}, S{(d % 7 + k) * D + tod}), want); }
    judged(); count("given from another day");
  }
}
/// any real number of seconds: all constructors that take one agree, and are less than a unit away from what was given
template<class S> static void reals(Rng& r, long n) {
  CLS(S); const long f = res<S>::f, D = day_units<S>();
  for (long i = 0; i < n; i++) {
    const long mjd = gen_mjd(r, mjd_lo(), 10000000L); const Ymd c = civil(mjd); int h = (int)r.in(0, 23), m = (int)r.in(0, 59);
    double x;
    switch (r.in(0, 7)) {
      case 0: x = (double)r.in(0, 5) / (double)r.in(1, 9000000000000L); break;
      case 1: x = 60.0 - (double)r.in(0, 50) / (double)r.in(50, 9000000000L); break;
      case 2: x = (double)r.in(0, 60); x = r.chance(50) ? std::nextafter(x, 1e9) : std::max(0.0, std::nextafter(x, -1.0)); break;
      case 3: x = std::ldexp(1.0, (int)r.in(-1074, 16)); break;
      case 4: x = (double)r.in(0, 600000) / 1e4; break;
      case 5: x = (double)r.in(0, 86400000000L) / 1e6; h = m = 0; break;
      case 6: x = (double)r.in(0, 120) / 2; break;
      default: x = (double)r.in(0, LONG_MAX) / (double)LONG_MAX * 60;
    }
    set_cur("real seconds", c.y, c.m, c.d, h, m); cur_d(x);
    const datetime<S> a(year{(int)c.y}, month{c.m}, day_of_month{c.d}, hours{h}, minutes{m}, x), b(year{(int)c.y}, day_of_year{c.doy}, hours{h}, minutes{m}, x);
    const S u{hours{h}, minutes{m}, x}; const i128 base = (i128)mjd * D, hm = (h * 3600L + m * 60L) * f;
    EXPECT(total(a) == total(b), "real-differ", "the calendar form gives %s, the day of year form %s", i128s(total(a)).c_str(), i128s(total(b)).c_str());
    EXPECT(total(a) - base == U(u), "real-unit-differ", "the datetime holds %s units of the day, the amount %ld", i128s(total(a) - base).c_str(), U(u));
    const long double left = (long double)x * f - (long double)(total(a) - base - hm);
    EXPECT(left > -1e-3L && left < 1.0L + 1e-3L, "real-off", "%.20Lg units were given, %s are held", (long double)x * f, i128s(total(a) - base - hm).c_str());
    EXPECT(normalized<S>(a) && normalized<S>(b), "real-range", "time of day out of range");
    judged(x != std::floor(x)); count("real numbers of seconds given");
  }
}
/// time given in a finer resolution T is truncated to S
template<class S, class T> static void finer(Rng& r, long n) {
  CLS(S); const long k = res<T>::f / res<S>::f, D = day_units<S>();
  for (long i = 0; i < n; i++) {
    long mjd = gen_mjd(r, mjd_lo(), 10000000L); Ymd c = civil(mjd);
    long a = gen_amount<T>(r, LONG_MAX / 16);
    int h = (int)r.in(0, 23), m = (int)r.in(0, 59);
    set_cur("finer", c.y, c.m, c.d, h, m, a, res<T>::f);
    year Y{(int)c.y}; month M{c.m}; day_of_month Dm{c.d}; day_of_year N{c.doy};
    i128 base = (i128)mjd * D, hm = (h * 3600L + m * 60L) * res<S>::f, cut = a / k;   // toward zero
    same("(y,m,d,T)", datetime<S>(Y, M, Dm, T{a}), base + cut);
    same("(y,doy,T)", datetime<S>(Y, N, T{a}), base + cut);
    same("(y,m,d,h,m,T)", datetime<S>(Y, M, Dm, hours{h}, minutes{m}, T{a}), base + hm + cut);
    same("(y,doy,h,m,T)", datetime<S>(Y, N, hours{h}, minutes{m}, T{a}), base + hm + cut);
    judged(a % k != 0 || k == 1);
    count("finer time given");
  }
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("nothing")) {             // made from nothing: the day of the published J2000 epoch, an empty interval
    each_res([&](auto z) { using S = decltype(z); CLS(S);
      alignas(datetime<S>) unsigned char room[sizeof(datetime<S>)]; alignas(datetime_interval<S>) unsigned char iroom[sizeof(datetime_interval<S>)];
      for (int fill : {0, 0xa5, 0xff}) {
        memset(room, fill, sizeof room); memset(iroom, fill, sizeof iroom); set_cur("from nothing", fill);
        datetime<S>* t = new (room) datetime<S>(); datetime_interval<S>* v = new (iroom) datetime_interval<S>();
        same("datetime()", *t, (i128)51544 * day_units<S>()); EXPECT(t->as_mjd() == std::floor(j2000_mjd), "datetime()-mjd", "as_mjd of a default datetime is %.17g", t->as_mjd());
        EXPECT(total(*v) == 0 && normalized<S>(*v) && *v == (datetime_interval<S>{modified_julian_day{0}, S{0}}), "datetime_interval()", "a default interval holds %ld days and %ld units", U(v->days()), U(v->sec()));
        judged(); count("made from nothing"); } });
    sample("nothing");
  }
  if (section("days")) {                 // each day of some years, time of day varying
    Rng r = rng_for("days");
    for (long mjd = mjd_of(1858, 1, 1); mjd <= mjd_of(opt.thorough ? 9999 : 2120, 12, 31); mjd++) {
      if (!mine(mjd)) continue;
      instant<microseconds>(mjd, (int)r.in(0, 23), (int)r.in(0, 59), (int)r.in(0, 59), r.in(0, 999999));
    }
    sample("days");
  }
  if (section("times")) {                // every second of the day
    Rng r = rng_for("times");
    for (long s = 0; s < 86400; s++) {
      if (!mine(s)) continue;
      long mjd = gen_mjd(r, mjd_lo(), 3000000);
      int h = (int)(s / 3600), m = (int)(s / 60 % 60), q = (int)(s % 60);
      instant<seconds>(mjd, h, m, q, 0);
      instant<milliseconds>(mjd, h, m, q, r.chance(30) ? 999 : r.in(0, 999));
      instant<microseconds>(mjd, h, m, q, r.chance(30) ? 999999 : r.in(0, 999999));
      count("times of day");
    }
    sample("times");
  }
  if (section("fractions")) {            // every millisecond of a minute, and many microseconds
    Rng r = rng_for("fractions");
    for (long v = 0; v < 60000; v++) if (mine(v)) { instant<milliseconds>(51544, (int)r.in(0, 23), (int)r.in(0, 59), (int)(v / 1000), v % 1000); count("milliseconds of a minute"); }
    long step = opt.thorough ? 7 : 401;
    for (long v = opt.seed % step; v < 60000000; v += step) if (mine(v / step)) { instant<microseconds>(51544, (int)r.in(0, 23), (int)r.in(0, 59), (int)(v / 1000000), v % 1000000); count("microseconds of a minute"); }
    sample("fractions");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(80000);
    for (long i = 0; i < n; i++) {
      long mjd = gen_mjd(r, mjd_lo(), 780000000000L);
      each_res([&](auto s) { using S = decltype(s); long t = gen_tod<S>(r), f = res<S>::f; instant<S>(mjd, (int)(t / f / 3600), (int)(t / f / 60 % 60), (int)(t / f % 60), t % f); });
    }
    sample("random");
  }
  if (section("spanning")) { Rng r = rng_for("spanning"); each_res([&](auto s) { spanning<decltype(s)>(r, scale(40000)); }); sample("spanning"); }
  if (section("reals")) { Rng r = rng_for("reals"); each_res([&](auto s) { reals<decltype(s)>(r, scale(80000)); }); sample("reals"); }
  if (section("finer")) {
    Rng r = rng_for("finer"); long n = scale(60000);
    finer<seconds, seconds>(r, n); finer<seconds, milliseconds>(r, n); finer<seconds, microseconds>(r, n);
    finer<milliseconds, milliseconds>(r, n); finer<milliseconds, microseconds>(r, n); finer<microseconds, microseconds>(r, n);
    sample("finer");
  }
  if (section("alike")) { Rng r = rng_for("alike"); each_res([&](auto s) { using S = decltype(s); long t = 0, f = res<S>::f; alike(r, mjd_lo(), 780000000000L, scale(8000), [&](long m) { if (r.chance(10)) t = gen_tod<S>(r); instant<S>(m, (int)(t / f / 3600), (int)(t / f / 60 % 60), (int)(t / f % 60), t % f); });
      alike(r, 0, day_units<S>() - 1, scale(8000), [&](long v) { instant<S>(51544, (int)(v / f / 3600), (int)(v / f / 60 % 60), (int)(v / f % 60), v % f); }); sample("alike"); }); }
  return finish();
}
