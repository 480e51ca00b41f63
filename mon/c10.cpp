// C10: splitting amounts of time loses nothing.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static void split_one(long a) {
  const long f = res<S>::f, D = day_units<S>();
  CLS(S); set_cur("split", a);
  const S x{a};
  if (a / f / 3600 <= INT_MAX) {
    auto t = x.to_hmsf(); long h = U(std::get<0>(t)), m = U(std::get<1>(t)), s = U(std::get<2>(t)), u = std::get<3>(t);
    EXPECT(m >= 0 && m <= 59 && s >= 0 && s <= 59 && u >= 0 && u < f && h >= 0, "hmsf-range", "split into %ld:%ld:%ld + %ld", h, m, s, u);
    EXPECT(((i128)h * 3600 + m * 60 + s) * f + u == a, "hmsf-recombine", "split into %ld:%ld:%ld + %ld, which is %s", h, m, s, u, i128s(((i128)h * 3600 + m * 60 + s) * f + u).c_str());
    S y{std::get<0>(t), std::get<1>(t), S{s * f + u}};
    EXPECT(U(y) == a, "hms-ctor", "recombining through the constructor gives %ld", U(y));
    S z{std::get<0>(t), std::get<1>(t), (double)(s * f + u) / f};
    EXPECT(U(z) == a, "hms-double-ctor", "recombining with %ld + %ld/%ld seconds as a real number gives %ld", s, u, f, U(z));
    count("splits into h:m:s+f");
  }
  EXPECT(x.more_than_day() == (a > D), "more_than_day", "more_than_day is %d", (int)x.more_than_day());
  if (a / D <= INT_MAX) {
    EXPECT(x.to_days() == a / D, "to_days", "to_days is %d, whole days are %ld", x.to_days(), a / D);
    S y{a}; int d = y.remove_days();
    EXPECT(d == a / D, "remove_days", "remove_days returns %d, whole days are %ld", d, a / D);
    EXPECT(U(y) == a % D, "remove_days-rest", "remove_days leaves %ld, expected %ld", U(y), a % D);
    EXPECT((i128)d * D + U(y) == a && !y.more_than_day() && y.to_days() == 0, "remove_days-sum", "days and rest do not add up");
    count("whole days removed", a / D > 0);
  }
  if constexpr (std::is_same<S, milliseconds>::value) {
    double fr = -1; seconds s = x.resolve_sec(fr);
    EXPECT(U(s) == a / 1000, "resolve_sec", "resolve_sec gives %ld seconds", U(s));
    EXPECT(fr >= 0 && fr < 1 && (long)std::llround(fr * 1000) == a % 1000 && std::fabs(fr * 1000 - (double)(a % 1000)) < 1e-9, "resolve_sec-fraction", "fraction is %.17g", fr);
  }
  EXPECT(U(x) == a, "operand-changed", "the amount changed");
  judged(a >= f);
}
static void hm(long v) {
  set_cur("hours/minutes", v);
  hours h{(int)v}; int d = h.remove_days();
  EXPECT(d == v / 24 && U(h) == v % 24, "hours-remove_days", "%d days and %ld hours left", d, U(h));
  minutes m{(int)v}; hours q = m.remove_hours();
  EXPECT(U(q) == v / 60 && U(m) == v % 60, "minutes-remove_hours", "%ld hours and %ld minutes left", U(q), U(m));
  judged(v >= 24);
}
/// h:m:s.f given -> constructor -> split gives the same back
template<class S> static void recombine(long h, long m, long s, long u) {
  const long f = res<S>::f; CLS(S); set_cur("recombine", h, m, s, u);
  S x{hours{(int)h}, minutes{(int)m}, S{s * f + u}};
  EXPECT(U(x) == (h * 3600 + m * 60 + s) * f + u, "hms-ctor", "constructor gives %ld", U(x));
  auto t = x.to_hmsf();
  EXPECT(U(std::get<0>(t)) == h && U(std::get<1>(t)) == m && U(std::get<2>(t)) == s && std::get<3>(t) == u, "hms-roundtrip", "came back as %ld:%ld:%ld + %ld", U(std::get<0>(t)), U(std::get<1>(t)), U(std::get<2>(t)), std::get<3>(t));
  judged();
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("seconds")) {
    for (long a = 0; a <= (opt.thorough ? 86400L * 400 : 86400L * 8); a++) if (mine(a)) split_one<seconds>(a);
    for (long s = 0; s < 86400; s++) if (mine(s)) { split_one<milliseconds>(s * 1000 + 999); split_one<milliseconds>(s * 1000); split_one<microseconds>(s * 1000000); split_one<microseconds>(s * 1000000 + 999999); }
    sample("seconds");
  }
  if (section("milliseconds")) {
    if (opt.thorough) for (long a = 0; a <= 86400000L * 2; a++) { if (mine(a)) split_one<milliseconds>(a); }
    else for (long a = (long)opt.seed % 53; a <= 86400000L + 100; a += 53) split_one<milliseconds>(a);
    for (long a = 0; a < 70000; a++) if (mine(a)) { split_one<milliseconds>(a); split_one<microseconds>(a); split_one<microseconds>(86399000000L + a * 15); }
    sample("milliseconds");
  }
  if (section("boundaries")) {
    each_res([&](auto v) { using S = decltype(v); const long f = res<S>::f;
      for (long k : {1L, 2L, 7L, 59L, 60L, 61L, 1000L, 24855L, 24856L, 49710L, 65536L, 596523L, 596524L, 1193046L, 1193047L, (long)INT_MAX / 86400, (long)INT_MAX / 3600, (long)INT_MAX})
        for (long unit : {1L, 60L, 3600L, 86400L}) for (long e = -3; e <= 3; e++) { i128 a = (i128)k * unit * f + e; if (fits_long(a) && a >= 0) split_one<S>((long)a); }
      for (int bit = 1; bit < 63; bit++) for (long e = -2; e <= 2; e++) { split_one<S>((1L << bit) + e); i128 b = (i128)(1L << bit) * f + e; if (b > 0 && fits_long(b)) split_one<S>((long)b); }
      const long D = day_units<S>();     // every number of whole days of a century and a half, and powers of two
      for (long d = 0; d <= 55000; d++) if (mine(d)) { split_one<S>(d * D); split_one<S>(d * D + D - 1); if (d % 8 == 0) split_one<S>(d * D + D / 2); }
      for (int bit = 10; bit < 31; bit++) for (long d = (1L << bit) - 1; d <= (1L << bit) + 1; d++) for (long e : {0L, 1L, D / 2, D - 1}) { i128 x = (i128)d * D + e; if (fits_long(x)) split_one<S>((long)x); }
      for (long e = 0; e < 20; e++) split_one<S>(LONG_MAX - e); });
    for (long v = 0; v <= 200000; v++) hm(v);
    for (int bit = 1; bit < 31; bit++) for (long e = -2; e <= 2; e++) hm(std::max(0L, (1L << bit) + e));
    for (long e = 0; e < 100; e++) hm(INT_MAX - e);
    sample("boundaries");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(400000);
    each_res([&](auto v) { using S = decltype(v); for (long i = 0; i < n; i++) split_one<S>(gen_amount<S>(r, r.chance(50) ? LONG_MAX : LONG_MAX / 1000000, false)); sample("random"); });
    for (long i = 0; i < n; i++) hm(r.logu(INT_MAX));
  }
  if (section("recombine")) {
    Rng r = rng_for("recombine"); long n = scale(300000);
    each_res([&](auto v) { using S = decltype(v); const long f = res<S>::f;
      for (long i = 0; i < n; i++) { long h = r.chance(70) ? r.in(0, 100) : r.logu(INT_MAX - 1); recombine<S>(h, r.in(0, 59), r.in(0, 59), r.chance(30) ? f - 1 : r.in(0, f - 1)); } sample("recombine"); });
  }
  if (section("alike")) { Rng r = rng_for("alike"); each_res([&](auto v) { using S = decltype(v); alike(r, 0, LONG_MAX, scale(30000), [](long a) { split_one<S>(a); }); sample("alike"); }); alike(r, 0, INT_MAX, scale(30000), [](long v) { hm(v); }); }
  return finish();
}
