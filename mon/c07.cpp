// C07: differences are exact, antisymmetric, chain, and invert addition.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> static datetime<S> mk(long mjd, long u) { return datetime<S>(modified_julian_day{mjd}, S{u}); }
template<class A, class B> struct finer { using type = std::conditional_t<(res<A>::f >= res<B>::f), A, B>; };

template<class A, class B> static void pair(long ma, long ua, long mb, long ub) {
  using F = typename finer<A, B>::type;
  cur.cls = res<A>::name; set_cur("pair", ma, ua, mb, ub, res<A>::f, res<B>::f);
  const datetime<A> a = mk<A>(ma, ua); const datetime<B> b = mk<B>(mb, ub);
  i128 ta = total(a) * (res<F>::f / res<A>::f), tb = total(b) * (res<F>::f / res<B>::f), want = ta - tb;
  if (!fits_long(want) || !fits_long(((i128)ma - mb) * day_units<F>())) return;
  auto d = delta_sec(a, b);
  static_assert(std::is_same<decltype(d), F>::value, "the difference is in the finer resolution");
  EXPECT(U(d) == want, "delta_sec", "delta_sec is %ld, elapsed %s", U(d), i128s(want).c_str());
  auto e = delta_sec(b, a);
  EXPECT((i128)U(e) == -want, "delta_sec-antisymmetric", "reverse difference is %ld, elapsed %s", U(e), i128s(-want).c_str());
  if constexpr (std::is_same<A, B>::value) {
    EXPECT(U(a.delta_sec(b)) == want, "member-delta_sec", "delta_sec is %ld, elapsed %s", U(a.delta_sec(b)), i128s(want).c_str());
    EXPECT((i128)U(b.delta_sec(a)) == -want, "member-delta_sec", "reverse delta_sec is %ld", U(b.delta_sec(a)));
    A md = mjd_sec_diff<A>(a.mjd(), b.mjd());
    EXPECT(U(md) == ((i128)ma - mb) * day_units<A>(), "mjd_sec_diff", "mjd_sec_diff is %ld", U(md));
    auto iv = a.delta_date(b); auto jv = delta_date(a, b);
    EXPECT(normalized<A>(iv), "delta_date-range", "delta_date has time part %ld", U(iv.sec()));
    EXPECT(total(iv) == want, "delta_date", "delta_date denotes %s, elapsed %s", i128s(total(iv)).c_str(), i128s(want).c_str());
    EXPECT(normalized<A>(jv) && total(jv) == want, "free-delta_date", "delta_date(a,b) denotes %s", i128s(total(jv)).c_str());
    auto kv = b.delta_date(a);
    EXPECT(total(kv) == -want, "delta_date-antisymmetric", "reverse delta_date denotes %s", i128s(total(kv)).c_str());
    datetime<A> c(b); c += iv;
    EXPECT(c == a && total(c) == total(a), "add-back", "second + difference is %s, first is %s", i128s(total(c)).c_str(), i128s(total(a)).c_str());
    if (want > LONG_MAX - day_units<A>() || want < -(LONG_MAX - day_units<A>())) { judged(); return; }   // sum with a time of day must fit
    datetime<A> g(b); g.add_seconds(d);
    EXPECT(g == a, "add-back-sec", "second + delta_sec is %s, first is %s", i128s(total(g)).c_str(), i128s(total(a)).c_str());
    datetime<A> h(a); h.remove_seconds(d);
    EXPECT(h == b, "remove-back-sec", "first - delta_sec is not the second");
  }
  EXPECT(U(a.mjd()) == ma && U(a.sec()) == ua && U(b.mjd()) == mb && U(b.sec()) == ub, "operand-changed", "an operand changed");
  count(want < 0 ? "negative differences" : want == 0 ? "zero differences" : "positive differences");
  judged(want != 0);
}

/// datetimes too far apart for one amount of seconds: as days and time
template<class A> static void far_apart(long ma, long ua, long mb, long ub) {
  cur.cls = res<A>::name; set_cur("far", ma, ua, mb, ub); const i128 dd = (i128)ma - mb; if (dd > LONG_MAX - 2 || dd < -(i128)(LONG_MAX - 2)) return;
  const datetime<A> a = mk<A>(ma, ua), b = mk<A>(mb, ub); i128 want = total(a) - total(b);
  auto iv = a.delta_date(b), jv = delta_date(a, b), kv = b.delta_date(a), lv = delta_date(b, a);
  EXPECT(normalized<A>(iv) && total(iv) == want, "far-delta_date", "delta_date denotes %s, elapsed %s", i128s(total(iv)).c_str(), i128s(want).c_str());
  EXPECT(normalized<A>(jv) && total(jv) == want, "far-free-delta_date", "delta_date(a,b) denotes %s, elapsed %s", i128s(total(jv)).c_str(), i128s(want).c_str());
  EXPECT(normalized<A>(kv) && normalized<A>(lv) && total(kv) == -want && total(lv) == -want, "far-antisymmetric", "reverse delta_date denotes %s", i128s(total(kv)).c_str());
  datetime<A> c(b); c += iv; EXPECT(c == a && total(c) == total(a), "far-add-back", "second + difference is %s, first is %s", i128s(total(c)).c_str(), i128s(total(a)).c_str());
  datetime<A> d(a); d += kv; EXPECT(d == b && total(d) == total(b), "far-add-back", "first + reverse difference is %s, second is %s", i128s(total(d)).c_str(), i128s(total(b)).c_str());
  if (!fits_long(want)) count("differences that fit no amount of seconds");
  judged(want != 0);
}
template<class A, class B> static void pairs(Rng& r, long n) {
  using F = typename finer<A, B>::type;
  const long cap = cap_days<F>() - 1;
  for (long i = 0; i < n; i++) {
    long ma = gen_mjd(r, -cap / 2, cap / 2), mb = r.chance(50) ? ma + r.in(-3, 3) : gen_mjd(r, -cap / 2, cap / 2);
    if (r.chance(5)) { ma = r.in(-cap, cap); mb = std::max(-cap, std::min(cap, ma + (r.chance(50) ? 1 : -1) * r.logu(cap))); }
    long ua = gen_tod<A>(r), ub = r.chance(30) ? std::min(day_units<B>() - 1, std::max(0L, (long)((i128)ua * res<B>::f / res<A>::f) + r.in(-1, 1))) : gen_tod<B>(r);
    pair<A, B>(ma, ua, mb, ub);
  }
  cur.cls = "";
}
template<class A, class B, class C> static void chain(Rng& r, long n) {
  for (long i = 0; i < n; i++) {
    const long cap = cap_days<microseconds>() / 4;
    auto a = mk<A>(gen_mjd(r, -cap, cap), gen_tod<A>(r)); auto b = mk<B>(gen_mjd(r, -cap, cap), gen_tod<B>(r)); auto c = mk<C>(gen_mjd(r, -cap, cap), gen_tod<C>(r));
    set_cur("chain", U(a.mjd()), U(a.sec()), U(b.mjd()), U(b.sec()), U(c.mjd()), U(c.sec()), res<A>::f, res<B>::f, res<C>::f);
    auto us = [](auto d) { return U(cast_to<decltype(d), microseconds>(d)); };
    i128 l = (i128)us(delta_sec(a, b)) + us(delta_sec(b, c)), rr = us(delta_sec(a, c));
    EXPECT(l == rr, "chain", "(a-b)+(b-c) is %s, a-c is %s", i128s(l).c_str(), i128s(rr).c_str());
    judged(); count("chains");
  }
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("boundaries")) {
    each_res([&](auto s) { using A = decltype(s); each_res([&](auto v) { using B = decltype(v);
      const long DA = day_units<A>(), DB = day_units<B>();
      for (long dd = -3; dd <= 3; dd++) for (long ua : {0L, 1L, 2L, DA / 2, DA - 2, DA - 1}) for (long ub : {0L, 1L, 2L, 999L, 1000L, 1001L, DB / 2, DB - 2, DB - 1}) if (ub < DB)
        for (long m : {-1L, 0L, 1L, 44244L, 57754L, -678575L}) pair<A, B>(m, ua, m + dd, ub);
    }); });
    // the last spans that fit, in either direction
    each_res([&](auto s) { using A = decltype(s); const long k = cap_days<A>(), D = day_units<A>();
      for (long m : {0L, 5L, k / 2}) for (long dd : {k, k - 1, k - 2}) for (long u : {0L, 1L, D - 1}) for (long v : {0L, 1L, D - 1}) { pair<A, A>(m, u, m - dd, v); pair<A, A>(m - dd, u, m, v); } });
    sample("boundaries");
  }
  if (section("pairs")) {
    Rng r = rng_for("pairs"); long n = scale(120000);
    each_res([&](auto s) { using A = decltype(s); each_res([&](auto v) { using B = decltype(v); pairs<A, B>(r, n); sample("pairs"); }); });
  }
  if (section("far")) {
    Rng r = rng_for("far"); long n = scale(60000); const long H = LONG_MAX - 4;
    each_res([&](auto s) { using A = decltype(s); const long D = day_units<A>(), k = cap_days<A>();
      for (long m : {-H, -H / 2, -k - 1, -k, -1L, 0L, 1L, k, k + 1, H / 2, H}) for (long o : {-H, -H / 2, -k - 1, -k, -1L, 0L, 1L, k, k + 1, H / 2, H}) for (long u : {0L, 1L, D - 1}) for (long v : {0L, 1L, D - 1}) far_apart<A>(m, u, o, v);
      for (long i = 0; i < n; i++) { auto day = [&] { long v = r.logu(H); return r.chance(50) ? v : -v; }; long m = day(), o = r.chance(50) ? day() : r.chance(50) ? gen_mjd(r, -3000000, 3000000) : std::max(-H, m) - (m > 0 ? 1 : -1) * r.in(0, 3); long u = gen_tod<A>(r), v = r.chance(30) ? u : gen_tod<A>(r); far_apart<A>(m, u, o, v); }
      sample("far"); });
    cur.cls = "";
  }
  if (section("chain")) {
    Rng r = rng_for("chain"); long n = scale(30000);
    each_res([&](auto a) { using A = decltype(a); each_res([&](auto b) { using B = decltype(b); each_res([&](auto c) { using C = decltype(c); chain<A, B, C>(r, n); }); }); });
    sample("chain");
  }
  if (section("alike")) { Rng r = rng_for("alike"); each_res([&](auto s) { using A = decltype(s); const long c = cap_days<A>() / 2 - 2, m = gen_mjd(r, -2000000, 2000000); long u = 0, v = 0; if (m > -c && m < c) alike(r, -c, c, scale(20000), [&](long x) { if (r.chance(10)) { u = gen_tod<A>(r); v = gen_tod<A>(r); } pair<A, A>(x, u, m, v); pair<A, A>(m, u, x, v); });
      alike(r, 0, day_units<A>() - 1, scale(20000), [&](long x) { pair<A, A>(57754, x, 57753, v); }); sample("alike"); }); }
  return finish();
}
