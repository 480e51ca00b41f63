// C08: comparison is chronological order.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class D> static void cmp(const D& a, const D& b, i128 ta, i128 tb) {
  bool lt = a < b, le = a <= b, gt = a > b, ge = a >= b, eq = a == b, ne = a != b;
  if (lt != (ta < tb) || le != (ta <= tb) || gt != (ta > tb) || ge != (ta >= tb) || eq != (ta == tb) || ne != (ta != tb))
    viol("order", "< %d <= %d > %d >= %d == %d != %d, instants compare as %s", lt, le, gt, ge, eq, ne, ta < tb ? "less" : ta > tb ? "greater" : "equal");
  if (int(lt) + int(eq) + int(gt) != 1) viol("trichotomy", "%d of less, equal, greater hold", int(lt) + int(eq) + int(gt));
  count(ta < tb ? "less" : ta > tb ? "greater" : "equal");
}
template<class S> static void pair(long ma, long ua, long mb, long ub) {
  CLS(S);
  const datetime<S> a(modified_julian_day{ma}, S{ua}), b(modified_julian_day{mb}, S{ub});
  const datetime_interval<S> x{modified_julian_day{ma}, S{ua}}, y{modified_julian_day{mb}, S{ub}};
  i128 ta = (i128)ma * day_units<S>() + ua, tb = (i128)mb * day_units<S>() + ub;
  set_cur("datetime", ma, ua, mb, ub); cmp(a, b, ta, tb); cmp(b, a, tb, ta); cmp(a, a, ta, ta);
  const auto hi = datetime<S>::max(), lo = datetime<S>::min();
  EXPECT(a <= hi && a >= lo && !(a > hi) && !(a < lo) && hi >= a && lo <= a, "min-max", "not between min() and max()");
  judged(ta != tb);
  set_cur("interval", ma, ua, mb, ub); cmp(x, y, ta, tb); cmp(y, x, tb, ta); cmp(x, x, ta, ta); judged(ta != tb);
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("boundaries")) {
    each_res([&](auto s) { using S = decltype(s); const long D = day_units<S>();
      std::vector<long> us = {0, 1, 2, 59, 60, D / 2, D - 2, D - 1, 3600 * res<S>::f}, ms = {-3, -2, -1, 0, 1, 2, 3, 44244, 57754, INT_MAX, INT_MAX + 1L, 2L * INT_MAX + 2, INT_MIN, INT_MIN - 1L, 4294967297L, -4294967297L, LONG_MAX - 2, LONG_MAX - 1, LONG_MIN + 1, LONG_MIN + 2};
      for (long u : {(1L << 31) - 1, 1L << 31, (1L << 32), (1L << 32) + 1}) if (u < D) us.push_back(u);
      for (long a : ms) for (long u : us) for (long b : ms) for (long v : us) pair<S>(a, u, b, v);
      set_cur("min-max", 0);
      CLS(S); const auto hi = datetime<S>::max(), lo = datetime<S>::min();
      EXPECT(lo < hi && hi > lo && lo != hi && !(lo == hi) && lo <= hi && hi >= lo, "min-max", "min() is not below max()");
      EXPECT(normalized<S>(hi) && normalized<S>(lo), "min-max-range", "min()/max() not normalized"); 
      EXPECT(U(hi.mjd()) == LONG_MAX && U(lo.mjd()) == LONG_MIN, "min-max-days", "min()/max() days are %ld, %ld", U(lo.mjd()), U(hi.mjd())); judged();
    }); sample("boundaries");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(150000);
    each_res([&](auto s) { using S = decltype(s);
      for (long i = 0; i < n; i++) {
        long ma = gen_mjd(r, -9000000000000000000L, 9000000000000000000L), mb = r.chance(60) ? ma + r.in(-1, 1) : gen_mjd(r, -9000000000000000000L, 9000000000000000000L);
        long ua = gen_tod<S>(r), ub = r.chance(50) ? std::max(0L, std::min(day_units<S>() - 1, ua + r.in(-1, 1))) : gen_tod<S>(r);
        pair<S>(ma, ua, mb, ub);
      } sample("random"); });
  }
  if (section("sort")) {
    Rng r = rng_for("sort"); long n = scale(300);
    each_res([&](auto s) { using S = decltype(s); CLS(S);
      for (long i = 0; i < n; i++) {
        std::vector<datetime<S>> v; std::vector<i128> w; long base = gen_mjd(r, -3000000, 3000000);
        for (int k = 0; k < 300; k++) { datetime<S> t(modified_julian_day{r.chance(80) ? base + r.in(-3, 3) : gen_mjd(r, -3000000, 3000000)}, S{gen_tod<S>(r)}); v.push_back(t); w.push_back(total(t)); }
        set_cur("sort", base, i);
        if (r.chance(50)) std::sort(v.begin(), v.end()); else { std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return a > b; }); std::reverse(v.begin(), v.end()); }
        std::sort(w.begin(), w.end());
        for (size_t k = 0; k < v.size(); k++) if (total(v[k]) != w[k]) { viol("sort", "sorted datetimes are not in chronological order at %zu", k); break; }
        judged(); count("lists sorted");
      } }); sample("sort");
  }
  return finish();
}
