// C06: histories of additions and removals against a 128-bit model.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class S> struct Machine {
  datetime<S> t; i128 model; bool exact = true;
  static constexpr long D = day_units<S>();
  Machine(long mjd, long u) : t(modified_julian_day{mjd}, S{u}), model((i128)mjd * D + u) {}

  /// after a step of num/k units: exact when whole, less than one unit off otherwise
  void after(const char* op, i128 num, long k) {
    i128 got = total(t), want_k = model * k + num;      // in 1/k units
    long s = U(t.sec());
    if (s < 0 || s >= D) viol(std::string(op) + "-range", "%s leaves time part %ld", op, s);
    i128 err = got * k - want_k;
    if (num % k == 0) {
      if (err != 0) viol(op, "%s: instant is %s, exact sum is %s", op, i128s(got).c_str(), i128s(want_k / k).c_str());
      count("whole-unit steps");
    } else {
      if (err >= k || err <= -k) viol(std::string(op) + "-off", "%s: instant is %s, a unit or more away from %s/%ld", op, i128s(got).c_str(), i128s(want_k).c_str(), k);
      count("fractional steps");
    }
    model = got;
    judged(num != 0);
  }
  template<class T> void step_T(Rng& r, bool add) {
    // the step in T; it and its value in S must be representable
    const long fs = res<S>::f, ft = res<T>::f;
    long lim = ft < fs ? (LONG_MAX / 4) / (fs / ft) : LONG_MAX / 4;
    long a = gen_amount<T>(r, lim);
    if (ft > fs && r.chance(40)) a = a / (ft / fs) * (ft / fs);      // whole units
    set_cur(add ? "add_seconds<T>" : "remove_seconds<T>", U(t.mjd()), U(t.sec()), a, ft);
    if (add) t.add_seconds(T{a}); else t.remove_seconds(T{a});
    i128 num = add ? (i128)a : -(i128)a; 
    if (ft <= fs) after(cur.op, num * (fs / ft), 1); else after(cur.op, num, ft / fs);
  }
  template<class T> void add_T(Rng& r) {                 // add(days, T), T as fine as S or finer
    const long k = res<T>::f / res<S>::f;
    long d = gen_mjd(r, -1000000000L, 1000000000L), a = gen_amount<T>(r, LONG_MAX / 4);
    if (k > 1 && r.chance(40)) a = a / k * k;
    set_cur("add<T>", U(t.mjd()), U(t.sec()), d, a, res<T>::f);
    const datetime<S> before(t); i128 b = total(before);
    datetime<S> n = before.template add<T>(modified_julian_day{d}, T{a});
    if (total(before) != b) viol("add-changes-original", "add changed the original");
    t = n; after("add<T>", (i128)d * D * k + a, k);
    datetime<S> only = before.template add<S>(modified_julian_day{d});
    if (total(only) != b + (i128)d * D) viol("add-days", "add(days) gives %s", i128s(total(only)).c_str());
    count("new datetimes returned");
  }
  void step(Rng& r) {
    switch (r.in(0, 9)) {
      case 0: step_T<S>(r, true); break;
      case 1: step_T<S>(r, false); break;
      case 2: step_T<seconds>(r, r.chance(50)); break;
      case 3: step_T<milliseconds>(r, r.chance(50)); break;
      case 4: step_T<microseconds>(r, r.chance(50)); break;
      case 5: if constexpr (res<S>::f <= 1) { add_T<seconds>(r); break; } [[fallthrough]];
      case 6: if constexpr (res<S>::f <= 1000) { add_T<milliseconds>(r); break; } [[fallthrough]];
      case 7: add_T<microseconds>(r); break;
      case 8: {
        long d = gen_mjd(r, -1000000000L, 1000000000L), a = gen_amount<S>(r, LONG_MAX / 4);
        const datetime_interval<S> iv{modified_julian_day{d}, S{a}};
        set_cur("+=interval", U(t.mjd()), U(t.sec()), d, a);
        i128 ib = total(iv); t += iv;
        if (total(iv) != ib) viol("interval-changed", "+= changed the interval");
        after("+=interval", (i128)d * D + a, 1); break;
      }
      default: {                                   // what was added is removed
        long a = gen_amount<S>(r, LONG_MAX / 4); i128 b = total(t);
        set_cur("add+remove", U(t.mjd()), U(t.sec()), a);
        t.add_seconds(S{a}); t.remove_seconds(S{a});
        after("add+remove", 0, 1);
        seconds c{gen_amount<seconds>(r, LONG_MAX / 4 / res<S>::f)};
        set_cur("add+remove<seconds>", U(t.mjd()), U(t.sec()), U(c));
        t.add_seconds(c); t.remove_seconds(c); EXPECT(U(c) == cur.a[2], "operand-changed", "the amount changed");
        after("add+remove<seconds>", 0, 1);
        t.remove_seconds(c); t.add_seconds(c); after("remove+add<seconds>", 0, 1);
        EXPECT(total(t) == b, "add-remove-identity", "not restored");
        judged(a != 0);
      }
    }
    long m = U(t.mjd());
    if (m > 10000000000000L || m < -10000000000000L) { t = datetime<S>(modified_julian_day{r.in(0, 60000)}, S{0}); model = total(t); }
  }
};

/// a history of whole-unit steps, then all of them undone in another order
template<class S> static void undo(Rng& r, long n) {
  CLS(S);
  for (long i = 0; i < n; i++) {
    datetime<S> t(modified_julian_day{gen_mjd(r, -3000000, 3000000)}, S{gen_tod<S>(r)}); const datetime<S> t0(t);
    std::vector<long> as; int len = (int)r.in(1, 12);
    for (int k = 0; k < len; k++) as.push_back(gen_amount<S>(r, 100000000000000000L));
    i128 sum = 0;
    for (long a : as) { t.add_seconds(S{a}); sum += a; }
    set_cur("undo", U(t0.mjd()), U(t0.sec()), len, as[0], as.back());
    EXPECT(total(t) == total(t0) + sum, "history-sum", "after %d additions %s, exact %s", len, i128s(total(t)).c_str(), i128s(total(t0) + sum).c_str());
    while (!as.empty()) { size_t j = (size_t)r.in(0, (long)as.size() - 1); t.remove_seconds(S{as[j]}); as.erase(as.begin() + (long)j); }
    EXPECT(total(t) == total(t0) && t == t0, "history-undone", "after undoing all steps %s, was %s", i128s(total(t)).c_str(), i128s(total(t0)).c_str());
    judged(); count("histories undone");
  }
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("boundaries")) {                 // every small step around the edges of the day
    each_res([&](auto s) { using S = decltype(s); CLS(S); const long D = day_units<S>();
      for (long u : {0L, 1L, 2L, D / 2, D - 2, D - 1}) for (long k = -3; k <= 3; k++) for (long e = -70; e <= 70; e++) {
        Machine<S> a(60000, u), b(60000, u); long st = k * D + e;
        set_cur("add_seconds", 60000, u, st); a.t.add_seconds(S{st}); a.after("add_seconds", st, 1);
        set_cur("remove_seconds", 60000, u, st); b.t.remove_seconds(S{st}); b.after("remove_seconds", -(i128)st, 1);
        each_res([&](auto v) { using T = decltype(v); const long fs = res<S>::f, ft = res<T>::f;
          long x = k * day_units<T>() + e; Machine<S> c(60000, u), d(60000, u);
          set_cur("add_seconds<T>", 60000, u, x, ft); c.t.add_seconds(T{x}); if (ft <= fs) c.after("add_seconds<T>", (i128)x * (fs / ft), 1); else c.after("add_seconds<T>", x, ft / fs);
          set_cur("remove_seconds<T>", 60000, u, x, ft); d.t.remove_seconds(T{x}); if (ft <= fs) d.after("remove_seconds<T>", -(i128)x * (fs / ft), 1); else d.after("remove_seconds<T>", -(i128)x, ft / fs); });
      }
      // days and part of a day together: every pair of special parts, intervals and add
      const long parts[] = {0, 1, 2, D / 4, D / 3, D / 2 - 1, D / 2, D / 2 + 1, D / 24, D / 24 * 23, D / 1440, D - 2, D - 1, D, D + 1, 2 * D, 7 * D};
      for (long u : parts) if (u < D) for (long x : parts) for (long sg : {1L, -1L}) for (long d : {0L, 1L, -1L, 2L, -2L, 7L, 30L, 31L, 365L, -365L, 366L, 1461L, 36524L, 146097L, -146097L}) {
        Machine<S> a(60000, u), b(60000, u); const long st = sg * x; const datetime_interval<S> iv{modified_julian_day{d}, S{st}};
        set_cur("+=interval", 60000, u, d, st); a.t += iv; a.after("+=interval", (i128)d * D + st, 1);
        set_cur("add<S>", 60000, u, d, st); const datetime<S> before(b.t); b.t = before.template add<S>(modified_julian_day{d}, S{st}); b.after("add<S>", (i128)d * D + st, 1);
        count("days with part of a day");
      }
    }); sample("boundaries");
  }
  if (section("machine")) {
    Rng r = rng_for("machine"); long n = scale(30000);
    each_res([&](auto s) { using S = decltype(s); CLS(S);
      for (long i = 0; i < n; i++) {
        Machine<S> m(gen_mjd(r, -3000000, 3000000), gen_tod<S>(r));
        int len = (int)r.in(1, 40); for (int k = 0; k < len; k++) m.step(r);
        count("histories");
      } sample(CLS(S)); });
  }
  if (section("undo")) { Rng r = rng_for("undo"); each_res([&](auto s) { undo<decltype(s)>(r, scale(30000)); }); sample("undo"); }
  return finish();
}
