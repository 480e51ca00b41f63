// C27: dates, intervals and amounts are values: what one shows depends on what it denotes alone, not on how it came
// about, and nothing done to one shows in another. A population of objects goes through histories of copies, moves,
// assignments, swaps, sorts and in-place operations; after every step each object is compared with its model and one
// is looked at through every accessor and compared with a newly made one.
#include "ops.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using ops::Out;

static const long LO = mjd_of(-4799, 1, 1) + 3000, HI = 4000000;
static bool written(long mjd) { static const long a = mjd_of(0, 1, 1), b = mjd_of(9999, 12, 31); return mjd >= a && mjd <= b; }

/// one accessor (a look that may leave something behind in the object)
template<class S> static void glance(Out& o, const datetime<S>& t, int k) {
  switch (k) {
    case 0: o << t.as_ymd(); break;
    case 1: o << t.as_ydoy(); break;
    case 2: { auto h = t.as_hmsf(); o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << std::get<3>(h); break; }
    case 3: o << t.as_mjd() << t.sec_as_i(); break;
    case 4: if (U(t.mjd()) >= 44244) { long w = 0; o << U(t.as_gps_wsow(w)) << w; S x{0}; o << U(t.as_gps_wsow(x)) << U(x); } break;
    case 5: if (U(t.mjd()) >= 41317) o << dat(t); break;
    case 6: if (written(U(t.mjd()))) o << strftime_ymd_hmfs(t) << strftime_ymd_hms(t) << t.stringify(); break;
    case 7: o << t.template cast_to<seconds>() << t.template cast_to<milliseconds>() << t.template cast_to<microseconds>(); break;
    default: o << U(t.mjd()) << U(t.sec());
  }
}
static constexpr int NG = 9;
template<class S> static std::string full(const datetime<S>& t, const datetime<S>& other) {
  Out o; for (int k = 0; k < NG; k++) if (k != 6) glance(o, t, k);
  o << (t == other) << (t != other) << (t < other) << (t <= other) << (t > other) << (t >= other) << t.delta_date(other) << U(t.delta_sec(other)) << U(delta_sec(t, other)) << delta_date(other, t);
  return o.s;
}
template<class S> static datetime<S> by_value(datetime<S> t, const S& a) { t.add_seconds(a); return t; }

template<class S> struct Pop {
  std::vector<datetime<S>> v; std::vector<i128> want; Rng& r; const char* last = "";
  explicit Pop(Rng& q) : r(q) { for (int i = 0; i < 6; i++) { long m = gen_mjd(r, LO, HI), u = gen_tod<S>(r); v.emplace_back(modified_julian_day{m}, S{u}); want.push_back((i128)m * day_units<S>() + u); } }
  size_t any() { return (size_t)r.in(0, (long)v.size() - 1); }
  void look(size_t i, const char* op) {
    long m, u; split<S>(want[i], m, u); const datetime<S> fresh(modified_julian_day{m}, S{u}), other(modified_julian_day{m + r.in(-1, 1)}, S{gen_tod<S>(r)});
    set_cur(op, m, u);
    std::string a = full(v[i], other), b = full(fresh, other);
    EXPECT(a == b, std::string("shows:") + op, "after %s an object shows \"%.220s\", a newly made equal one \"%.220s\"", op, a.c_str(), b.c_str());
    EXPECT(v[i] == fresh && !(v[i] != fresh) && !(v[i] < fresh) && !(fresh < v[i]), std::string("equal:") + op, "after %s an object is not equal to a newly made one of the same instant", op);
    Ymd c = civil(m); auto d = v[i].as_ymd(); EXPECT(U(d.__year) == c.y && U(d.__month) == c.m && U(d.__dom) == c.d, std::string("date:") + op, "after %s the date shown is %ld-%ld-%ld, it is %ld-%d-%d", op, U(d.__year), U(d.__month), U(d.__dom), c.y, c.m, c.d);
    if (r.chance(6)) { Out x, y; glance(x, v[i], 6); glance(y, fresh, 6); EXPECT(x.s == y.s, std::string("text:") + op, "after %s an object is written \"%.150s\", a newly made equal one \"%.150s\"", op, x.s.c_str(), y.s.c_str()); if (!x.s.empty()) count("texts compared"); }
    count("objects looked at"); judged();
  }
  void all(const char* op) {
    for (size_t i = 0; i < v.size(); i++) { long m, u; split<S>(want[i], m, u); if (U(v[i].mjd()) != m || U(v[i].sec()) != u) { set_cur(op, m, u); viol(std::string("instant:") + op, "after %s an object is at (%ld, %ld), it should be at (%ld, %ld)", op, U(v[i].mjd()), U(v[i].sec()), m, u); want[i] = total(v[i]); } }
    count("steps"); last = op;
  }
  void step() {
    const long D = day_units<S>(); size_t i = any(), j = any(); const char* op = "";
    if (r.chance(60)) { Out o; size_t g = any(); glance(o, v[g], (int)r.in(0, NG - 1)); }     // something has been asked before
    long m, u; split<S>(want[i], m, u); const i128 room_up = (i128)HI * D - want[i], room_down = want[i] - (i128)LO * D;
    auto amount = [&](long f) { i128 a = gen_amount<S>(r, (long)std::min<i128>(LONG_MAX / 4, (i128)3000 * D)); if (r.chance(50)) a = r.in(-2, 2) * D + r.in(-2, 2); a = a / f * f; if (a > room_up || -a > room_down) a = 0; return (long)a; };
    switch (r.in(0, 17)) {
      case 0: { op = "copy construction"; datetime<S> c(v[i]); v.push_back(c); want.push_back(want[i]); break; }
      case 1: op = "copy assignment"; v[i] = v[j]; want[i] = want[j]; break;
      case 2: { op = "move"; datetime<S> c(std::move(v[i])); v[i] = datetime<S>(modified_julian_day{51544}, S{1}); want.push_back(want[i]); want[i] = (i128)51544 * D + 1; v.push_back(std::move(c)); break; }
      case 3: { op = "move assignment"; datetime<S> c(v[j]); v[i] = std::move(c); want[i] = want[j]; break; }
      case 4: op = "swap"; { using std::swap; swap(v[i], v[j]); std::swap(want[i], want[j]); } break;
      case 5: op = "assignment to itself"; { const datetime<S>& me = v[i]; v[i] = me; } break;
      case 6: case 7: { op = "add_seconds"; long a = amount(1); v[i].add_seconds(S{a}); want[i] += a; break; }
      case 8: { op = "remove_seconds"; long a = amount(1); if (-(i128)a > room_up || a > room_down) a = 0; v[i].remove_seconds(S{a}); want[i] -= a; break; }
      case 9: case 10: { op = "+= interval"; long a = amount(1), d, q; split<S>(a, d, q); v[i] += datetime_interval<S>{modified_julian_day{d}, S{q}}; want[i] += a; break; }
      case 11: { op = "add"; long a = amount(1), d, q; split<S>(a, d, q); datetime<S> n = v[i].template add<S>(modified_julian_day{d}, S{q}); v[j] = n; want[j] = want[i] + a; break; }
      case 12: { op = "add or remove in another resolution"; long a = amount(res<S>::f) / res<S>::f; i128 x = (i128)a * res<S>::f; bool rem = x <= room_down && -x <= room_up && r.chance(50);
        if constexpr (res<S>::f == 1) { if (r.chance(50)) { if (rem) v[i].remove_seconds(milliseconds{a * 1000}); else v[i].add_seconds(milliseconds{a * 1000}); } else { if (rem) v[i].remove_seconds(microseconds{a * 1000000}); else v[i].add_seconds(microseconds{a * 1000000}); } }
        else { if (rem) v[i].remove_seconds(seconds{a}); else v[i].add_seconds(seconds{a}); }
        want[i] += rem ? -x : x; break; }
      case 13: { op = "conversion to a finer resolution and back"; datetime<microseconds> f = v[i].template cast_to<microseconds>(); v[j] = f.template cast_to<S>(); want[j] = want[i]; break; }
      case 14: { op = "sorting"; std::sort(v.begin(), v.end()); std::sort(want.begin(), want.end()); break; }
      case 15: { op = "a parameter passed by value"; long a = amount(1); datetime<S> n = by_value(v[i], S{a}); v.insert(v.begin() + (long)j, n); want.insert(want.begin() + (long)j, want[i] + a); break; }
      case 16: if (written(m)) { op = "reading its own text"; std::string s = strftime_ymd_hmfs(v[i]); try { v[j] = strptime_ymd_hms<S>(s.c_str()); want[j] = want[i]; } catch (const std::exception&) { viol("own-text", "the text %s is refused", s.c_str()); } break; } [[fallthrough]];
      default: { op = "construction from a date"; if (r.chance(50)) { Ymd c = civil(m); v[j] = datetime<S>(year{(int)c.y}, month{c.m}, day_of_month{c.d}, S{u}); want[j] = want[i]; } else { datetime<S> x; x = v[i]; v[j] = x; want[j] = want[i]; } }
    }
    if (v.size() > 9) { size_t k = any(); v.erase(v.begin() + (long)k); want.erase(want.begin() + (long)k); }
    count(op); all(op);
    i = std::min(i, v.size() - 1); j = std::min(j, v.size() - 1); look(i, op); if (j != i) look(j, op); look(v.size() - 1, op); if (r.chance(20)) look(any(), op);
  }
};
/// intervals and amounts
template<class S> static std::string shown(const datetime_interval<S>& a, const datetime_interval<S>& b) {
  Out o; o << U(a.days()) << U(a.sec()) << a.as_mjd() << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b); if (U(a.days()) >= 0) o << a / 3 << a / 86400; return o.s;
}
template<class S> static void lengths(Rng& r, long n) {
  CLS(S); const long lim = std::min<long>(cap_days<S>() / 4, 3000000);
  auto one = [&] { return std::pair<long, long>(r.chance(30) ? r.in(0, 3) : r.in(0, lim), gen_tod<S>(r)); };
  for (long i = 0; i < n; i++) {
    std::vector<std::pair<long, long>> want; std::vector<datetime_interval<S>> v; for (int k = 0; k < 5; k++) { auto p = one(); want.push_back(p); v.emplace_back(modified_julian_day{p.first}, S{p.second}); }
    for (int k = 0; k < 12; k++) {
      size_t a = (size_t)r.in(0, 4), b = (size_t)r.in(0, 4); const char* op;
      switch (r.in(0, 5)) {
        case 0: op = "interval: assignment"; v[a] = v[b]; want[a] = want[b]; break;
        case 1: op = "interval: swap"; std::swap(v[a], v[b]); std::swap(want[a], want[b]); break;
        case 2: op = "interval: sorting"; std::sort(v.begin(), v.end()); std::sort(want.begin(), want.end()); break;
        case 3: { op = "interval: difference of two datetimes"; auto p = one(), q = one(); const datetime<S> x(modified_julian_day{p.first}, S{p.second}), y(modified_julian_day{q.first}, S{q.second}); v[a] = x.delta_date(y); long d, u; split<S>(total(x) - total(y), d, u); want[a] = {d, u}; break; }
        case 4: { op = "interval: division"; if (want[a].first < 0) { op = "interval: assignment"; break; } long q = r.in(1, 1000), d, u; v[b] = v[a] / (int)q; split<S>(((i128)want[a].first * day_units<S>() + want[a].second) / q, d, u); want[b] = {d, u}; break; }
        default: { op = "interval: copies"; datetime_interval<S> c(v[a]), e(std::move(c)); v[b] = e; want[b] = want[a]; }
      }
      for (size_t x = 0; x < v.size(); x++) { set_cur(op, want[x].first, want[x].second); const datetime_interval<S> f{modified_julian_day{want[x].first}, S{want[x].second}}; auto o = one(); const datetime_interval<S> other{modified_julian_day{o.first}, S{o.second}};
        std::string s1 = shown(v[x], other), s2 = shown(f, other); EXPECT(s1 == s2 && v[x] == f, op, "it shows \"%.200s\", a newly made equal one \"%.200s\"", s1.c_str(), s2.c_str()); judged(); }
      count("interval steps");
    }
    // an amount keeps its value while copies of it are taken apart
    long x = gen_amount<S>(r, (long)INT_MAX * 3600, false); set_cur("amount", x); S a{x}; S b(a), c{0}; c = a; (void)b.remove_days(); auto h = c.to_hmsf(); (void)h; S e = a; e += S{1}; std::swap(b, e); e = std::move(b);
    EXPECT(U(a) == x && U(c) == x && U(e) == x + 1, "amount", "the amount %ld shows as %ld after copies of it were changed", x, U(a)); judged(); count("amounts copied");
  }
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("population")) { Rng r = rng_for("population"); long n = scale(1800); each_res([&](auto s) { using S = decltype(s); CLS(S); for (long i = 0; i < n; i++) { Pop<S> p(r); long k = r.in(5, 60); for (long q = 0; q < k; q++) p.step(); count("populations"); } sample(CLS(S)); }); }
  if (section("intervals")) { Rng r = rng_for("intervals"); each_res([&](auto s) { lengths<decltype(s)>(r, scale(6000)); }); sample("intervals"); }
  return finish();
}
