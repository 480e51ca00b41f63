// C17: unit types behave as the integers they hold.
#include "oracle.hpp"
using namespace ngpt; using namespace mon; using namespace orc;

template<class T, class I, class = void> struct has_assign : std::false_type {};
template<class T, class I> struct has_assign<T, I, std::void_t<decltype(std::declval<T&>() = std::declval<I>())>> : std::true_type {};
template<class T, class = void> struct has_plus : std::false_type {};
template<class T> struct has_plus<T, std::void_t<decltype(std::declval<T>() + std::declval<T>()), decltype(std::declval<T>() - std::declval<T>())>> : std::true_type {};

template<class T> struct Unit {
  using V = typename T::underlying_type;
  static constexpr long lo = std::numeric_limits<V>::min(), hi = std::numeric_limits<V>::max();
  const char* name; Rng& r;

  long value() {
    static const long bits[] = {0, 1, 2, 7, 12, 13, 24, 31, 32, 59, 60, 61, 127, 128, 255, 256, 365, 366, 367, 1900, 1972, 2000, 32767, 32768, 65535, 65536, INT_MAX - 1L, INT_MAX, INT_MAX + 1L, 2L * INT_MAX + 1, 2L * INT_MAX + 2, 86399, 86400, 86401, 86400000, 86400000000L};
    for (;;) { long v = r.chance(50) ? r.pick(bits) + r.in(-1, 1) : r.chance(10) ? r.in(lo, hi) : r.logu(hi); if (r.chance(45)) v = -v; if (r.chance(3)) v = hi - r.in(0, 2); if (r.chance(2)) v = lo + r.in(0, 2); if (v >= lo && v <= hi) return v; }
  }
  static bool fits(i128 v) { return v >= lo && v <= hi; }

  void compare(long a, long b) {
    set_cur("compare", a, b); T x{(V)a}, y{(V)b};
    bool ok = (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b);
    EXPECT(ok, "comparison", "== %d != %d < %d <= %d > %d >= %d", x == y, x != y, x < y, x <= y, x > y, x >= y);
    const T cx{x}; EXPECT(cx == x && !(cx != x) && cx <= x && cx >= x && !(cx < x) && !(cx > x), "copy", "a copy is not equal");
    EXPECT(U(x) == a && U(y) == b, "operand-changed", "comparing changed an operand"); judged(a != b); count("comparisons");
  }
  template<class I> void in_place(long a, long b) {
    if (b < std::numeric_limits<I>::min() || (i128)b > (i128)std::numeric_limits<I>::max()) return;
    set_cur("int-op", a, b, (int)sizeof(I)); I k = (I)b;
    if (fits((i128)a + b)) { T x{(V)a}; T& q = (x += k); EXPECT(U(x) == a + b && &q == &x, "+=int", "+= gives %ld", U(x)); }
    if (fits((i128)a - b)) { T x{(V)a}; T& q = (x -= k); EXPECT(U(x) == a - b && &q == &x, "-=int", "-= gives %ld", U(x)); }
    if constexpr (has_assign<T, I>::value) if (fits(b)) { T x{(V)a}; T& q = (x = k); EXPECT(U(x) == b && &q == &x, "=int", "assignment gives %ld", U(x)); count("assignments of integers"); }
    judged();
  }
  void pair(long a, long b) {
    compare(a, b); set_cur("pair", a, b);
    if (fits((i128)a + b)) { T x{(V)a}, y{(V)b}; T& q = (x += y); EXPECT(U(x) == a + b && U(y) == b && &q == &x, "+=", "+= gives %ld, operand %ld", U(x), U(y)); }
    if (fits((i128)a - b)) { T x{(V)a}, y{(V)b}; T& q = (x -= y); EXPECT(U(x) == a - b && U(y) == b && &q == &x, "-=", "-= gives %ld, operand %ld", U(x), U(y)); }
    if constexpr (has_plus<T>::value) {
      if (fits((i128)a + b)) { const T x{(V)a}, y{(V)b}; T z = x + y; EXPECT(U(z) == a + b && U(x) == a && U(y) == b, "+", "+ gives %ld", U(z)); count("sums"); }
      if (fits((i128)a - b)) { const T x{(V)a}, y{(V)b}; T z = x - y; EXPECT(U(z) == a - b && U(x) == a && U(y) == b, "-", "- gives %ld", U(z)); }
    }
    { T x{(V)a}, y{(V)b}; x = y; EXPECT(U(x) == b && U(y) == b, "=", "assignment gives %ld", U(x)); T w(x); EXPECT(U(w) == b, "copy", "copy holds %ld", U(w)); }
    in_place<int>(a, b); in_place<long>(a, b); in_place<short>(a, b); in_place<unsigned>(a, b); in_place<unsigned long>(a, b); in_place<unsigned short>(a, b); in_place<unsigned char>(a, b); in_place<char>(a, b); in_place<bool>(a, b); in_place<long long>(a, b); in_place<signed char>(a, b);
    set_cur("pair", a, b); judged();
  }
  void single(long a) {
    set_cur("single", a); { T x{(V)a}; EXPECT(U(x) == a, "holds", "constructed from %ld, holds %ld", a, U(x)); }
    if (a < hi) { T x{(V)a}; T& q = ++x; EXPECT(U(x) == a + 1 && &q == &x, "++pre", "++x gives %ld", U(x)); T y{(V)a}; T z = y++; EXPECT(U(y) == a + 1 && U(z) == a, "post++", "x++ returns %ld, leaves %ld", U(z), U(y)); }
    if (a > lo) { T x{(V)a}; T& q = --x; EXPECT(U(x) == a - 1 && &q == &x, "--pre", "--x gives %ld", U(x)); T y{(V)a}; T z = y--; EXPECT(U(y) == a - 1 && U(z) == a, "post--", "x-- returns %ld, leaves %ld", U(z), U(y)); }
    if (fits((i128)a + a)) { T x{(V)a}; x += x; EXPECT(U(x) == a + a, "+=self", "x+=x gives %ld", U(x)); }
    { T x{(V)a}; x -= x; EXPECT(U(x) == 0, "-=self", "x-=x gives %ld", U(x)); T y{(V)a}; T& ry = y; y = ry; EXPECT(U(y) == a, "=self", "x=x gives %ld", U(y)); EXPECT(y == ry && y <= ry && y >= ry && !(y < ry), "self-compare", "an object does not equal itself"); }
    // what a postfix form returned stays, whatever is done next
    if (a > lo && a < hi) { T x{(V)a}, w{(V)0}, q{(V)1}; auto&& o = x++; auto&& p = w++; auto&& s = x--; auto&& t = q--; EXPECT(U(o) == a && U(p) == 0 && U(s) == a + 1 && U(t) == 1, "post-held", "x++, 0++, x--, 1-- returned %ld, %ld, %ld, %ld once all were done", U(o), U(p), U(s), U(t)); }
    judged();
  }
  void history() {
    long m = value(); T x{(V)m}; int len = (int)r.in(5, 60);
    for (int i = 0; i < len; i++) {
      int op = (int)r.in(0, 11); long b = r.chance(60) ? r.in(-500, 500) : value(); long before = m; set_cur("history", op, m, b); T y{(V)b}; long got = m;
      switch (op) {
        case 0: if (m < hi) { ++x; ++m; } break;
        case 1: if (m > lo) { --x; --m; } break;
        case 2: if (m < hi) { got = U(x++); ++m; EXPECT(got == before, "post++", "x++ returned %ld", got); } break;
        case 3: if (m > lo) { got = U(x--); --m; EXPECT(got == before, "post--", "x-- returned %ld", got); } break;
        case 4: if (fits((i128)m + b)) { x += y; m += b; } break;
        case 5: if (fits((i128)m - b)) { x -= y; m -= b; } break;
        case 6: if (fits((i128)m + b)) { x += b; m += b; } break;
        case 7: if (fits((i128)m - b)) { x -= b; m -= b; } break;
        case 8: if constexpr (has_assign<T, long>::value) { x = b; m = b; } break;
        case 9: x = y; m = b; break;
        case 10: if constexpr (has_plus<T>::value) { if (fits((i128)m + b)) { x = x + y; m += b; } } break;
        default: if constexpr (has_plus<T>::value) { if (fits((i128)m - b)) { x = x - y; m -= b; } }
      }
      EXPECT(U(y) == b, "operand-changed", "the operand became %ld", U(y));
      EXPECT(U(x) == m, "history", "holds %ld, the integers give %ld", U(x), m);
      if (U(x) != m) x = T{(V)m};
      count("history steps"); judged();
    }
  }
  void run() {
    cur.cls = name;
    for (long a = -130; a <= 400; a++) single(a);
    for (long a : {lo, lo + 1, hi, hi - 1}) single(a);
    for (long a = -13; a <= 13; a++) for (long b = -13; b <= 13; b++) pair(a, b);
    long n = scale(12000);
    for (long i = 0; i < n; i++) { long a = value(), b = r.chance(30) ? a + (a < hi && a > lo ? r.in(-1, 1) : 0) : value(); single(a); pair(a, b); }
    for (long i = 0; i < n / 4; i++) history();
    sample(name);
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r = rng_for("units");
  if (section("units")) {
#define RUN(T) { Unit<T> u{#T, r}; u.run(); }
  RUN(year) RUN(month) RUN(gps_week) RUN(day_of_month) RUN(day_of_year) RUN(modified_julian_day) RUN(hours) RUN(minutes) RUN(seconds) RUN(milliseconds) RUN(microseconds)
  static_assert(has_plus<seconds>::value && has_plus<milliseconds>::value && has_plus<microseconds>::value && has_plus<modified_julian_day>::value, "offered");
  }
  if (section("defaults")) {             // as documented at each constructor
    auto is = [](const char* name, long a, long b, long want) { cur.cls = name; set_cur("default", want); EXPECT(a == want && b == want, std::string("default:") + name, "a default %s holds %ld (in a fresh array: %ld), documented is %ld", name, a, b, want); judged(); count("defaults"); };
#define DEF(T, n) { alignas(T) unsigned char room[sizeof(T)]; for (int fill : {0, 0xa5, 0xff}) { memset(room, fill, sizeof room); T* p = new (room) T(); long v = U(*p); is(#T, U(T{}), v, n); } }
    DEF(year, 1900) DEF(month, 1) DEF(gps_week, 1) DEF(day_of_month, 1) DEF(day_of_year, 0) DEF(modified_julian_day, 1) DEF(hours, 0) DEF(minutes, 0) DEF(seconds, 0) DEF(milliseconds, 0) DEF(microseconds, 0)
    sample("defaults");
  }
  if (section("literals")) {
    cur.cls = "literal";
#define LIT(n) { set_cur("literal", n); EXPECT(U(n##_Y) == n && U(n##_M) == n && U(n##_D) == n && U(n##_h) == n && U(n##_m) == n && U(n##_sec) == n && U(n##_millisec) == n && U(n##_microsec) == n, "literal", "a literal of %ld holds another value", (long)n); \
    EXPECT((std::is_same<decltype(n##_Y), year>::value && std::is_same<decltype(n##_M), month>::value && std::is_same<decltype(n##_D), day_of_month>::value && std::is_same<decltype(n##_h), hours>::value && std::is_same<decltype(n##_m), minutes>::value && std::is_same<decltype(n##_sec), seconds>::value && std::is_same<decltype(n##_millisec), milliseconds>::value && std::is_same<decltype(n##_microsec), microseconds>::value), "literal-type", "a literal has another type"); judged(); count("literals", 8); }
    LIT(0) LIT(1) LIT(2) LIT(9) LIT(10) LIT(12) LIT(13) LIT(23) LIT(24) LIT(31) LIT(59) LIT(60) LIT(61) LIT(99) LIT(100) LIT(127) LIT(128) LIT(255) LIT(256) LIT(365) LIT(366) LIT(999) LIT(1000) LIT(1980) LIT(2016) LIT(2100) LIT(32767) LIT(32768) LIT(65535) LIT(65536) LIT(86399) LIT(86400) LIT(1000000) LIT(16777217) LIT(2147483646) LIT(2147483647)
#define LITS(n) { set_cur("literal", n); EXPECT(U(n##_sec) == n && U(n##_millisec) == n && U(n##_microsec) == n, "literal", "a literal of %ld holds another value", (long)n); judged(); count("literals", 3); }
    LITS(2147483648) LITS(4294967295) LITS(4294967296) LITS(4294967297) LITS(86400000000) LITS(9007199254740993) LITS(9223372036854775807)
    sample("literals");
  }
  return finish();
}
