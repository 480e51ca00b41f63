// Independent oracles (nothing here is taken from, or calls, the library):
// proleptic Gregorian calendar by day counting, instants as 128-bit totals,
// the published leap seconds, and boundary-biased generators.
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <cerrno>
#include <climits>
#include <cmath>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <algorithm>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "mon.hpp"

namespace orc {
using mon::i128;
using mon::Rng;

inline bool leap(long y) { return y % 400 == 0 || (y % 100 != 0 && y % 4 == 0); }
inline int mdays(long y, int m) {
  static const int d[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return d[m - 1] + (m == 2 && leap(y));
}
inline int ydays(long y) { return leap(y) ? 366 : 365; }

inline long fdiv(long a, long b) { long q = a / b; return q - (a % b != 0 && (a % b < 0) != (b < 0)); }
inline i128 fdiv128(i128 a, i128 b) { i128 q = a / b; return q - (a % b != 0 && (a % b < 0) != (b < 0)); }

/// Days before 1 January of year y, relative to year 1.
inline long days_before_year(long y) { long p = y - 1; return 365 * p + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400); }
inline int doy_of(long y, int m, int d) { int s = d; for (int k = 1; k < m; k++) s += mdays(y, k); return s; }
/// MJD: 17 November 1858 is day 0. (1 Jan of year 1 is MJD -678575, by
/// counting; asserted against the epoch at start-up below.)
inline long mjd_of(long y, int doy) { return days_before_year(y) + doy - 1 - 678575L; }
inline long mjd_of(long y, int m, int d) { return mjd_of(y, doy_of(y, m, d)); }
struct Ymd { long y; int m, d, doy; };
inline Ymd civil(long mjd) {
  long n = mjd + 678575L;                        // days since 1 Jan of year 1
  long y = fdiv(n, 146097) * 400 + 1 ;           // 400-year cycle
  n -= days_before_year(y);
  long step = n / 366; y += step; n -= days_before_year(y) - days_before_year(y - step);
  while (n >= ydays(y)) { n -= ydays(y); ++y; }
  Ymd r; r.y = y; r.doy = (int)n + 1; r.m = 1; int k = (int)n + 1;
  while (k > mdays(y, r.m)) { k -= mdays(y, r.m); ++r.m; }
  r.d = k; return r;
}
inline void self_check() {
  if (mjd_of(1858, 11, 17) != 0 || mjd_of(2000, 1, 1) != 51544 || mjd_of(1980, 1, 6) != 44244) { printf("oracle broken\n"); _exit(9); }
  Rng r(1);
  for (int i = 0; i < 20000; i++) {
    long m = r.in(-2432000, 5000000); Ymd c = civil(m);
    if (mjd_of(c.y, c.m, c.d) != m || mjd_of(c.y, c.doy) != m || c.d < 1 || c.d > mdays(c.y, c.m)) { printf("oracle broken at %ld\n", m); _exit(9); }
  }
}
inline long mjd_lo() { static long v = mjd_of(-4799, 1, 1); return v; }

// ---------------------------------------------------------------- resolutions
template<class S> struct res;
template<> struct res<ngpt::seconds>      { static constexpr long f = 1L;       static constexpr int dig = 0; static constexpr const char* name = "seconds"; };
template<> struct res<ngpt::milliseconds> { static constexpr long f = 1000L;    static constexpr int dig = 3; static constexpr const char* name = "milliseconds"; };
template<> struct res<ngpt::microseconds> { static constexpr long f = 1000000L; static constexpr int dig = 6; static constexpr const char* name = "microseconds"; };
template<class S> constexpr long day_units() { return 86400L * res<S>::f; }

template<class S> inline i128 total(const ngpt::datetime<S>& t) {
  return (i128)t.mjd().as_underlying_type() * day_units<S>() + t.sec().as_underlying_type();
}
template<class S> inline i128 total(const ngpt::datetime_interval<S>& t) {
  return (i128)t.days().as_underlying_type() * day_units<S>() + t.sec().as_underlying_type();
}
template<class S, class D> inline bool normalized(const D& t) {
  long s = t.sec().as_underlying_type();
  return s >= 0 && s < day_units<S>();
}
/// the normalized (days, units) of a total
template<class S> inline void split(i128 tot, long& d, long& u) {
  i128 q = fdiv128(tot, day_units<S>()); d = (long)q; u = (long)(tot - q * day_units<S>());
}
inline bool fits_long(i128 v) { return v <= LONG_MAX && v >= -(i128)LONG_MAX; }
/// days on either side for which the whole span still fits a long
template<class S> constexpr long cap_days() { return LONG_MAX / (86400L * res<S>::f); }

// ---------------------------------------------------------------- generators
// (each draw in its own full expression, so that every compiler draws in the
// same order)
inline const std::vector<long>& special_days() {
  static const std::vector<long> v = [] {
    std::vector<long> r;
    for (long y : {-4799L, -4000L, -801L, -400L, -101L, -100L, -5L, -4L, -1L, 0L, 1L, 4L, 99L, 100L, 400L, 999L, 1000L, 1500L,
                   1582L, 1599L, 1600L, 1700L, 1752L, 1799L, 1800L, 1858L, 1859L, 1899L, 1900L, 1901L, 1904L, 1969L, 1970L, 1972L, 1979L, 1980L,
                   1999L, 2000L, 2001L, 2004L, 2016L, 2017L, 2019L, 2020L, 2021L, 2038L, 2099L, 2100L, 2101L, 2104L, 2200L,
                   2300L, 2399L, 2400L, 2401L, 4000L, 9999L, 10000L}) {
      for (int m : {1, 2, 3, 6, 7, 12}) { r.push_back(mjd_of(y, m, 1)); r.push_back(mjd_of(y, m, mdays(y, m))); }
      r.push_back(mjd_of(y, 2, 28));
    }
    for (long c : mon::constants().base) {              // as a year, as a day
      if (c > 20 && c <= 20000) { for (int m : {1, 2, 3, 12}) { r.push_back(mjd_of(c, m, 1)); r.push_back(mjd_of(c, m, mdays(c, m))); } }
      if (c >= mjd_lo() && c <= 3000000 && (c > 20 || c < -20)) r.push_back(c);
    }
    for (long d : {0L, -1L, 1L, 44243L, 44244L, 44245L, 44250L, 44251L, 51544L, 51411L /*week 1024*/, 58579L /*2048*/, 24855L, 24856L, 100000L, 65535L, 65536L, 32767L, 32768L}) r.push_back(d);
    return r;
  }();
  return v;
}
/// When set, days and times of day are drawn from a small neighbourhood, so
/// that successive operations share years, months, days and hours (a result
/// remembered under too coarse a key would show).
struct Focus { bool on = false; long day = 0, tod = 0; };
inline thread_local Focus focus;

/// a day number within calendar range (year -4799 ...)
inline long gen_mjd(Rng& r, long lo, long hi) {
  if (focus.on) {
    long v = focus.day;
    switch (r.in(0, 5)) { case 0: break; case 1: v += r.in(-1, 1); break; case 2: v += 7 * r.in(-4, 4); break; case 3: v += r.in(-31, 31); break; case 4: v += r.in(-366, 366); break; default: v += 146097 * r.in(-1, 1); }
    if (v >= lo && v <= hi) return v;
  }
  for (;;) {
    long v;
    switch (r.in(0, 5)) {
      case 0: case 1: v = r.pick(special_days()); v += r.in(-2, 2); break;
      case 2: v = r.in(41317, 60000 + 20000); break;
      case 3: v = r.in(mjd_lo(), 3000000); break;
      case 4: v = r.logu(hi > 0 ? hi : 1); if (r.chance(40)) v = -v; break;
      default: v = r.in(lo, hi);
    }
    if (v >= lo && v <= hi) return v;
    if (lo > 2000000 || hi < -2000000) return r.in(lo, hi);
  }
}
/// Arguments a power of two apart, one right after the other and back again: a result remembered under an argument
/// that lost some of its bits would show as another's.
template<class F> void alike(Rng& r, long lo, long hi, long n, F f) {
  for (long i = 0; i < n; i++) {
    long x = r.chance(40) ? r.pick(special_days()) + r.in(-2, 2) : r.chance(50) ? r.in(std::max(lo, -100000L), std::min(hi, 100000L)) : r.logu(hi);
    if (x < lo || x > hi) { --i; continue; }
    for (int t = 0; t < 8; t++) { int k = (int)r.in(3, 62); i128 y = (i128)x + (r.chance(70) ? (i128)1 << k : -((i128)1 << k)); if (y >= lo && y <= hi) { f(x); f((long)y); f(x); mon::count("calls with like arguments", 3); break; } }
  }
}
/// time of day in units of S: 0..day-1, biased to the edges of every field
template<class S> inline long gen_tod(Rng& r) {
  const long f = res<S>::f, D = day_units<S>();
  if (focus.on && r.chance(70)) { long v = focus.tod * f; if (r.chance(50)) { long k = r.in(0, 2); v += k * (f > 1 && r.chance(50) ? f / 10 : 1); } return v < D ? v : D - 1; }
  switch (r.in(0, 6)) {
    case 0: return 0;
    case 1: return D - 1 - r.in(0, 2);
    case 2: { long v = r.in(0, 23) * 3600 * f - 1; v += r.in(0, 2); return v < 0 ? 0 : v; }
    case 3: { long v = r.in(0, 1439) * 60 * f - 1; v += r.in(0, 2); return v < 0 ? 0 : v; }
    case 4: { long v = r.in(0, 86399) * f - 1; v += r.in(0, 2); return v < 0 ? 0 : v < D ? v : D - 1; }
    case 5: { long v = r.in(0, 86399) * f; if (f > 1) v += r.in(0, 9) * (f / 10); return v; }
    default: return r.in(0, D - 1);
  }
}
/// any amount of units of S with |amount| <= max (boundary biased)
template<class S> inline long gen_amount(Rng& r, long max, bool neg = true) {
  static const long mults[] = {1, 10, 30, 900, 1800, 7200, 21600, 43200, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 2 * 86400, 7 * 86400, 30 * 86400L, 365 * 86400L, 366 * 86400L, 36524 * 86400L, 146097 * 86400L};
  static const long bits[] = {1L << 15, 1L << 16, (1L << 31), (1L << 32), (1L << 31) * 1000, (1L << 32) * 1000, (1L << 31) * 1000000, 1L << 53, 2147483L, 2147483648L * 3600, 4294967296L * 60, 24855L * 86400, 49710L * 86400};
  const long f = res<S>::f;
  for (int tries = 0; tries < 20; tries++) {
    i128 v;
    switch (r.in(0, 7)) {
      case 0: v = (i128)r.pick(mults) * f; v += r.in(-2, 2); break;
      case 1: v = (i128)r.pick(mults) * f; v *= r.in(1, 400); v += r.in(-1, 1); break;
      case 2: { const std::vector<long>& c = r.chance(50) ? mon::constants().base : mon::constants().number; v = c.empty() || r.chance(50) ? (i128)r.pick(bits) : (i128)r.pick(c); if (r.chance(30)) v *= f; v += r.in(-2, 2); break; }
      case 3: v = (i128)r.pick(bits) * f; v += r.in(-2, 2); break;
      case 4: v = r.in(0, 200000) * (i128)f; if (f > 1) v += r.in(0, f - 1); break;
      case 5: v = (i128)max - r.in(0, 3); break;
      case 6: v = r.in(0, 3); break;
      default: v = r.logu(max);
    }
    if (neg && r.chance(45)) v = -v;
    if (!neg && v < 0) continue;
    if (v <= max && v >= -(i128)max) return (long)v;
  }
  return neg ? r.in(-std::min(max, 1000L), std::min(max, 1000L)) : r.in(0, std::min(max, 1000L));
}

// -------------------------------------------------- published leap seconds
// First day on which each value of TAI-UTC holds (IERS Bulletin C).
struct Leap { int y, m, v; };
inline const std::vector<Leap>& leaps() {
  static const std::vector<Leap> t = {
    {1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16}, {1978, 1, 17},
    {1979, 1, 18}, {1980, 1, 19}, {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23}, {1988, 1, 24}, {1990, 1, 25},
    {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30}, {1997, 7, 31}, {1999, 1, 32}, {2006, 1, 33},
    {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
  return t;
}
inline int tai_utc(long mjd) {
  int v = -1;
  for (const Leap& l : leaps()) if (mjd >= mjd_of(l.y, l.m, 1)) v = l.v;
  return v;
}
inline int tai_utc(long y, int m) {
  int v = -1;
  for (const Leap& l : leaps()) if (y > l.y || (y == l.y && m >= l.m)) v = l.v;
  return v;
}

// ------------------------------------------------------------- shorthands
template<class T> inline long U(const T& t) { return static_cast<long>(t.as_underlying_type()); }
/// read what an exception says (a message that is gone by then is found by the sanitizers)
inline void message(const std::exception& e) { static thread_local volatile size_t n; n = strlen(e.what()); (void)n; }
/// call f for each resolution
template<class F> inline void each_res(F f) {
  f(ngpt::seconds{0}); f(ngpt::milliseconds{0}); f(ngpt::microseconds{0});
}
} // namespace orc

#define CLS(S) (mon::cur.cls = orc::res<S>::name)
#endif
