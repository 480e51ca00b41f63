// Date strings: the readers under one name, an outcome record, and generators
// of well-formed text built from known fields (so the oracle never parses).
#ifndef VERIF_TEXT_HPP
#define VERIF_TEXT_HPP
#include "oracle.hpp"
namespace txt {
using namespace orc;
using mon::Rng; using mon::i128;

enum Fmt { YMD, YDOY, YMD_HMS, YOD_HMS, YDOY_HMS, NFMT };
inline const char* fmt_name(int f) { static const char* n[] = {"strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms"}; return n[f]; }
template<class S> inline ngpt::datetime<S> read(int f, const char* s, char** stop) {
  switch (f) {
    case YMD:      return stop ? ngpt::strptime_ymd<S>(s, stop) : ngpt::strptime_ymd<S>(s);
    case YDOY:     return stop ? ngpt::strptime_ydoy<S>(s, stop) : ngpt::strptime_ydoy<S>(s);
    case YMD_HMS:  return stop ? ngpt::strptime_ymd_hms<S>(s, stop) : ngpt::strptime_ymd_hms<S>(s);
    case YOD_HMS:  return stop ? ngpt::strptime_yod_hms<S>(s, stop) : ngpt::strptime_yod_hms<S>(s);
    default:       return stop ? ngpt::strptime_ydoy_hms<S>(s, stop) : ngpt::strptime_ydoy_hms<S>(s);
  }
}
enum Kind { OK, INVALID, OTHER };
struct Outcome { Kind kind = OK; long mjd = 0, sec = 0, stop = -99; bool operator==(const Outcome& o) const { return kind == o.kind && (kind != OK || (mjd == o.mjd && sec == o.sec && stop == o.stop)); } };
inline std::string show(const Outcome& o) {
  if (o.kind == INVALID) return "invalid_argument";
  if (o.kind == OTHER) return "another exception";
  return "MJD " + std::to_string(o.mjd) + " + " + std::to_string(o.sec) + ", stop " + std::to_string(o.stop);
}
/// read s; a value that is not a normalized datetime and an escaping foreign exception are reported at once
template<class S> inline Outcome outcome(int f, const char* s, long len, bool want_stop = true) {
  Outcome o; char* stop = nullptr;
  try {
    auto t = read<S>(f, s, want_stop ? &stop : nullptr);
    o.mjd = U(t.mjd()); o.sec = U(t.sec());
    o.stop = want_stop && stop ? stop - s : -99;
    if (o.sec < 0 || o.sec >= day_units<S>()) mon::viol("read-not-normalized", "%s returns time part %ld", fmt_name(f), o.sec);
    if (want_stop && (!stop || stop < s - 1 || stop > s + len)) mon::viol("stop-outside", "%s: stop is %ld of a string of length %ld", fmt_name(f), o.stop, len);
  } catch (const std::invalid_argument& e) { o.kind = INVALID; message(e); }
  catch (const std::exception& e) { o.kind = OTHER; message(e); }
  catch (...) { o.kind = OTHER; mon::viol("read-foreign-exception", "%s throws something that is not a std::exception", fmt_name(f)); }
  return o;
}

inline const char* const* months() { static const char* n[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; return n; }

/// A well-formed string: its fields' texts, the delimiters, and what it spells.
struct Text {
  int fmt; std::vector<std::string> field; std::string delim; std::string tail;
  long mjd = 0, tod_sec = 0; std::string frac;       // whole second of day, fraction digits
  size_t last() const { return field.size() - 1; }
  std::string body() const { std::string s; for (size_t i = 0; i < field.size(); i++) { s += field[i]; if (i < last()) s += delim[i]; } return s; }
  std::string str() const { return body() + tail; }
  size_t start_of(size_t k) const { size_t n = 0; for (size_t i = 0; i < k; i++) n += field[i].size() + 1; return n; }
  /// units of S in the day, truncated; exact when there are no more digits than S holds
  template<class S> long units() const {
    long u = tod_sec, k = res<S>::dig;
    for (long i = 0; i < k; i++) u = u * 10 + ((size_t)i < frac.size() ? frac[(size_t)i] - '0' : 0);
    return u;
  }
};
inline std::string num(Rng& r, long v, int width) {
  char b[64];
  if (r.in(0, 999) < 4) { std::string d = std::to_string(v); size_t n = r.chance(70) ? (size_t)r.in(7, 70) : (size_t)r.in(70, 600); return std::string(n, '0') + d; }     // padded beyond any buffer
  switch (r.in(0, 5)) {
    case 0: case 1: snprintf(b, sizeof b, "%ld", v); break;
    case 2: snprintf(b, sizeof b, "%0*ld", width + (int)r.in(1, 6), v); break;
    default: snprintf(b, sizeof b, "%0*ld", width, v);
  }
  return b;
}
inline char any_delim(Rng& r) {
  for (;;) { int c = (int)r.in(1, 255); if (c < '0' || c > '9') return (char)c; }
}
inline char gen_delim(Rng& r) { static const char c[] = {'-', '/', ':', ' ', '.', ',', 'T', '_', ';', '+', '\t', '\n', 'x', 'e', 'E', 'X', '|', '\x80', '\xff', 'a', 'Z'}; return r.chance(50) ? r.pick(c) : any_delim(r); }
inline Text gen_text(Rng& r, int fmt) {
  Text t; t.fmt = fmt;
  long m = r.chance(85) ? gen_mjd(r, mjd_of(0, 1, 1), mjd_of(9999, 12, 31)) : gen_mjd(r, mjd_of(0, 1, 1), mjd_of(200000, 12, 31));
  Ymd c = civil(m); t.mjd = m;
  t.field.push_back(num(r, c.y, 4));
  if (fmt == YMD || fmt == YMD_HMS) { t.field.push_back(num(r, c.m, 2)); t.field.push_back(num(r, c.d, 2)); }
  else if (fmt == YOD_HMS) {
    std::string n = months()[c.m - 1]; int style = (int)r.in(0, 4);
    for (char& ch : n) ch = (char)(style == 0 ? ch : style == 1 ? ch | 0x20 : style == 2 ? ch & ~0x20 : r.chance(50) ? ch | 0x20 : ch & ~0x20);
    t.field.push_back(n); t.field.push_back(num(r, c.d, 2));
  } else t.field.push_back(num(r, c.doy, 3));
  if (fmt >= YMD_HMS) {
    long s; switch (r.in(0, 4)) { case 0: s = 0; break; case 1: s = 86399; break; case 2: s = r.in(0, 1439) * 60 + 59; break; default: s = r.in(0, 86399); }
    t.tod_sec = s;
    t.field.push_back(num(r, s / 3600, 2)); t.field.push_back(num(r, s / 60 % 60, 2));
    std::string q = num(r, s % 60, 2);
    int nd = r.chance(25) ? 0 : (int)r.in(1, 9); if (r.chance(5)) nd = (int)r.in(10, 25); if (r.in(0, 999) < 4) nd = (int)r.in(26, r.chance(70) ? 70 : 600);
    for (int i = 0; i < nd; i++) t.frac += (char)('0' + (r.chance(15) ? 9 : r.chance(15) ? 0 : r.in(0, 9)));
    if (r.in(0, 999) < 2) { t.frac.assign((size_t)r.in(300, 420), '0'); t.frac += (char)('1' + r.in(0, 8)); nd = (int)t.frac.size(); }   // nothing a double can hold
    else if (nd > 9) for (int i = 6; i < 9; i++) t.frac[(size_t)i] = (char)('0' + r.in(1, 8));   // not within rounding of the next unit
    if (nd) q += "." + t.frac;
    t.field.push_back(q);
  }
  for (size_t i = 0; i + 1 < t.field.size(); i++) t.delim += gen_delim(r);
  if (r.chance(40)) {
    static const char first[] = {' ', '-', ':', '/', '\n', 'a', 'Z', '_', ';', '\x01', '\xff', '+', 'T', ','};
    t.tail = std::string(1, r.pick(first)); int n = (int)r.in(0, 12);
    for (int i = 0; i < n; i++) t.tail += (char)r.in(1, 255);
    if (r.chance(30)) t.tail += "2020-01-01 10:20:30.5";
  }
  return t;
}
/// What the format says about an arbitrary string, judged on its own (nothing
/// here calls strtol or the library): it lacks something and must be refused,
/// it is well formed and spells an instant, it names an impossible date, or it
/// is something in between (signs, blanks, hours beyond 23, exponents...), of
/// which only the outcome's soundness is judged.
enum Class { REFUSE, SPELLS, IMPOSSIBLE, EITHER };
struct Verdict { Class cls = EITHER; long mjd = 0, lo = 0, hi = 0, stop = -1; const char* why = ""; };
template<class S> inline Verdict classify(int fmt, const char* s) {
  Verdict v; bool strict = true; size_t p = 0; long val[6]; int nv = 0;
  auto blank = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  auto digit = [](char c) { return c >= '0' && c <= '9'; };
  auto bad = [&](const char* why) { v.cls = REFUSE; v.why = why; return v; };
  const bool hms = fmt >= YMD_HMS; const int nf = fmt == YMD ? 3 : fmt == YDOY ? 2 : fmt == YDOY_HMS ? 5 : 6;
  for (int k = 0; k < nf; k++) {
    const bool last = k == nf - 1;
    if (fmt == YOD_HMS && k == 1) {                              // a month name
      auto letter = [](char c) { return (c | 0x20) >= 'a' && (c | 0x20) <= 'z'; };
      if (s[p] && !letter(s[p])) { p++; strict = false; }         // one more character between
      int m = 0; for (int i = 0; i < 12; i++) { bool eq = true; for (int j = 0; j < 3 && eq; j++) eq = s[p + (size_t)j] && letter(s[p + (size_t)j]) && (s[p + (size_t)j] | 0x20) == (months()[i][j] | 0x20); if (eq) m = i + 1; }
      if (!m) return bad("no month name");
      p += 3; if (!s[p]) return bad("ends after the month");
      p++; val[nv++] = m; continue;
    }
    while (blank(s[p])) { p++; strict = false; }
    if (s[p] == '-' || s[p] == '+') { p++; strict = false; }
    const bool secs = hms && last;
    if (secs && s[p] == '.' && digit(s[p + 1])) strict = false;
    else if (!digit(s[p])) return bad("a field without digits");
    if (secs && s[p] == '0' && (s[p + 1] | 0x20) == 'x') { return v; }        // a hexadecimal number, perhaps
    i128 n = 0; while (digit(s[p])) { if (n < (i128)1 << 100) n = n * 10 + (s[p] - '0'); p++; }
    if (secs) {
      const long f = res<S>::f; std::string frac; bool dot = s[p] == '.';
      size_t end = p; if (dot) { p++; end = p; while (digit(s[p])) frac += s[p++]; end = p; if (frac.empty()) strict = false; }
      if ((s[p] | 0x20) == 'e') return v;                                    // an exponent, perhaps
      if (n > 2147483647) return bad("seconds that do not fit");
      if (n >= 60) strict = false;
      val[nv++] = (long)n;
      long u = (long)n; for (int i = 0; i < res<S>::dig; i++) u = u * 10 + (i < (int)frac.size() ? frac[(size_t)i] - '0' : 0);
      v.lo = v.hi = u;
      // digits beyond the resolution: within a rounding of the next unit both are right
      if ((int)frac.size() > 9) { if (u % f > 0) v.lo = u - 1; v.hi = u + 1; }
      v.stop = (long)end - 1;
    } else {
      if (n > 2147483647) return bad("a number that does not fit");
      val[nv++] = (long)n;
      if (last) v.stop = (long)p - 1;
      else { if (!s[p]) return bad("ends before the last field"); p++; }
    }
  }
  if (!strict) return v;
  long y = val[0]; int q = 1;
  if (fmt == YDOY || fmt == YDOY_HMS) { if (val[1] < 1 || val[1] > ydays(y)) return v; v.mjd = mjd_of(y, 1, 1) + val[1] - 1; q = 2; }
  else {
    if (val[1] < 1 || val[1] > 12 || val[2] < 1 || val[2] > mdays(y, (int)val[1])) { v.cls = IMPOSSIBLE; return v; }
    v.mjd = mjd_of(y, (int)val[1], (int)val[2]); q = 3;
  }
  if (hms) {
    if (val[q] > 23 || val[q + 1] > 59) return v;
    long t = (val[q] * 3600 + val[q + 1] * 60) * res<S>::f; v.lo += t; v.hi += t;
  }
  v.cls = SPELLS; return v;
}
/// an exact-size heap copy, so that a read past the terminator is a red-zone hit
struct Exact {
  char* p; long len;
  Exact(const char* s, size_t n) : p((char*)malloc(n + 1)), len((long)n) { memcpy(p, s, n); p[n] = 0; }
  explicit Exact(const std::string& s) : Exact(s.data(), s.size()) {}
  Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
  ~Exact() { free(p); }
};
} // namespace txt
#if defined(__SANITIZE_ADDRESS__)
constexpr bool slow_throw = true;      // throwing costs ~100 us under ASan
#else
constexpr bool slow_throw = false;
#endif
#endif
