// C15: formatted text shows the instant's fields and reads back as the same instant.
#include "text.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

/// The oracle's own parser: digits, one byte, digits, one byte, digits, ' ', h:m:s[.f]. False when the text is not of that form.
struct Shown { long y, mo, d, h, mi, s; std::string frac, layout; };
static bool digits(const char*& p, long& v) { if (*p < '0' || *p > '9') return false; v = 0; int n = 0; while (*p >= '0' && *p <= '9') { v = v * 10 + (*p++ - '0'); if (++n > 12) return false; } return true; }
static bool parse(const std::string& s, char del, Shown& o) {
  // the layout: every digit as 0, up to the seconds
  { int colons = 0; o.layout.clear(); for (char c : s) { if (colons == 2 && !(c >= '0' && c <= '9')) break; o.layout += c >= '0' && c <= '9' ? '0' : c; colons += c == ':' && del != ':'; } }
  const char* p = s.c_str();
  if (s.size() != strlen(p)) return false;
  const bool neg = *p == '-' && del == '/' && *++p;      // stringify shows years before 0 with a sign
  if (!digits(p, o.y) || *p++ != del || !digits(p, o.mo) || *p++ != del || !digits(p, o.d) || *p++ != ' ') return false;
  if (neg) o.y = -o.y;
  if (!digits(p, o.h) || *p++ != ':' || !digits(p, o.mi) || *p++ != ':' || !digits(p, o.s)) return false;
  o.frac.clear(); if (*p == '.') { ++p; while (*p >= '0' && *p <= '9') o.frac += *p++; if (o.frac.empty()) return false; }
  return *p == 0;
}
template<class S> static void show(const char* who, const std::string& s, char del, const Ymd& c, long tod, bool frac) {
  Shown o; const long f = res<S>::f; std::string k = who;
  if (!parse(s, del, o)) { viol(k + "-form", "%s gives \"%s\"", who, s.c_str()); return; }
  EXPECT(o.y == c.y && o.mo == c.m && o.d == c.d, k + "-date", "%s shows \"%s\", the date is %ld-%d-%d", who, s.c_str(), c.y, c.m, c.d);
  long sec = tod / f; EXPECT(o.h == sec / 3600 && o.mi == sec / 60 % 60 && o.s == sec % 60, k + "-time", "%s shows \"%s\", the time is %ld:%ld:%ld", who, s.c_str(), sec / 3600, sec / 60 % 60, sec % 60);
  EXPECT(o.mo >= 1 && o.mo <= 12 && o.d >= 1 && o.d <= 31 && o.h <= 23 && o.mi <= 59 && o.s <= 59, k + "-range", "%s shows \"%s\"", who, s.c_str());
  if (del != ':' && strncmp(who, "strf", 4) == 0) {   // documented as YYYY-MM-DD, then hours, minutes and whole seconds
    std::string want = std::string(c.y < 10000 ? 4 : std::to_string(c.y).size(), '0') + del + "00" + del + "00 00:00:" + (frac ? "" : "00"); std::string got = o.layout.substr(0, frac ? want.size() : std::string::npos);
    EXPECT(got == want, k + "-layout", "%s gives \"%s\": the fields are not padded to their width", who, s.c_str()); count("layouts judged"); }
  if (!frac) { EXPECT(o.frac.empty(), k + "-fraction", "%s shows \"%s\"", who, s.c_str()); return; }
  // the digits shown are exactly the fraction
  long u = tod % f; int n = (int)o.frac.size(); i128 shown = 0, p10 = 1;
  for (int i = 0; i < n && i < 30; i++) { shown = shown * 10 + (o.frac[(size_t)i] - '0'); p10 *= 10; }
  EXPECT(n <= 30 && shown * f == (i128)u * p10, k + "-fraction", "%s shows \"%s\", the fraction is %ld/%ld", who, s.c_str(), u, f);
}
template<class S> static void one(long mjd, long tod, char del) {
  CLS(S); set_cur("instant", mjd, tod, (int)(unsigned char)del);
  const datetime<S> t(modified_julian_day{mjd}, S{tod}); Ymd c = civil(mjd);
  if (c.y < 0) { del = '/'; count("years before 0"); }
  std::string a = strftime_ymd_hmfs(t, del), b = strftime_ymd_hms(t, del), s = t.stringify();
  cur_s(a.data(), (long)a.size());
  if (c.y > 9999) count("years beyond 9999");
  if (c.y >= 0) { show<S>("strftime_ymd_hmfs", a, del, c, tod, true); show<S>("strftime_ymd_hms", b, del, c, tod, false); }
  show<S>("stringify", s, '/', c, tod, true);
  if (del == '-') EXPECT(strftime_ymd_hmfs(t) == a && strftime_ymd_hms(t) == b, "default-delimiter", "default delimiter gives \"%s\" and \"%s\"", strftime_ymd_hmfs(t).c_str(), strftime_ymd_hms(t).c_str());
  auto back = [&](const char* k, const std::string& text, long want) {
    try { auto r = strptime_ymd_hms<S>(text.c_str()); EXPECT(U(r.mjd()) == mjd && U(r.sec()) == want, k, "\"%s\" reads back as MJD %ld + %ld", text.c_str(), U(r.mjd()), U(r.sec())); }
    catch (const std::exception&) { viol(std::string(k) + "-refused", "\"%s\" does not read back", text.c_str()); } };
  if (c.y >= 0) { back("hmfs-readback", a, tod); back("hms-readback", b, tod / res<S>::f * res<S>::f); back("stringify-readback", s, tod); }   // the readers have no negative years
  EXPECT(U(t.mjd()) == mjd && U(t.sec()) == tod, "operand-changed", "the datetime changed");
  count("texts formatted and read back", 3); judged();
}
static char gen_del(Rng& r) { static const char c[] = {'-', '/', '.', ' ', ':', '_', ',', 'T'}; return r.chance(70) ? r.pick(c) : any_delim(r); }

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  const long lo = mjd_of(0, 1, 1), hi = mjd_of(9999, 12, 31);
  if (section("days")) {
    Rng r = rng_for("days");
    for (long m = opt.thorough ? lo : mjd_of(1950, 1, 1); m <= (opt.thorough ? hi : mjd_of(2050, 12, 31)); m++) if (mine(m)) { switch (r.in(0, 2)) { case 0: one<seconds>(m, gen_tod<seconds>(r), '-'); break; case 1: one<milliseconds>(m, gen_tod<milliseconds>(r), '-'); break; default: one<microseconds>(m, gen_tod<microseconds>(r), '-'); } count("consecutive days"); }
    sample("days");
  }
  if (section("fractions")) {
    Rng r = rng_for("fractions");
    for (long v = 0; v < 60000; v++) if (mine(v) && (opt.thorough || (v + (long)opt.seed) % 2)) { one<milliseconds>(57754, r.in(0, 1439) * 60000 + v, '-'); count("milliseconds of a minute"); }
    long step = opt.thorough ? 61 : 2003;
    for (long v = (long)(opt.seed % (uint64_t)step); v < 60000000; v += step) if (mine(v / step)) { one<microseconds>(57754, r.in(0, 1439) * 60000000 + v, '-'); count("microseconds of a minute"); }
    for (long u : {999999L, 999500L, 999499L, 999950L, 999995L, 995000L, 994999L, 500000L, 499999L, 1L, 5L, 50L, 49L, 0L, 999000L, 100000L, 990000L}) for (long s : {0L, 9L, 10L, 58L, 59L}) for (long h : {0L, 9L, 23L}) for (long mi : {0L, 59L}) { one<microseconds>(57753, ((h * 60 + mi) * 60 + s) * 1000000 + u, '-'); if (u % 1000 == 0) one<milliseconds>(57753, ((h * 60 + mi) * 60 + s) * 1000 + u / 1000, '-'); }
    sample("fractions");
  }
  if (section("times")) { Rng r = rng_for("times"); for (long s = 0; s < 86400; s++) if (mine(s) && (opt.thorough || (s + (long)opt.seed) % 3 == 0)) one<seconds>(gen_mjd(r, lo, hi), s, '/'); sample("times"); }
  if (section("delims")) { Rng r = rng_for("delims"); for (int rep = 0; rep < 4; rep++) for (int c = 1; c < 256; c++) if (c < '0' || c > '9') { long m = gen_mjd(r, lo, hi); one<seconds>(m, gen_tod<seconds>(r), (char)c); one<milliseconds>(m, gen_tod<milliseconds>(r), (char)c); one<microseconds>(m, gen_tod<microseconds>(r), (char)c); count("delimiter bytes"); } sample("delims"); }
  if (section("far")) {   // years of more digits than four (of all formatting functions), and before 0 (of stringify)
    Rng r = rng_for("far"); long n = scale(3000);
    each_res([&](auto s) { using S = decltype(s);
      for (long y : {10000L, 10999L, 12345L, 65535L, 65536L, 99999L, 100000L, 123456L, 999999L, 1000000L, 1234567L}) for (int m : {1, 2, 10, 12}) { one<S>(mjd_of(y, m, m == 2 ? 9 : 31), gen_tod<S>(r), gen_del(r)); if (y > 10000) one<S>(mjd_of(y, m, 1) - 1, gen_tod<S>(r), gen_del(r)); }
      for (long y : {-1L, -9L, -10L, -99L, -100L, -999L, -1000L, -4799L}) for (int m : {1, 2, 10, 12}) one<S>(mjd_of(y, m, m == 2 ? 9 : 31), gen_tod<S>(r), '/');
      for (long i = 0; i < n; i++) { one<S>(hi + 1 + r.logu(360000000L), gen_tod<S>(r), gen_del(r)); if (i % 4 == 0) one<S>(gen_mjd(r, mjd_of(-4799, 1, 1), lo - 1), gen_tod<S>(r), '/'); } sample("far"); });
  }
  if (section("random")) { Rng r = rng_for("random"); long n = scale(12000); each_res([&](auto s) { using S = decltype(s); for (long i = 0; i < n; i++) one<S>(gen_mjd(r, lo, hi), gen_tod<S>(r), gen_del(r)); sample("random"); }); }
  return finish();
}
