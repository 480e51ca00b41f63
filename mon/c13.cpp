// C13: well-formed date strings are read as exactly the instant they spell.
#include "text.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

template<class S> static void judge(const Text& t, const Exact& x) {
  CLS(S); set_cur(fmt_name(t.fmt), t.mjd, t.tod_sec); cur_s(x.p, x.len);
  const bool first = (t.mjd ^ x.len) & 1; Outcome p;      // without asking for the stop position: first or afterwards
  if (first) p = outcome<S>(t.fmt, x.p, x.len, false);
  Outcome o = outcome<S>(t.fmt, x.p, x.len);
  std::string k = fmt_name(t.fmt);
  if (o.kind != OK) { viol(k + "-refused", "a well-formed string ends in %s", show(o).c_str()); judged(); return; }
  long u = t.units<S>();
  EXPECT(o.mjd == t.mjd, k + "-date", "read as MJD %ld, it spells MJD %ld", o.mjd, t.mjd);
  EXPECT(o.sec == u, k + ((int)t.frac.size() > res<S>::dig ? "-time-truncated" : "-time"), "read as %ld units of the day, it spells %ld", o.sec, u);
  long last = (long)t.body().size() - 1;
  if (o.stop == last + 1) viol("stop-one-past:" + k, "stop is one past the last character interpreted (%ld, last is %ld)", o.stop, last);
  else EXPECT(o.stop == last, "stop-wrong:" + k, "stop is %ld, the last character interpreted is %ld", o.stop, last);
  // without asking for the stop position, and whatever errno holds
  if (!first) { errno = ERANGE; p = outcome<S>(t.fmt, x.p, x.len, false); }
  EXPECT(p.kind == OK && p.mjd == o.mjd && p.sec == o.sec, k + "-without-stop", "without stop: %s, with: %s", show(p).c_str(), show(o).c_str());
  errno = 0;
  if (t.frac.size() >= 300 && t.tod_sec % 60 == 0) count("fractions below the smallest double");
  count(t.frac.empty() ? "whole seconds read" : (int)t.frac.size() > res<S>::dig ? "fractions truncated" : "fractions read exactly");
  judged();
}
static void all(const Text& t) { Exact x(t.str()); judge<seconds>(t, x); judge<milliseconds>(t, x); judge<microseconds>(t, x); }

/// fields preceded by blanks or a plus sign: refused, or read as what they spell
template<class S> static void judge_padded(const Text& t, const Exact& x) {
  CLS(S); set_cur(fmt_name(t.fmt), t.mjd, t.tod_sec); cur_s(x.p, x.len); const std::string k = fmt_name(t.fmt);
  const Outcome o = outcome<S>(t.fmt, x.p, x.len), p = outcome<S>(t.fmt, x.p, x.len, false);
  EXPECT(p.kind == o.kind && p.mjd == o.mjd && p.sec == o.sec, k + "-without-stop", "without stop: %s, with: %s", show(p).c_str(), show(o).c_str());
  if (o.kind == OK) {
    const long u = t.units<S>();
    EXPECT(o.mjd == t.mjd, k + "-padded-date", "read as MJD %ld, it spells MJD %ld", o.mjd, t.mjd);
    EXPECT(o.sec == u, k + "-padded-time", "read as %ld units of the day, it spells %ld", o.sec, u);
    EXPECT(o.stop == (long)t.body().size() - 1, k + "-padded-stop", "stop is %ld, the last character interpreted is %ld", o.stop, (long)t.body().size() - 1);
    count("padded strings read");
  } else { EXPECT(o.kind == INVALID, k + "-padded-other", "a padded string ends in %s", show(o).c_str()); count("padded strings refused"); }
  judged();
}

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(40000);
    for (long i = 0; i < n; i++) { for (int f = 0; f < NFMT; f++) { all(gen_text(r, f)); count(fmt_name(f)); } if (i < 3 || i == n - 1) sample("random"); }
  }
  if (section("padded")) {             // blanks and plus signs before the numbers
    Rng r = rng_for("padded"); long n = scale(12000);
    for (long i = 0; i < n; i++) for (int f = 0; f < NFMT; f++) {
      Text t = gen_text(r, f); if (t.frac.size() > 25) continue;
      const size_t only = (size_t)r.in(0, (long)t.field.size());      // one of them, or any
      for (size_t k = 0; k < t.field.size(); k++) { if (f == YOD_HMS && k == 1) continue; if (only < t.field.size() ? k != only : r.chance(50)) continue;
        const char* pads[] = {" ", "  ", "   ", "+", " +", "\t", "\n", "     "}; std::string pad = r.pick(pads); if (r.chance(1)) pad = std::string((size_t)r.in(20, 300), ' ');
        t.field[k] = pad + t.field[k]; }
      Exact x(t.str()); judge_padded<seconds>(t, x); judge_padded<milliseconds>(t, x); judge_padded<microseconds>(t, x);
    }
    sample("padded");
  }
  if (section("delims")) {             // every delimiter byte at every position
    Rng r = rng_for("delims");
    for (int rep = 0; rep < (opt.thorough ? 40 : 3); rep++) for (int f = 0; f < NFMT; f++) for (int c = 1; c < 256; c++) if (c < '0' || c > '9') {
      Text t = gen_text(r, f); for (size_t i = 0; i < t.delim.size(); i++) { Text q = t; q.delim[i] = (char)c; all(q); } 
      t.tail.clear(); t.delim.assign(t.delim.size(), (char)c); all(t); count("delimiter bytes"); }
    sample("delims");
  }
  if (section("fractions")) {          // every millisecond of a minute; many microseconds
    Rng r = rng_for("fractions");
    auto make = [&](long tod, const std::string& frac) { Text t; t.fmt = r.chance(50) ? YMD_HMS : r.chance(50) ? YDOY_HMS : YOD_HMS; t.mjd = 57000 + r.in(0, 3000); Ymd c = civil(t.mjd); char b[40];
      snprintf(b, sizeof b, "%ld", c.y); t.field.push_back(b);
      if (t.fmt == YMD_HMS) { t.field.push_back(std::to_string(c.m)); t.field.push_back(std::to_string(c.d)); }
      else if (t.fmt == YOD_HMS) { t.field.push_back(months()[c.m - 1]); t.field.push_back(std::to_string(c.d)); }
      else t.field.push_back(std::to_string(c.doy));
      t.tod_sec = tod; t.frac = frac; t.field.push_back(std::to_string(tod / 3600)); t.field.push_back(std::to_string(tod / 60 % 60));
      snprintf(b, sizeof b, "%02ld%s%s", tod % 60, frac.empty() ? "" : ".", frac.c_str()); t.field.push_back(b);
      t.delim = std::string(t.field.size() - 1, ':'); return t; };
    char b[16];
    for (long v = 0; v < 60000; v++) if (mine(v)) { snprintf(b, sizeof b, "%03ld", v % 1000); all(make(r.in(0, 1439) * 60 + v / 1000, b)); count("milliseconds of a minute"); }
    long step = opt.thorough ? 37 : 997;
    for (long v = (long)(opt.seed % (uint64_t)step); v < 60000000; v += step) if (mine(v / step)) { snprintf(b, sizeof b, "%06ld", v % 1000000); Text t = make(r.in(0, 1439) * 60 + v / 1000000, b); Exact x(t.str()); judge<microseconds>(t, x); count("microseconds of a minute"); }
    sample("fractions");
  }
  if (section("days")) {               // every day of two centuries, each reader
    Rng r = rng_for("days");
    for (long m = mjd_of(opt.thorough ? 0 : 1890, 1, 1); m <= mjd_of(opt.thorough ? 9999 : 2110, 12, 31); m++) if (mine(m)) {
      Ymd c = civil(m); Text t; t.mjd = m; t.fmt = m % 2 ? YMD : YDOY; char b[16]; snprintf(b, sizeof b, "%04ld", c.y); t.field.push_back(b);
      if (t.fmt == YMD) { snprintf(b, sizeof b, "%02d", c.m); t.field.push_back(b); snprintf(b, sizeof b, "%02d", c.d); t.field.push_back(b); } else { snprintf(b, sizeof b, "%03d", c.doy); t.field.push_back(b); }
      t.delim = std::string(t.field.size() - 1, '-'); { Exact x(t.str()); judge<seconds>(t, x); }
      if (m % 3 == 0) { Text q = t; q.fmt = q.fmt == YMD ? YMD_HMS : YDOY_HMS; long s = r.in(0, 86399); q.tod_sec = s; for (long v : {s / 3600, s / 60 % 60, s % 60}) { snprintf(b, sizeof b, "%02ld", v); q.field.push_back(b); } q.delim += " ::"; all(q); }
      count("consecutive days"); }
    sample("days");
  }
  return finish();
}
