// C14: malformed date strings are refused, and nothing outside them is touched.
#include "text.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

/// Run one string on S in different memory surroundings; all outcomes must be one.
template<class S> static Outcome in_places(int f, const std::string& s, int places) {
  CLS(S); Exact x(s); set_cur(fmt_name(f), (long)s.size()); cur_s(x.p, x.len);
  errno = 0; Outcome o = outcome<S>(f, x.p, x.len);
  // the same characters, followed and preceded by what would be taken for more fields
  static const char* after[] = {"12-25 10:20:30.5", "\xff\xff\xff\xff\xff\xff\xff\xff", "-Jan-12:13:14:15", "999999999999999999999"};
  for (int k = 0; k < places; k++) {
    char buf[1024]; size_t n = s.size(); if (n > 700) break;
    memset(buf, k & 1 ? '7' : '-', sizeof buf); char* p = buf + 16;
    memcpy(p, s.data(), n); p[n] = 0; strcpy(p + n + 1, after[k % 4]);
    errno = k & 1 ? ERANGE : k & 2 ? EINVAL : 0;
    Outcome q = outcome<S>(f, p, (long)n);
    if (!(q == o)) viol(std::string(fmt_name(f)) + "-surroundings", "%s alone, %s with other memory around it", show(o).c_str(), show(q).c_str());
    // the memory is left as it was
    if (memcmp(p, s.data(), n) || p[n] || strcmp(p + n + 1, after[k % 4])) viol(std::string(fmt_name(f)) + "-writes", "the reader wrote to the string or its surroundings");
  }
  if (memcmp(x.p, s.data(), s.size() + 1)) viol(std::string(fmt_name(f)) + "-writes", "the reader wrote to the string");
  Verdict v = classify<S>(f, x.p); std::string k = fmt_name(f);
  i128 off = ((i128)o.mjd - v.mjd) * day_units<S>() + o.sec;
  switch (v.cls) {
    case REFUSE: EXPECT(o.kind == INVALID, k + "-malformed", "%s: %s", v.why, show(o).c_str()); count("strings found malformed by the grammar"); break;
    case IMPOSSIBLE: EXPECT(o.kind != OK, k + "-impossible", "an impossible date: %s", show(o).c_str()); count("strings found to name an impossible date"); break;
    case SPELLS: EXPECT(o.kind == OK && off >= v.lo && off <= v.hi && o.stop == v.stop, k + "-wellformed", "the string spells MJD %ld + %ld, stop %ld: %s", v.mjd, v.lo, v.stop, show(o).c_str()); count("strings found well formed by the grammar"); break;
    default: count("strings in between");
  }
  errno = 0;
  count(o.kind == OK ? "read" : o.kind == INVALID ? "refused (invalid_argument)" : "refused (other exception)");
  return o;
}
template<class S> static void must_refuse(int f, const std::string& s, const char* why, int places = 1) {
  Outcome o = in_places<S>(f, s, places);
  if (classify<S>(f, s.c_str()).cls == REFUSE) count("malformed by construction and by the grammar");
  if (o.kind != INVALID) viol(std::string(fmt_name(f)) + "-" + why, "%s: %s", why, show(o).c_str());
  count(why); judged();
}
static void refuse(Rng& r, int f, const std::string& s, const char* why) {
  switch (r.in(0, 2)) { case 0: must_refuse<seconds>(f, s, why); break; case 1: must_refuse<milliseconds>(f, s, why); break; default: must_refuse<microseconds>(f, s, why); }
}
static void any(Rng& r, int f, const std::string& s, int places = 2) {
  std::string z = s.c_str();                     // up to the first NUL
  switch (r.in(0, 2)) { case 0: in_places<seconds>(f, z, places); break; case 1: in_places<milliseconds>(f, z, places); break; default: in_places<microseconds>(f, z, places); }
  judged(); count("arbitrary strings");
}
static char plain_delim(Rng& r) { static const char c[] = {'/', ':', ',', 'T', '_', ';', '|', '.', '\xff', 'z'}; return r.pick(c); }

#ifdef GUIDED
/// Strings put together by libFuzzer, which keeps those that reach something
/// new in the readers (and follows the comparisons they make). The first byte
/// is the reader and the resolution.
extern "C" int LLVMFuzzerRunDriver(int*, char***, int (*)(const uint8_t*, size_t));
static int one(const uint8_t* d, size_t n) {
  if (n < 1) return 0;
  std::string s((const char*)d + 1, n - 1); s = s.c_str(); int f = d[0] % NFMT;
  switch (d[0] / NFMT % 3) { case 0: in_places<seconds>(f, s, 1); break; case 1: in_places<milliseconds>(f, s, 1); break; default: in_places<microseconds>(f, s, 1); }
  judged(); count("strings put together by coverage"); if (evaluations % 20000 == 1000) sample("guided");
  return 0;
}
static int guided(const char* name) {
  Rng r = rng_for("guided"); std::string dir = std::string(name) + ".corpus." + std::to_string(opt.shard), dict = dir + ".dict";
  auto put = [](const std::string& file, const std::string& s) { FILE* f = fopen(file.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } };
  (void)!system(("rm -rf " + dir + " && mkdir " + dir).c_str());
  for (int i = 0; i < 60; i++) { int f = i % NFMT; put(dir + "/" + std::to_string(i), std::string(1, (char)(f + NFMT * (i % 3))) + gen_text(r, f).str()); }
  std::string words; auto word = [&](const std::string& w) { words += '"'; for (char c : w) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); words += b; } words += "\"\n"; };
  for (const std::string& w : constants().word) word(w);
  for (const char* w : {"2147483648", "-", "+", ".", "e", "0x", "nan", "inf", "1e10", "Jan", "dec", "99999999999999999999", "59.999999999", "366", " ", "\n"}) word(w);
  put(dict, words);
  std::string runs = "-runs=" + std::to_string(scale(60000, 30)), seed = "-seed=" + std::to_string(opt.seed * 8 + (uint64_t)opt.shard + 1), d = "-dict=" + dict;
  const char* a[] = {name, runs.c_str(), seed.c_str(), d.c_str(), "-max_len=96", "-len_control=20", "-use_value_profile=1", "-timeout=0", "-rss_limit_mb=0", "-detect_leaks=0", "-print_final_stats=1", "-verbosity=0", "-reload=0",
    "-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", dir.c_str(), nullptr};
  int n = (int)(sizeof a / sizeof a[0]) - 1; char** v = (char**)a;
  atexit([] { _exit(finish()); });                  // the driver ends the process itself
  return LLVMFuzzerRunDriver(&n, &v, one);
}
#endif
int main(int argc, char** argv) {
  init(argc, argv); self_check();
#ifdef GUIDED
  return guided(argv[0]);
#endif
  const long div = slow_throw ? 4 : 1;
  if (section("truncated")) {          // cut at every point before the last field
    Rng r = rng_for("truncated"); long n = scale(5000) / div;
    for (long i = 0; i < n; i++) for (int f = 0; f < NFMT; f++) {
      Text t = gen_text(r, f); std::string s = t.body(); size_t keep = t.start_of(t.last());
      for (size_t c = 0; c <= keep; c++) refuse(r, f, s.substr(0, c), "cut-short");
      for (size_t c = keep + 1; c <= s.size(); c++) any(r, f, s.substr(0, c), 1);
    }
    sample("truncated");
  }
  if (section("fields")) {             // one field bad, everything else fine
    Rng r = rng_for("fields"); long n = scale(16000) / div;
    static const char* words[] = {"ab", "x", "Jan", "$", "..", "--", "+-", "- 1", "%d", "O1", "l2", "\xff", "nan", "(null)", "_1"};
    static const char* huge[] = {"2147483648", "4294967296", "4294967297", "4294967308", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "-2147483648999", "-99999999999", "-9223372036854775808", "-9223372036854775809", "1111111111111111111111111111111111111111", "0000002147483648"};
    static const char* badsec[] = {"", "abc", "nan", "NAN", "nan(123)", "-nan", "inf", "INF", "infinity", "-inf", "1e400", "-1e400", "1e999999", "1e300", "9999999999999999999999999999999999999999999", "-1e300", ".", "-", "e5", ":", "++1", "- 5", "..5"};
    for (long i = 0; i < n; i++) for (int f = 0; f < NFMT; f++) {
      Text t = gen_text(r, f); for (char& c : t.delim) c = plain_delim(r);
      t.tail.clear();
      size_t k = (size_t)r.in(0, (long)t.last()); bool secs = f >= YMD_HMS && k == t.last(), mon_ = f == YOD_HMS && k == 1;
      if (secs) { t.field[k] = r.pick(badsec); if (r.chance(30)) t.tail = "/"; refuse(r, f, t.str(), "bad-seconds"); }
      else if (mon_) {
        std::string q; 
        do { q.clear(); for (int j = 0; j < 3; j++) q += (char)('a' + r.in(0, 25)); if (r.chance(60)) { q = months()[r.in(0, 11)]; q[(size_t)r.in(0, 2)] = (char)(r.chance(80) ? 'a' + r.in(0, 25) : r.in(128, 255)); if (!isalpha((unsigned char)q[0])) q[0] = 'q'; }
          bool hit = false; for (int j = 0; j < 12; j++) hit |= !strcasecmp(q.c_str(), months()[j]); if (!hit) break; } while (true);
        t.field[k] = q; refuse(r, f, t.str(), "unknown-month"); }
      else switch (r.in(0, 2)) {
        case 0: t.field[k] = r.pick(huge); refuse(r, f, t.str(), "unrepresentable"); break;
        case 1: t.field[k] = r.pick(words); if (t.field[k] == "Jan" && f == YOD_HMS) t.field[k] = "Jaz"; refuse(r, f, t.str(), "not-numeric"); break;
        default: t.field[k].clear(); refuse(r, f, t.str(), "empty-field");
      }
    }
    sample("fields");
  }
  if (section("tiny")) {               // every string of up to two bytes, and up to five of a small alphabet
    Rng r = rng_for("tiny");
    for (int f = 0; f < NFMT; f++) {
      refuse(r, f, "", "empty");
      for (int a = 1; a < 256; a++) { std::string s(1, (char)a); refuse(r, f, s, "too-short"); }
      if (!slow_throw || opt.thorough) for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) { char c[] = {(char)a, (char)b, 0}; refuse(r, f, c, "too-short"); }
      const char al[] = {'1', '0', '-', ' ', ':', 'a', '.', 'J'}; int L = slow_throw ? 3 : opt.thorough ? 6 : 4; std::vector<int> ix;
      for (int len = 3; len <= L; len++) { ix.assign((size_t)len, 0); for (;;) { std::string s; for (int j : ix) s += al[j]; any(r, f, s, 1); int p = 0; while (p < len && ++ix[(size_t)p] == 8) ix[(size_t)p++] = 0; if (p == len) break; } }
    }
    sample("tiny");
  }
  if (section("mutated")) {            // byte edits of well-formed text
    Rng r = rng_for("mutated"); long n = scale(60000) / div;
    static const char chars[] = "0123456789-+:/ .,eExXpPnNaAiIfFtTyYjJ\t\n";
    for (long i = 0; i < n; i++) for (int f = 0; f < NFMT; f++) {
      Text t = gen_text(r, f); std::string s = t.str(); int g = r.chance(80) ? f : (int)r.in(0, NFMT - 1);
      int e = (int)r.in(1, 5);
      while (e--) { size_t p = (size_t)r.in(0, (long)s.size() - 1); char c = r.chance(80) ? chars[r.in(0, (long)sizeof chars - 2)] : (char)r.in(1, 255);
        switch (r.in(0, 5)) { case 5: { const auto& w = constants().word; if (w.empty()) s[p] = c; else s.insert(p, r.pick(w)); break; } case 0: s.erase(p, (size_t)r.in(1, 3)); break; case 1: s.insert(p, (size_t)r.in(1, 3), c); break; case 2: s.insert(p, s.substr(p, (size_t)r.in(1, 6))); break; case 3: if (s.size() > 2) s.resize((size_t)r.in(1, (long)s.size())); break; default: s[p] = c; }
        if (s.empty()) s = "1"; }
      any(r, g, s);
    }
    sample("mutated");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(60000) / div;
    static const char chars[] = "0123456789-+:/ .eExXJanFeb";
    for (long i = 0; i < n; i++) {
      std::string s; int len = (int)(r.chance(95) ? r.in(0, 40) : r.in(40, 600)); bool bytes = r.chance(30);
      const auto& w = constants().word; bool words = !w.empty() && r.chance(20);
      while (len--) if (words && r.chance(10)) s += r.pick(w); else s += bytes ? (char)r.in(1, 255) : chars[r.in(0, (long)sizeof chars - 2)];
      any(r, (int)r.in(0, NFMT - 1), s);
    }
    sample("random");
  }
  if (section("extremes")) {           // every field at the edges of int, in range or not
    Rng r = rng_for("extremes"); long n = scale(20000) / div;
    static const char* ed[] = {"0", "1", "-1", "2147483647", "-2147483647", "2147483646", "32767", "65536", "366", "367", "24", "25", "60", "61", "86400", "1000000", "-2147483646", "+7", " 9", "00000000000000000000000000000000000000003"};
    static const char* es[] = {"0", "-0", "59.999999999999999999", "60", "61.5", "86400", "1e3", "1e9", "2147483647", "2147483647.5", "-2147483647", "2147483648", "1e10", "0x1p4", "0x7fffffff", "1e-300", "4.9e-324", "1e-400", "-59.5", "3e", "3e+", "0x", "12.", ".5"};
    for (long i = 0; i < n; i++) for (int f = 0; f < NFMT; f++) {
      Text t = gen_text(r, f); for (char& c : t.delim) c = plain_delim(r);
      for (size_t k = 0; k < t.field.size(); k++) { if (f == YOD_HMS && k == 1) continue; if (r.chance(45)) t.field[k] = f >= YMD_HMS && k == t.last() ? r.pick(es) : r.pick(ed); }
      any(r, f, t.str());
    }
    sample("extremes");
  }
  return finish();
}
