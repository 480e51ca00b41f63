// C23: reading, writing and every other operation are independent of the locale and of the time zone.
#include <clocale>
#include <ctime>
#include <locale>
#include <locale.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
#include "ops.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

// ------------------------------------------------------------------ locales
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct Digits1 : std::numpunct<char> { char do_decimal_point() const override { return '5'; } char do_thousands_sep() const override { return '0'; } std::string do_grouping() const override { return "\1"; } };
enum How { SETLOCALE, NUMERIC, CTYPE, USELOCALE, CXX, CXX_OWN1, CXX_OWN2, ZONE };
struct Env { std::string name; How how; locale_t loc = nullptr; };
static std::locale c_before; static locale_t thread_before;

/// What the locale in force does, seen through the C and C++ libraries themselves.
static void observe() {
  if (strcmp(localeconv()->decimal_point, ".")) count("runs with another decimal point (C library)");
  if (*localeconv()->grouping && *localeconv()->thousands_sep) count("runs with digit grouping (C library)");
  if (tolower('I') != 'i') count("runs where the lower case of I is not i");
  if (isspace(0xa0) || isspace(0x85)) count("runs with white space beyond ASCII");
  if (isalpha(0xe1)) count("runs with letters beyond ASCII");
  const auto& np = std::use_facet<std::numpunct<char>>(std::locale());
  if (np.decimal_point() != '.') count("runs with another decimal point (C++ library)");
  if (!np.grouping().empty()) count("runs with digit grouping (C++ library)");
  time_t t = 1561939200; struct tm l; localtime_r(&t, &l);      // 1 July 2019, 0h UTC
  if (l.tm_gmtoff) count("runs in another time zone");
  if (l.tm_isdst > 0) count("runs in summer time");
}
static void enter(const Env& e) {
  switch (e.how) {
    case SETLOCALE: setlocale(LC_ALL, e.name.c_str()); break;
    case NUMERIC:   setlocale(LC_NUMERIC, e.name.c_str()); break;
    case CTYPE:     setlocale(LC_CTYPE, e.name.c_str()); break;
    case USELOCALE: thread_before = uselocale(e.loc); break;
    case CXX:       c_before = std::locale::global(std::locale(e.name)); break;
    case CXX_OWN1:  c_before = std::locale::global(std::locale(std::locale::classic(), new Comma)); break;
    case ZONE:      setenv("TZ", e.name.c_str(), 1); tzset(); break;
    case CXX_OWN2:  c_before = std::locale::global(std::locale(std::locale::classic(), new Digits1)); break;
  }
}
static void leave(const Env& e) {
  switch (e.how) {
    case SETLOCALE: case NUMERIC: case CTYPE: setlocale(LC_ALL, "C"); break;
    case USELOCALE: uselocale(thread_before); break;
    case ZONE: setenv("TZ", "UTC0", 1); tzset(); break;
    default: std::locale::global(c_before); setlocale(LC_ALL, "C");
  }
}
struct In { const Env& e; explicit In(const Env& x) : e(x) { enter(e); } ~In() { leave(e); } In(const In&) = delete; };
static const char* how_name(How h) { static const char* n[] = {"setlocale", "setlocale LC_NUMERIC", "setlocale LC_CTYPE", "uselocale", "std::locale::global", "std::locale::global, own facet", "std::locale::global, own facet", "TZ"}; return n[h]; }
static std::vector<Env> envs() {
  std::vector<Env> v; const char* list = getenv("VERIF_LOCALES"); if (!list) { fprintf(stderr, "VERIF_LOCALES is not set\n"); exit(9); }
  std::string all = list, one; all += ':';
  for (char c : all) if (c == ':') {
    if (!one.empty()) {
      if (!setlocale(LC_ALL, one.c_str())) { fprintf(stderr, "locale %s cannot be used\n", one.c_str()); exit(9); }
      setlocale(LC_ALL, "C");
      for (How h : {SETLOCALE, NUMERIC, CTYPE, CXX}) v.push_back({one, h});
      Env u{one, USELOCALE}; u.loc = newlocale(LC_ALL_MASK, one.c_str(), (locale_t)0); if (u.loc) v.push_back(u);
    }
    one.clear();
  } else one += c;
  for (const char* z : {"EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "<+0545>-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "ABC-0:00:37", ":nowhere"}) v.push_back({z, ZONE});
  v.push_back({"comma and grouping", CXX_OWN1}); v.push_back({"digits as punctuation", CXX_OWN2});
  return v;
}

// ------------------------------------------------------------------- monitors
struct Case { int kind; uint64_t seed; std::string want; };
static void operations(const std::vector<Env>& es, Rng& r, long n) {
  for (long k = 0; k < n; k++) {
    uint64_t cluster = k % 3 ? (uint64_t)r.in(1, 100000000) : 0; std::vector<Case> cs;
    for (int kind = 0; kind < ops::NK; kind++) for (int i = 0; i < 6; i++) { Case c{kind, (cluster << 32) | (uint64_t)r.in(0, 0xffffffffL), ""}; set_cur(ops::kinds[kind].name, kind, (long)c.seed); errno = 0; c.want = ops::run(c.kind, c.seed); cs.push_back(c); }
    for (const Env& e : es) {
      std::vector<std::string> got;
      { In in(e); if (k == 0) observe(); for (const Case& c : cs) { set_cur(ops::kinds[c.kind].name, c.kind, (long)c.seed); cur_s(e.name.data(), (long)e.name.size()); errno = 0; got.push_back(ops::run(c.kind, c.seed)); advance(); } }
      for (size_t i = 0; i < cs.size(); i++) { set_cur(ops::kinds[cs[i].kind].name, cs[i].kind, (long)cs[i].seed); cur_s(e.name.data(), (long)e.name.size()); EXPECT(got[i] == cs[i].want, std::string("operation:") + ops::kinds[cs[i].kind].name, "in locale %s (%s) the result is \"%.200s\", in the C locale \"%.200s\"", e.name.c_str(), how_name(e.how), got[i].c_str(), cs[i].want.c_str()); judged(); count("calls repeated in another locale"); }
    }
  }
}
template<class S> static void round_trip(const Env& a, const Env& b, long mjd, long tod) {
  CLS(S); set_cur("write and read", mjd, tod); cur_s(a.name.data(), (long)a.name.size());
  const datetime<S> t(modified_julian_day{mjd}, S{tod}); std::string c1 = strftime_ymd_hmfs(t), c2 = strftime_ymd_hms(t, '/'), c3 = t.stringify(), s1, s2, s3; Outcome o1, o2, o3;
  { In in(a); s1 = strftime_ymd_hmfs(t); s2 = strftime_ymd_hms(t, '/'); s3 = t.stringify(); }
  EXPECT(s1 == c1, "hmfs", "strftime_ymd_hmfs gives \"%s\" in locale %s (%s), \"%s\" in the C locale", s1.c_str(), a.name.c_str(), how_name(a.how), c1.c_str());
  EXPECT(s2 == c2, "hms", "strftime_ymd_hms gives \"%s\" in locale %s (%s), \"%s\" in the C locale", s2.c_str(), a.name.c_str(), how_name(a.how), c2.c_str());
  EXPECT(s3 == c3, "stringify", "stringify gives \"%s\" in locale %s (%s), \"%s\" in the C locale", s3.c_str(), a.name.c_str(), how_name(a.how), c3.c_str());
  { In in(b); o1 = outcome<S>(YMD_HMS, s1.c_str(), (long)s1.size()); o2 = outcome<S>(YMD_HMS, s2.c_str(), (long)s2.size()); o3 = outcome<S>(YMD_HMS, s3.c_str(), (long)s3.size()); }
  long whole = tod / res<S>::f * res<S>::f;
  EXPECT(o1.kind == OK && o1.mjd == mjd && o1.sec == tod, "hmfs-readback", "\"%s\" written in locale %s and read in %s (%s): %s", s1.c_str(), a.name.c_str(), b.name.c_str(), how_name(b.how), show(o1).c_str());
  EXPECT(o2.kind == OK && o2.mjd == mjd && o2.sec == whole, "hms-readback", "\"%s\" written in locale %s and read in %s (%s): %s", s2.c_str(), a.name.c_str(), b.name.c_str(), how_name(b.how), show(o2).c_str());
  EXPECT(o3.kind == OK && o3.mjd == mjd && o3.sec == tod, "stringify-readback", "\"%s\" written in locale %s and read in %s (%s): %s", s3.c_str(), a.name.c_str(), b.name.c_str(), how_name(b.how), show(o3).c_str());
  count("texts written in one locale and read in another", 3); judged();
}
/// well-formed text, judged by what it spells; any text, judged by the C locale
template<class S> static void reading(const std::vector<Env>& es, Rng& r, long n) {
  CLS(S);
  for (long k = 0; k < n; k++) {
    const Env& e = es[(size_t)r.in(0, (long)es.size() - 1)]; int f = (int)r.in(0, NFMT - 1); Text t = gen_text(r, f); std::string s = t.str();
    set_cur(fmt_name(f), (long)s.size()); Exact x(s); cur_s(x.p, x.len); Outcome o;
    { In in(e); o = outcome<S>(f, x.p, x.len); }
    EXPECT(o.kind == OK && o.mjd == t.mjd && o.sec == t.units<S>(), "well-formed", "read in locale %s (%s): %s; it spells MJD %ld + %ld", e.name.c_str(), how_name(e.how), show(o).c_str(), t.mjd, t.units<S>());
    count("well-formed texts read in another locale"); judged();
    // edited
    for (int j = 0; j < 3; j++) {
      std::string q = s; int edits = (int)r.in(1, 3);
      static const char odd[] = {',', '.', '\xa0', '\x85', '\'', '\xe9', '\xdd', '\xfd', ' ', 'i', 'I', '\xd9', '\xac', '0', '9', '\t'};
      for (int i = 0; i < edits && !q.empty(); i++) { size_t p = (size_t)r.in(0, (long)q.size() - 1); if (r.chance(60)) q[p] = r.pick(odd); else q.insert(p, 1, r.pick(odd)); }
      q = q.c_str(); set_cur(fmt_name(f), (long)q.size()); Exact y(q); cur_s(y.p, y.len); Outcome a = outcome<S>(f, y.p, y.len), b;
      { In in(e); b = outcome<S>(f, y.p, y.len); }
      EXPECT(a == b, "edited", "%s in the C locale, %s in locale %s (%s)", show(a).c_str(), show(b).c_str(), e.name.c_str(), how_name(e.how)); count("other texts read in both"); judged();
    }
  }
}
static int resolve(const char* s) { try { return (int)U(month{s}); } catch (const std::invalid_argument&) { return 0; } catch (const std::exception&) { return -1; } }
static void names(const std::vector<Env>& es, Rng& r) {
  static const char* L[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  for (const Env& e : es) for (int i = 0; i < 12; i++) {
    std::string n = L[i]; bool all = i == 3 || i == 4;
    auto look = [&](const std::string& s, int want) { Exact x(s); set_cur("month", want); cur_s(x.p, x.len); int got; { In in(e); got = resolve(x.p); } EXPECT(got == want, "month-name", "resolves to month %d in locale %s (%s), it names %d", got, e.name.c_str(), how_name(e.how), want); count("month names looked up in another locale"); judged(); };
    unsigned top = 1u << n.size();
    for (unsigned m = 0; m < top; m += all ? 1u : (unsigned)r.in(1, 9)) { std::string s = n; for (size_t k = 0; k < s.size(); k++) s[k] = (char)(m >> k & 1 ? s[k] & ~0x20 : s[k] | 0x20); look(s, i + 1); if (m < 8) look(s.substr(0, 3), i + 1); }
    // bytes that some locale takes for another case of a letter, or for white space
    for (size_t k = 0; k < n.size(); k++) for (char c : {'\xdd', '\xfd', '\xe9', '\xa0', '\x85', '\xb1', '1'}) { std::string s = n; s[k] = c; look(s, 0); if (k < 3) look(s.substr(0, 3), 0); }
    look(n + "\xa0", 0); look("\xa0" + n, 0); look(n + "\x85", 0);
    set_cur("reported", i + 1); In in(e); month m{i + 1}; EXPECT(n == m.long_name() && n.substr(0, 3) == m.short_name(), "reported-name", "the reported names are \"%s\" and \"%s\"", m.short_name(), m.long_name());
  }
}
/// threads in different locales (uselocale) at the same time
static void threads(const std::vector<Env>& es, Rng& r, long rounds) {
  std::vector<const Env*> use; for (const Env& e : es) if (e.how == USELOCALE) use.push_back(&e);
  std::vector<std::pair<std::string, std::string>> work; // text, hmfs of its instant
  std::vector<datetime<microseconds>> inst;
  for (int i = 0; i < 200; i++) { datetime<microseconds> t(modified_julian_day{r.in(mjd_of(1000, 1, 1), mjd_of(9999, 12, 31))}, microseconds{gen_tod<microseconds>(r)}); inst.push_back(t); work.push_back({strftime_ymd_hmfs(t), t.stringify()}); }
  std::atomic<long> bad{0}, done{0}; std::vector<std::thread> ts; set_cur("threads in different locales", (long)use.size());
  for (size_t k = 0; k <= use.size(); k++) ts.emplace_back([&, k] {
    locale_t b = nullptr; if (k < use.size()) b = uselocale(use[k]->loc);
    for (long q = 0; q < rounds; q++) for (size_t i = 0; i < inst.size(); i++) {
      bool ok = strftime_ymd_hmfs(inst[i]) == work[i].first && inst[i].stringify() == work[i].second;
      try { ok = ok && strptime_ymd_hms<microseconds>(work[i].first.c_str()) == inst[i]; } catch (const std::exception&) { ok = false; }
      ok = ok && resolve("APRIL") == 4; if (!ok) bad++; done++; advance(); }
    if (b) uselocale(b); });
  for (auto& t : ts) t.join();
  EXPECT(bad.load() == 0, "threads", "%ld wrong results by threads in different locales", bad.load()); count("round trips by threads in different locales", (uint64_t)done.load()); judged();
}

// ------------------------------------------------------------- environments
/// A new process whose environment names a locale and a time zone, although it never asks for them (setlocale(LC_ALL, "")).
static const long PER_KIND = 40;
static int child_main() {        // started by started(): results of seeded operations to descriptor 3
  uint64_t base = strtoull(getenv("VERIF_C23_CHILD"), nullptr, 10); FILE* f = fdopen(3, "w"); if (!f) return 9;
  for (int k = 0; k < ops::NK; k++) for (long i = 0; i < PER_KIND; i++) { errno = 0; std::string q = ops::run(k, base + (uint64_t)i); for (char& c : q) if (c == '\n' || c == 0) c = '~'; fprintf(f, "%s\n", q.c_str()); }
  return fclose(f) ? 9 : 0;
}
static std::vector<std::string> started(char** argv, uint64_t base, const std::vector<std::string>& set, int& status) {
  std::vector<std::string> out; int p[2]; if (pipe(p)) { fprintf(stderr, "pipe: no descriptor\n"); exit(9); }
  std::vector<std::string> env; for (char** e = environ; *e; ++e) if (strncmp(*e, "LC_", 3) && strncmp(*e, "LANG", 4) && strncmp(*e, "TZ=", 3)) env.push_back(*e);
  env.push_back("VERIF_C23_CHILD=" + std::to_string(base)); for (auto& x : set) env.push_back(x);
  std::vector<char*> ev; for (auto& x : env) ev.push_back(&x[0]); ev.push_back(nullptr);
  pid_t c = fork(); if (c < 0) { fprintf(stderr, "fork failed\n"); exit(9); }
  if (c == 0) { close(p[0]); if (p[1] != 3) { dup2(p[1], 3); close(p[1]); } execve("/proc/self/exe", argv, ev.data()); _exit(9); }
  close(p[1]); FILE* f = fdopen(p[0], "r"); char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { out.push_back(std::string(line, (size_t)n - 1)); advance(); }
  free(line); fclose(f); waitpid(c, &status, 0); return out;
}
static void environments(char** argv, Rng& r, long rounds) {
  const std::string all = getenv("VERIF_LOCALES"); std::vector<std::string> names; { std::string one; for (char c : all + ":") if (c == ':') { if (!one.empty()) names.push_back(one); one.clear(); } else one += c; }
  std::vector<std::vector<std::string>> sets; const char* zones[] = {"EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "<+0545>-5:45"};
  for (size_t i = 0; i < names.size(); i++) { sets.push_back({"LC_ALL=" + names[i], std::string("TZ=") + zones[i % 3]}); if (i % 2) sets.push_back({"LANG=" + names[i], "LANGUAGE=" + names[i].substr(0, 2)}); else sets.push_back({"LC_NUMERIC=" + names[i], "LC_CTYPE=" + names[i], "LC_TIME=" + names[i]}); }
  sets.push_back({"LC_ALL=xx_YY.nosuch", "TZ=:nowhere"}); sets.push_back({"LC_ALL=C", "TZ=<-12>12"});
  for (long k = 0; k < rounds; k++) {
    const uint64_t base = (k % 2 ? (uint64_t)r.in(1, 100000000) << 32 : 0) | (uint64_t)r.in(0, 0xffffff00L);
    set_cur("process started in an environment", k); int st = 0; const std::vector<std::string> want = started(argv, base, {"TZ=UTC0"}, st);
    if (st != 0 || want.size() != (size_t)ops::NK * PER_KIND) { viol("environment-none", "a process started with no locale in its environment ended with status %d after %ld results", st, (long)want.size()); return; }
    for (auto& set : sets) {
      std::string show; for (auto& x : set) show += (show.empty() ? "" : " ") + x;
      set_cur("process started in an environment", k); cur_s(show.data(), (long)show.size());
      std::vector<std::string> got = started(argv, base, set, st); size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
      EXPECT(st == 0 && got.size() == want.size(), "environment-end", "with %s in its environment a process ended with status %d after %ld of %ld results", show.c_str(), st, (long)got.size(), (long)want.size());
      if (i < got.size() && i < want.size()) viol(std::string("environment:") + ops::kinds[i / PER_KIND].name, "with %s in its environment a process gets \"%.200s\", without \"%.200s\"", show.c_str(), got[i].c_str(), want[i].c_str());
      count("calls in processes started in another environment", got.size()); judged();
    }
  }
}

int main(int argc, char** argv) {
  if (getenv("VERIF_C23_CHILD")) return child_main();
  setenv("TZ", "UTC0", 1); tzset(); init(argc, argv); self_check();
  { Rng r = rng_for("environments"); if (section("environments")) { environments(argv, r, scale(2, 10)); sample("environments"); } }
  std::vector<Env> es = envs(); Rng r = rng_for("c23");
  count("locale and time zone settings", es.size());
  if (section("operations")) { operations(es, r, scale(8, 8)); sample("operations"); }
  if (section("round")) {
    long n = scale(12000, 8);
    for (long k = 0; k < n; k++) { const Env &a = es[(size_t)r.in(0, (long)es.size() - 1)], &b = es[(size_t)r.in(0, (long)es.size() - 1)]; long m = gen_mjd(r, mjd_of(0, 1, 1), mjd_of(9999, 12, 31)); each_res([&](auto s) { using S = decltype(s); round_trip<S>(a, b, m, gen_tod<S>(r)); }); }
    sample("round");
  }
  if (section("reading")) { long n = scale(6000, 8); each_res([&](auto s) { reading<decltype(s)>(es, r, n); }); sample("reading"); }
  if (section("names")) { names(es, r); sample("names"); }
  if (section("threads")) { threads(es, r, scale(6, 8)); sample("threads"); }
  return finish();
}
