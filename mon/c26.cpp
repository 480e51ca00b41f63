// C26: nothing but the object an operation is called on (and its documented outputs) is ever written, not even for a
// moment, nothing is printed; operands may be one and the same object. Objects and texts are put in read-only pages between unmapped ones.
#include <atomic>
#include <cfenv>
#include <csignal>
#include <clocale>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <locale>
#include <new>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "ops.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt; using ops::Out;

struct Pages {           // [unmapped][n pages][unmapped]
  char* p; size_t n; static constexpr size_t PG = 4096;
  explicit Pages(size_t k) : n(k * PG) { char* q = (char*)mmap(nullptr, n + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (q == MAP_FAILED) exit(9); p = q + PG; open(); }
  void open() { if (mprotect(p, n, PROT_READ | PROT_WRITE)) exit(9); }
  void close() { if (mprotect(p, n, PROT_READ)) exit(9); }
};
template<class T> struct Cells {     // objects of type T in pages of their own
  Pages pg{4}; size_t cap = pg.n / sizeof(T), used = 0;
  const T& put(const T& v) { if (used == cap) used = 0; T* q = (T*)pg.p + used++; return *new (q) T(v); }
};

template<class T> static void units(Out& o, const T& a, const T& b) { o << U(a) << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b); }
template<class S> static void amounts(Out& o, const S& a, const S& b) {
  units(o, a, b); o << U(a + b) << U(a - b) << a.to_days() << a.more_than_day() << a.fractional_days() << a.to_fractional_seconds(); auto h = a.to_hmsf(); o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << std::get<3>(h);
  if constexpr (std::is_same<S, milliseconds>::value) { double f = 0; o << U(a.resolve_sec(f)) << f; }
  o << U(ngpt::cast_to<S, seconds>(a)) << U(ngpt::cast_to<S, milliseconds>(a)) << U(ngpt::cast_to<S, microseconds>(a)) << day_of_week(a) << U(S(a));
}
template<class S> static void instants(Out& o, const datetime<S>& a, const datetime<S>& b, bool utc, bool written) {
  o << a << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b) << delta_sec(a, b).as_underlying_type() << a.delta_sec(b).as_underlying_type() << delta_date(a, b) << a.delta_date(b) << a.as_mjd() << a.as_ymd() << a.as_ydoy() << a.sec_as_i();
  auto h = a.as_hmsf(); o << U(std::get<0>(h)) << U(std::get<1>(h)) << U(std::get<2>(h)) << std::get<3>(h);
  long w; o << U(a.as_gps_wsow(w)) << w; S x{0}; o << U(a.as_gps_wsow(x)) << U(x); o << a.template cast_to<seconds>() << a.template cast_to<microseconds>() << datetime<S>(a);
  if (utc) o << dat(a); if (written) o << strftime_ymd_hmfs(a) << strftime_ymd_hms(a, '/') << a.stringify();
  const modified_julian_day m = b.mjd(); const S s = b.sec(); o << a.template add<S>(m, s);
}
template<class S> static void lengths(Out& o, const datetime_interval<S>& a, const datetime_interval<S>& b) { o << a << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b) << a.as_mjd() << a / 3 << datetime_interval<S>(a); }
template<class F> static void same(const char* key, F plain, F there) {
  Out p, q; plain(p); there(q); EXPECT(p.s == q.s, key, "the result depends on where the operands are: \"%.200s\" and \"%.200s\"", p.s.c_str(), q.s.c_str()); judged();
}
/// compare f on plain copies (two objects), on read-only objects, and on one object used twice
template<class T, class F> static void thrice(Cells<T>& cells, const char* key, const T& a, const T& b, F f) {
  cells.pg.open(); const T &ra = cells.put(a), &rb = cells.put(b); cells.pg.close();
  const T a1 = a, b1 = b, a2 = a;
  Out p, q, s, t; f(p, a1, b1); f(q, ra, rb); count("operand pairs in read-only memory");
  EXPECT(p.s == q.s, std::string(key) + "-place", "the result depends on where the operands are: \"%.200s\" and \"%.200s\"", p.s.c_str(), q.s.c_str());
  f(s, a1, a2); f(t, ra, ra); count("pairs that are one object");
  EXPECT(s.s == t.s, std::string(key) + "-alias", "the same object on both sides gives \"%.200s\", equal objects give \"%.200s\"", t.s.c_str(), s.s.c_str()); judged();
}
/// x op= x
template<class T> static void self_ops(long v) {
  set_cur("x op= x", v); T a{(typename T::underlying_type)v}, b = a; const T c = a; a += a; b += c; EXPECT(U(a) == U(b), "self-add", "x += x gives %ld, not %ld", U(a), U(b));
  a -= a; EXPECT(U(a) == 0, "self-subtract", "x -= x leaves %ld", U(a)); T d = c; d = *&d; EXPECT(U(d) == v, "self-assign", "x = x changes x"); judged(); count("pairs that are one object");
}
template<class S> static void round(Rng& r) {
  CLS(S); static Cells<S> cs; static Cells<datetime<S>> cd; static Cells<datetime_interval<S>> ci;
  const long lim = std::min<long>(cap_days<S>() / 4, 40000000);
  { const long big = (long)INT_MAX * 3600 < LONG_MAX / 1000000 / 4 ? (long)INT_MAX * 3600 : LONG_MAX / 1000000 / 4; long x = gen_amount<S>(r, big, false), y = r.chance(30) ? x : gen_amount<S>(r, big, false); set_cur("amounts", x, y); thrice(cs, "amounts", S{x}, S{y}, [](Out& o, const S& a, const S& b) { amounts(o, a, b); }); }
  { long m = gen_mjd(r, std::max(mjd_lo(), -lim), std::min(4000000L, lim)), n = r.chance(50) ? m + r.in(-1, 1) : gen_mjd(r, std::max(mjd_lo(), -lim), std::min(4000000L, lim)), u = gen_tod<S>(r), w = r.chance(30) ? u : gen_tod<S>(r); set_cur("instants", m, u, n, w);
    const bool utc = m >= 41317, written = m >= mjd_of(0, 1, 1) && m <= mjd_of(9999, 12, 31) && r.chance(30);
    if (m >= 44244) thrice(cd, "instants", datetime<S>(modified_julian_day{m}, S{u}), datetime<S>(modified_julian_day{n}, S{w}), [=](Out& o, const datetime<S>& a, const datetime<S>& b) { instants(o, a, b, utc, written); });
    else thrice(cd, "instants", datetime<S>(modified_julian_day{m}, S{u}), datetime<S>(modified_julian_day{n}, S{w}), [=](Out& o, const datetime<S>& a, const datetime<S>& b) { o << (a < b) << (a == b) << delta_date(a, b) << U(delta_sec(a, b)) << a.as_ymd() << a.as_ydoy() << a.as_mjd(); if (written) o << strftime_ymd_hmfs(a) << strftime_ymd_hms(a) << a.stringify(); });
    set_cur("intervals", m, u, n, w); if (m >= 0) thrice(ci, "intervals", datetime_interval<S>{modified_julian_day{m}, S{u}}, datetime_interval<S>{modified_julian_day{n}, S{w}}, [](Out& o, const datetime_interval<S>& a, const datetime_interval<S>& b) { lengths(o, a, b); });
    // adding a read-only interval, and amounts taken from the object itself
    set_cur("add", m, u, n, w); ci.pg.open(); const auto& iv = ci.put(datetime_interval<S>{modified_julian_day{n / 2}, S{w}}); ci.pg.close();
    datetime<S> t(modified_julian_day{m}, S{u}), t2 = t; const datetime_interval<S> iv2 = iv; t += iv; t2 += iv2; EXPECT(t == t2, "add-place", "adding an interval in read-only memory gives another instant");
    t2 = t; const S s0 = t.sec(); t.add_seconds(t.sec()); t2.add_seconds(s0); EXPECT(t == t2, "add-own-time", "adding the object's own time of day gives another instant"); t2 = t; const datetime<S> z0 = t; const auto di = z0.delta_date(z0); t += di; EXPECT(t == t2, "add-own-difference", "adding t - t moves t"); judged(); }
  self_ops<S>(gen_amount<S>(r, LONG_MAX / 2 - 1));
}
static void small(Rng& r) {
  cur.cls = ""; static Cells<year> y; static Cells<month> m; static Cells<day_of_month> d; static Cells<day_of_year> n; static Cells<gps_week> g; static Cells<modified_julian_day> j; static Cells<hours> h; static Cells<minutes> mi; static Cells<ymd_date> cy; static Cells<ydoy_date> co;
  long day = gen_mjd(r, mjd_lo(), 4000000), e = r.chance(40) ? day : gen_mjd(r, mjd_lo(), 4000000); Ymd a = civil(day), b = civil(e); set_cur("dates", day, e);
  thrice(y, "year", year{(int)a.y}, year{(int)b.y}, [](Out& o, const year& p, const year& q) { units(o, p, q); o << p.is_leap(); });
  thrice(m, "month", month{a.m}, month{b.m}, [](Out& o, const month& p, const month& q) { units(o, p, q); o << p.is_valid() << p.short_name() << q.long_name(); });
  thrice(d, "day_of_month", day_of_month{a.d}, day_of_month{b.d}, [=](Out& o, const day_of_month& p, const day_of_month& q) { units(o, p, q); const year yy{(int)a.y}; const month mm{a.m}; o << p.is_valid(yy, mm); });
  thrice(n, "day_of_year", day_of_year{a.doy}, day_of_year{b.doy}, [=](Out& o, const day_of_year& p, const day_of_year& q) { units(o, p, q); const year yy{(int)a.y}; o << p.is_valid(yy) << U(ydoy2mjd(yy, p)) << U(modified_julian_day{yy, p}); });
  thrice(g, "gps_week", gps_week{day}, gps_week{e}, [](Out& o, const gps_week& p, const gps_week& q) { units(o, p, q); o << p.is_valid(); });
  thrice(j, "modified_julian_day", modified_julian_day{day}, modified_julian_day{e}, [](Out& o, const modified_julian_day& p, const modified_julian_day& q) { units(o, p, q); o << U(p + q) << U(p - q) << p.to_ymd() << p.to_ydoy() << p.to_julian_day() << U(mjd_sec_diff<milliseconds>(p, q)); if (U(p) >= 41317) o << dat(p); });
  thrice(h, "hours", hours{(int)(day % 1000)}, hours{(int)(e % 1000)}, [](Out& o, const hours& p, const hours& q) { units(o, p, q); o << U(seconds{p, minutes{1}, seconds{2}}); });
  thrice(mi, "minutes", minutes{(int)(day % 1000)}, minutes{(int)(e % 1000)}, [](Out& o, const minutes& p, const minutes& q) { units(o, p, q); o << U(milliseconds{hours{1}, p, milliseconds{2}}); });
  thrice(cy, "ymd_date", ymd_date{year{(int)a.y}, month{a.m}, day_of_month{a.d}}, ymd_date{year{(int)b.y}, month{b.m}, day_of_month{b.d}}, [](Out& o, const ymd_date& p, const ymd_date& q) { o << p << q << p.is_valid() << p.to_ydoy() << U(cal2mjd(p.__year, p.__month, p.__dom)) << datetime<seconds>(p.__year, p.__month, p.__dom) << datetime<seconds>(p.__year, q.__month, day_of_month{1}, milliseconds{5000}); });
  thrice(co, "ydoy_date", ydoy_date{year{(int)a.y}, day_of_year{a.doy}}, ydoy_date{year{(int)b.y}, day_of_year{b.doy}}, [](Out& o, const ydoy_date& p, const ydoy_date& q) { o << p << q << p.is_valid() << p.to_ymd() << U(ydoy2mjd(p.__year, p.__doy)) << datetime<seconds>(p.__year, p.__doy); });
  self_ops<year>(a.y); self_ops<month>(a.m); self_ops<day_of_month>(a.d); self_ops<day_of_year>(a.doy); self_ops<gps_week>(day); self_ops<modified_julian_day>(day); self_ops<hours>(day); self_ops<minutes>(e);
}
template<class S> static Outcome at(int f, const char* p, bool ws) {
  Outcome o; char* stop = nullptr;
  try { auto t = read<S>(f, p, ws ? &stop : nullptr); o.mjd = U(t.mjd()); o.sec = U(t.sec()); o.stop = ws ? stop - p : -99; } catch (const std::invalid_argument&) { o.kind = INVALID; } catch (const std::exception&) { o.kind = OTHER; }
  return o;
}
static void texts(Rng& r, long n) {
  Pages end(1), begin(1);
  for (long i = 0; i < n; i++) {
    int f = (int)r.in(0, NFMT - 1); std::string s = r.chance(60) ? gen_text(r, f).str() : ops::any_text(r, f); s = s.c_str(); if (r.chance(3)) s += std::string((size_t)r.in(0, 3000), (char)r.in(1, 255)); if (s.size() > 4000) continue;
    std::string m = r.chance(50) ? months()[r.in(0, 11)] : month{(int)r.in(1, 12)}.long_name(); for (char& c : m) if (r.chance(50)) c ^= 0x20; if (r.chance(30)) m = s;
    for (int what = 0; what < 2; what++) {
      const std::string& x = what ? m : s; end.open(); begin.open(); memset(end.p, '7', end.n); memset(begin.p, '7', begin.n);
      char* q = end.p + end.n - x.size() - 1; memcpy(q, x.c_str(), x.size() + 1); memcpy(begin.p, x.c_str(), x.size() + 1); end.close(); begin.close();
      Exact h(x); set_cur(what ? "month name" : fmt_name(f), (long)x.size()); cur_s(h.p, h.len);
      if (what) { int v[3]; const char* at[3] = {h.p, q, begin.p}; for (int k = 0; k < 3; k++) try { v[k] = U(month{at[k]}); } catch (const std::invalid_argument&) { v[k] = -1; } EXPECT(v[0] == v[1] && v[0] == v[2], "month-place", "the month is %d, %d and %d depending on where the name is", v[0], v[1], v[2]); count("names in read-only memory"); judged(); continue; }
      bool ws = r.chance(70);
      ops::one_res(r, [&](auto z) { using S = decltype(z); CLS(S); Outcome a = at<S>(f, h.p, ws), b = at<S>(f, q, ws), c = at<S>(f, begin.p, ws);
        EXPECT(a == b && a == c, std::string(fmt_name(f)) + "-place", "the text is read as %s, %s and %s depending on where it is", show(a).c_str(), show(b).c_str(), show(c).c_str()); count(a.kind == OK ? "texts read from read-only memory" : "texts refused in read-only memory"); judged(); });
    }
  }
}
/// Calls that change something other threads see, also when it is changed back: counted while an operation runs.
namespace touch { static std::atomic<long> n{0}; static const char* what = ""; static inline void note(const char* w) { n++; what = w; } template<class F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); } }
extern "C" {
char* setlocale(int c, const char* l) noexcept { if (l) touch::note("setlocale"); static auto f = touch::next<char* (*)(int, const char*)>("setlocale"); return f(c, l); }
int setenv(const char* a, const char* b, int o) noexcept { touch::note("setenv"); static auto f = touch::next<int (*)(const char*, const char*, int)>("setenv"); return f(a, b, o); }
int unsetenv(const char* a) noexcept { touch::note("unsetenv"); static auto f = touch::next<int (*)(const char*)>("unsetenv"); return f(a); }
int putenv(char* a) noexcept { touch::note("putenv"); static auto f = touch::next<int (*)(char*)>("putenv"); return f(a); }
FILE* fopen(const char* a, const char* m) { if (!strchr(m, 'r') || strchr(m, '+')) touch::note("fopen to write"); static auto f = touch::next<FILE* (*)(const char*, const char*)>("fopen"); return f(a, m); }
FILE* fopen64(const char* a, const char* m) { if (!strchr(m, 'r') || strchr(m, '+')) touch::note("fopen to write"); static auto f = touch::next<FILE* (*)(const char*, const char*)>("fopen64"); return f(a, m); }
int system(const char* c) { touch::note("system"); static auto f = touch::next<int (*)(const char*)>("system"); return f(c); }
void srand(unsigned s) noexcept { touch::note("srand"); static auto f = touch::next<void (*)(unsigned)>("srand"); f(s); }
int rand() noexcept { touch::note("rand"); static auto f = touch::next<int (*)()>("rand"); return f(); }
// functions that keep something of the program's (a place in a text, a broken-down time) in one place for all
#define KEEPS(T, name, params, args) T name params noexcept { touch::note(#name); static auto f = touch::next<T (*) params>(#name); return f args; }
KEEPS(char*, strtok, (char* s, const char* d), (s, d)) KEEPS(struct tm*, gmtime, (const time_t* t), (t)) KEEPS(struct tm*, localtime, (const time_t* t), (t)) KEEPS(char*, asctime, (const struct tm* t), (t)) KEEPS(char*, ctime, (const time_t* t), (t))
KEEPS(long, random, (), ()) KEEPS(void, srandom, (unsigned s), (s)) KEEPS(double, drand48, (), ()) KEEPS(long, lrand48, (), ()) KEEPS(void, srand48, (long s), (s)) KEEPS(int, chdir, (const char* p), (p)) KEEPS(mode_t, umask, (mode_t m), (m))
#undef KEEPS
}
std::locale std::locale::global(const std::locale& l) { touch::note("std::locale::global"); static auto f = touch::next<std::locale (*)(const std::locale&)>("_ZNSt6locale6globalERKS_"); return f(l); }

/// The settings of the process: locale, environment, signals, rounding, directory, handlers.
static std::string settings() {
  std::string s = "locale "; const char* l = setlocale(LC_ALL, nullptr); s += l ? l : "?"; s += " " + std::locale().name(); char b[200]; snprintf(b, sizeof b, " %p; rounding %d, traps %d; ", (void*)uselocale((locale_t)0), fegetround(), fegetexcept()); s += b;
  uint64_t h = 0; for (char** e = environ; e && *e; e++) for (char* p = *e; *p; p++) h = mix(h ^ (unsigned char)*p); snprintf(b, sizeof b, "environment %016llx; ", (unsigned long long)h); s += b;
  h = 0; for (int i = 1; i < 32; i++) { struct sigaction a; if (!sigaction(i, nullptr, &a)) h = mix(h ^ (uint64_t)(uintptr_t)a.sa_handler ^ (uint64_t)a.sa_flags); } sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK, nullptr, &m); for (int i = 1; i < 32; i++) h = mix(h ^ (uint64_t)sigismember(&m, i)); snprintf(b, sizeof b, "signals %016llx; ", (unsigned long long)h); s += b;
  char cwd[4096]; s += "in "; s += getcwd(cwd, sizeof cwd) ? cwd : "?"; mode_t u = umask(0); umask(u); long threads = 0; if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) ++threads; closedir(d); }
  snprintf(b, sizeof b, "; umask %o; handlers %p %p; %ld threads; zone %ld %d; tie %p %p", (unsigned)u, (void*)std::get_terminate(), (void*)std::get_new_handler(), threads - 2, timezone, daylight, (void*)std::cin.tie(), (void*)std::cerr.tie()); s += b;
  return s + (std::cout.exceptions() | std::cerr.exceptions() ? "; streams throw" : "") + (std::ios::sync_with_stdio(true) ? "" : "; not in step with stdio") + "; cout in " + std::cout.getloc().name();
}
/// Nothing is printed and no file is left open; the standard streams keep their settings.
struct World {
  long outn, errn, fds; std::ios_base::fmtflags f1, f2; long p1, p2;
  static long size(int fd) { struct stat st; return fstat(fd, &st) ? -1 : (long)st.st_size; }
  static World now() {
    std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr);
    World w; w.outn = size(1); w.errn = size(2); w.fds = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++w.fds; closedir(d); }
    w.f1 = std::cout.flags(); w.f2 = std::cerr.flags(); w.p1 = (long)std::cout.precision(); w.p2 = (long)std::cerr.precision(); return w;
  }
};
static void quiet(Rng& r, long n) {
  int fd = memfd_create("stdout", 0); if (fd < 0 || dup2(fd, 1) < 0) exit(9); close(fd);
  for (int pass = 0; pass < 2; pass++) {
  if (pass) {                          // settings of the program's own
    if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no second locale\n"); exit(9); }
    std::locale::global(std::locale("C.UTF-8")); setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1); tzset(); umask(027); std::cout << std::hex << std::uppercase; std::cout.precision(11); std::cerr << std::showpos; std::cerr.precision(3); count("passes with other settings");
  }
  for (int k = 0; k < ops::NK; k++) {
    std::string set = settings(); World a = World::now(); std::string one; uint64_t s = 0;
    for (long i = 0; i < n; i++) { s = (uint64_t)r.in(0, 0xffffffffL); set_cur(ops::kinds[k].name, k, (long)s); long t = touch::n; one = ops::run(k, s); EXPECT(touch::n == t, std::string("touches:") + ops::kinds[k].name, "the call uses %s, which every thread of the process sees", touch::what); judged(); }
    World b = World::now(); std::string then = settings(); EXPECT(set == then, std::string("settings:") + ops::kinds[k].name, "the settings of the process were \"%s\" and are \"%s\"", set.c_str(), then.c_str()); const char* op = ops::kinds[k].name; set_cur(op, k, (long)s);
    char head[100] = ""; if (b.outn > a.outn) { ssize_t q = pread(1, head, sizeof head - 1, a.outn); if (q < 0) head[0] = 0; }
    EXPECT(a.outn == b.outn, std::string("prints:") + op, "%ld calls printed %ld bytes: \"%s\"", n, b.outn - a.outn, head);
    EXPECT(a.errn == b.errn, std::string("prints-error:") + op, "%ld calls printed %ld bytes to the error stream", n, b.errn - a.errn);
    EXPECT(a.fds == b.fds, std::string("files:") + op, "after %ld calls %ld more files are open", n, b.fds - a.fds);
    EXPECT(a.f1 == b.f1 && a.f2 == b.f2 && a.p1 == b.p1 && a.p2 == b.p2, std::string("streams:") + op, "the settings of the standard streams changed");
    count("calls watched for output", (uint64_t)n);
  }
  }
  // what the meter sees
  World a = World::now(); printf("x"); std::cout << "y"; World b = World::now(); if (b.outn != a.outn + 2) { fprintf(stderr, "the output meter does not work\n"); exit(9); }
  std::string set = settings(); long t = touch::n; { std::locale was = std::locale::global(std::locale::classic()); std::locale::global(was); } setlocale(LC_NUMERIC, "C"); setenv("VERIF_METER", "1", 1); if (touch::n != t + 4 && touch::n != t + 6) { fprintf(stderr, "the settings meter does not work (%ld)\n", touch::n - t); exit(9); } if (set == settings()) { fprintf(stderr, "the environment meter does not work\n"); exit(9); } count("settings compared", ops::NK);
}
int main(int argc, char** argv) {
  init(argc, argv); self_check(); const long div = slow_throw ? 4 : 1;
  if (section("objects")) { Rng r = rng_for("objects"); long n = scale(30000) / div; for (long i = 0; i < n; i++) { each_res([&](auto s) { round<decltype(s)>(r); }); small(r); } sample("objects"); }
  if (section("texts")) { Rng r = rng_for("texts"); texts(r, scale(60000) / div); sample("texts"); }
  if (section("quiet")) { Rng r = rng_for("quiet"); quiet(r, scale(800) / div); sample("quiet"); }
  return finish();
}
