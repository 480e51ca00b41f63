// C25: an operation that runs out of memory says so (by an exception), gives no wrong result, loses nothing and leaves
// the library usable. The allocator of mon/heap.hpp refuses the k-th allocation of the call, once or from there on.
#include <functional>
#include <ios>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include "ops.hpp"
#include "heap.hpp"
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

enum Kind25 { VALUE, INVALID_ARG, OUT_OF_RANGE, LOGIC, MEMORY, OTHER_EXC };
struct Res { int kind = -1; char text[400] = ""; bool operator==(const Res& o) const { return kind == o.kind && !strcmp(text, o.text); } };
static const char* show(const Res& r) { static const char* n[] = {"", "std::invalid_argument", "std::out_of_range", "a std::logic_error", "std::bad_alloc", "another exception"}; return r.kind == VALUE ? r.text : r.kind < 0 ? "nothing" : n[r.kind]; }
struct Op { std::string name; std::function<void(char*, size_t)> f; std::string arg; };
struct Use { uint64_t calls = 0, refused = 0; long net = 0; };

__attribute__((noinline)) static Use run(const Op& op, Res& r, uint64_t fail_at, bool on) {
  Use u; r = Res{}; heap::calls = heap::refused = 0; heap::net = 0; heap::fail_at = fail_at; heap::fail_on = on; heap::live = true;
  try { op.f(r.text, sizeof r.text); r.kind = VALUE; }
  catch (const std::bad_alloc&) { r.kind = MEMORY; }
  catch (const std::invalid_argument&) { r.kind = INVALID_ARG; }
  catch (const std::out_of_range&) { r.kind = OUT_OF_RANGE; }
  catch (const std::logic_error&) { r.kind = LOGIC; }
  catch (const std::exception&) { r.kind = OTHER_EXC; }
  heap::live = false; u.calls = heap::calls; u.refused = heap::refused; u.net = heap::net; if (r.kind != VALUE) r.text[0] = 0; return u;
}

template<class S> static void put(char* b, size_t n, const datetime<S>& t) { snprintf(b, n, "%ld %ld", U(t.mjd()), U(t.sec())); }
static void copy(char* b, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(b, s.data(), k); b[k] = 0; }
/// every operation that may need memory, with arguments from r
static std::vector<Op> table(Rng& r) {
  std::vector<Op> v;
  for (int f = 0; f < NFMT; f++) for (int bad = 0; bad < 2; bad++) {
    std::string s = bad ? ops::any_text(r, f) : gen_text(r, f).str(); if (r.chance(20)) s += std::string((size_t)r.in(1, 300), 'x'); s = s.c_str();
    auto e = std::make_shared<Exact>(s);
    each_res([&](auto z) { using S = decltype(z); v.push_back({fmt_name(f), [=](char* b, size_t n) { char* stop = nullptr; put(b, n, read<S>(f, e->p, &stop)); }, s}); });
  }
  for (int k = 0; k < 3; k++) { std::string m = k == 0 ? std::string(months()[r.in(0, 11)]) : k == 1 ? month{(int)r.in(1, 12)}.long_name() : std::string((size_t)r.in(0, 60), (char)r.in(1, 255)); auto e = std::make_shared<Exact>(m); v.push_back({"month", [=](char* b, size_t n) { snprintf(b, n, "%d", U(month{e->p})); }, m}); }
  each_res([&](auto z) { using S = decltype(z); const datetime<S> t(modified_julian_day{gen_mjd(r, mjd_of(0, 1, 1), mjd_of(9999, 12, 31))}, S{gen_tod<S>(r)}); const bool utc = U(t.mjd()) >= 41317; char d = gen_delim(r);
    v.push_back({"strftime_ymd_hmfs", [=](char* b, size_t n) { copy(b, n, strftime_ymd_hmfs(t, d)); }, ""}); v.push_back({"strftime_ymd_hms", [=](char* b, size_t n) { copy(b, n, strftime_ymd_hms(t, d)); }, ""}); v.push_back({"stringify", [=](char* b, size_t n) { copy(b, n, t.stringify()); }, ""});
    const int y = (int)r.in(-4000, 9999), m = (int)r.in(-1, 14), dd = (int)r.in(-1, 33); const long u = gen_tod<S>(r);
    v.push_back({"datetime(calendar)", [=](char* b, size_t n) { put(b, n, datetime<S>(year{y}, month{m}, day_of_month{dd}, S{u})); }, std::to_string(y) + " " + std::to_string(m) + " " + std::to_string(dd)});
    v.push_back({"arithmetic", [=](char* b, size_t n) { datetime<S> x = t; x.add_seconds(S{u}); x.remove_seconds(seconds{5}); x += datetime_interval<S>{modified_julian_day{3}, S{u}}; const auto i = x.delta_date(t); put(b, n, x); size_t k = strlen(b); snprintf(b + k, n - k, " %ld %ld %ld %d", U(i.days()), U((i / 3).sec()), U(delta_sec(x, t)), x < t); }, ""});
    v.push_back({"fields", [=](char* b, size_t n) { const auto c = t.as_ymd(); const auto o = t.as_ydoy(); const auto h = t.as_hmsf(); snprintf(b, n, "%d %d %d %d %d %d %ld %.17g %d", U(c.__year), U(c.__month), U(c.__dom), U(o.__doy), U(std::get<0>(h)), U(std::get<1>(h)), std::get<3>(h), t.as_mjd(), utc ? dat(t) : 0); }, ""}); });
  { const int y = (int)r.in(-4000, 9999), m = (int)r.in(-1, 14), d = (int)r.in(-1, 33); v.push_back({"cal2mjd", [=](char* b, size_t n) { snprintf(b, n, "%ld", U(cal2mjd(year{y}, month{m}, day_of_month{d}))); }, std::to_string(y) + " " + std::to_string(m) + " " + std::to_string(d)}); }
  { const int y = (int)r.in(1972, 2100), m = (int)r.in(1, 12), doy = (int)r.in(1, 365), q = (int)r.in(-40, 400), h = (int)r.in(0, 23), mi = (int)r.in(0, 59); const long day = mjd_of(y, m, 1), sow = r.in(0, 1000000), big = r.logu(1000000000000L); const double fs = (double)r.in(0, 59) + 0.25;
    v.push_back({"dat(year, month)", [=](char* b, size_t n) { snprintf(b, n, "%d", dat(year{y}, month{m})); }, ""});
    v.push_back({"dat(mjd)", [=](char* b, size_t n) { snprintf(b, n, "%d", dat(modified_julian_day{day})); }, ""});
    v.push_back({"day of year", [=](char* b, size_t n) { ydoy_date o; o.__year = year{y}; o.__doy = day_of_year{doy}; const auto c = o.to_ymd(); const auto a = c.to_ydoy(); const modified_julian_day k(year{y}, day_of_year{doy}); snprintf(b, n, "%d %d %d %ld %ld", U(c.__month), U(c.__dom), U(a.__doy), U(k), U(ydoy2mjd(year{y}, day_of_year{doy}))); }, ""});
    v.push_back({"to_ymd", [=](char* b, size_t n) { const auto c = modified_julian_day{day}.to_ymd(); snprintf(b, n, "%d %d %d", U(c.__year), U(c.__month), U(c.__dom)); }, ""});
    v.push_back({"to_ydoy", [=](char* b, size_t n) { const auto c = modified_julian_day{day}.to_ydoy(); snprintf(b, n, "%d %d", U(c.__year), U(c.__doy)); }, ""});
    v.push_back({"validity", [=](char* b, size_t n) { snprintf(b, n, "%d %d %d %d %d", month{q}.is_valid(), day_of_month{q}.is_valid(year{y}, month{m}), day_of_year{q}.is_valid(year{y}), year{y}.is_leap(), gps_week{q}.is_valid()); }, ""});
    v.push_back({"names", [=](char* b, size_t n) { snprintf(b, n, "%s %s", month{m}.short_name(), month{m}.long_name()); }, ""});
    v.push_back({"gps", [=](char* b, size_t n) { const datetime<milliseconds> t(gps_week{y}, milliseconds{sow * 1000}); long l = 0; milliseconds x{0}; const auto w = t.as_gps_wsow(l); const auto w2 = t.as_gps_wsow(x); snprintf(b, n, "%ld %ld %ld %ld %d", U(w), l, U(w2), U(x), day_of_week(x)); }, ""});
    each_res([&](auto z) { using S = decltype(z);
      v.push_back({"amounts", [=](char* b, size_t n) { S a{big}; const auto t = a.to_hmsf(); const double f = a.fractional_days() + a.to_fractional_seconds(); const int d = a.remove_days(); snprintf(b, n, "%d %d %ld %ld %.17g %d %ld %ld %ld", U(std::get<0>(t)), U(std::get<1>(t)), U(std::get<2>(t)), std::get<3>(t), f, d, U(a), U(ngpt::cast_to<S, microseconds>(a)), U(ngpt::cast_to<S, seconds>(a))); }, ""});
      v.push_back({"datetime(day of year)", [=](char* b, size_t n) { put(b, n, datetime<S>(year{y}, day_of_year{doy}, hours{h}, minutes{mi}, fs)); const datetime<S> t(year{y}, month{m}, day_of_month{1}, hours{h}, minutes{mi}, fs); size_t k = strlen(b); put(b + k, n - k, t); k = strlen(b); put(b + k, n - k, t.add(modified_julian_day{3}, S{sow})); k = strlen(b); put(b + k, n - k, t.template cast_to<seconds>()); }, ""});
      v.push_back({"intervals", [=](char* b, size_t n) { const datetime_interval<S> i(modified_julian_day{y}, S{big}), k(modified_julian_day{doy}, S{sow}); const auto q2 = i / (doy + 1); snprintf(b, n, "%ld %ld %ld %d%d%d%d%d%d %.17g", U(q2.days()), U(q2.sec()), U(i.sec()), i < k, i <= k, i > k, i >= k, i == k, i != k, i.as_mjd()); }, ""}); });
  }
  return v;
}
static bool honest(const Res& got, const Res& want) { return got == want || got.kind == MEMORY || got.kind == OTHER_EXC; }
static void cur_op(const Op& op, long k, bool on, const char* cls) { set_cur(op.name.c_str(), k, (long)on); cur.cls = cls; cur_s(op.arg.data(), (long)op.arg.size()); }

static void later_use(Rng& r, long n) {
  for (long i = 0; i < n; i++) for (const Op& op : table(r)) {
    Res want, again, got; cur_op(op, 0, false, "plain"); run(op, want, 0, false); const Use u = run(op, again, 0, false);
    EXPECT(want == again, "repeat:" + op.name, "the same call gives \"%s\" and \"%s\"", show(want), show(again));
    if (u.calls) count("operations that need memory"); else count("operations that need none");
    for (uint64_t k = 1; k <= u.calls && k <= 80; k++) for (bool on : {false, true}) {
      cur_op(op, (long)k, on, on ? "no memory from then on" : "one refusal"); const Use w = run(op, got, k, on);
      if (!w.refused) continue;
      count("allocations refused", w.refused); count(got.kind == MEMORY ? "calls that ended by bad_alloc" : got == want ? "calls that did without" : "calls that ended otherwise");
      EXPECT(honest(got, want), "hidden:" + op.name, "with allocation %lu refused the outcome is \"%s\", not \"%s\" and no report of the lack of memory", (unsigned long)k, show(got), show(want));
      EXPECT(w.net <= 0, "leak:" + op.name, "%ld bytes are left behind when allocation %lu is refused", w.net, (unsigned long)k);
      Res after; run(op, after, 0, false); EXPECT(after == want, "after:" + op.name, "after a call without memory the call gives \"%s\", not \"%s\"", show(after), show(want)); judged();
    }
  }
}
/// The same for the very first use of the library in a process.
static void first_use(Rng& r, long n) {
  struct Shared { Res want, got, after; Use u; int done; char name[32]; }; Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) exit(9);
  for (long i = 0; i < n; i++) {
    uint64_t seed = r.next(); size_t ops_n; { Rng q(seed); ops_n = 0; }
    // how many operations there are is found out in a child, so that this process stays unused
    { fflush(out); pid_t p = fork(); if (p < 0) exit(9); if (!p) { Rng q(seed); sh->done = (int)table(q).size(); _exit(0); } int st; waitpid(p, &st, 0); ops_n = (size_t)sh->done; }
    for (size_t o = (size_t)r.in(0, 3); o < ops_n; o += (size_t)r.in(1, 5)) {
      int limit = 12;
      for (int k = 0; k <= limit; k++) {
        bool on = r.chance(50); memset((void*)&sh->u, 0, sizeof sh->u); sh->done = 0; fflush(out); pid_t p = fork(); if (p < 0) exit(9);
        if (!p) { Rng q(seed); std::vector<Op> t = table(q); cur_op(t[o], k, on, "first use"); snprintf(sh->name, sizeof sh->name, "%s", t[o].name.c_str()); if (!k) { sh->u = run(t[o], sh->want, 0, false); } else { sh->u = run(t[o], sh->got, (uint64_t)k, on); run(t[o], sh->after, 0, false); } sh->done = 1; _exit(0); }
        int st = 0; waitpid(p, &st, 0); advance(); std::string nm = sh->name; set_cur("first use", (long)o, k, (long)on); cur.cls = sh->name; cur.shash = seed;
        if (!sh->done) { EXPECT(false, "first-use-died", "the process died in its first call (operation %zu, allocation %d refused)", o, k); break; }
        if (!k) { if (!sh->u.calls) break; limit = (int)std::min<uint64_t>(sh->u.calls, 12); continue; }
        count("first calls with an allocation refused", sh->u.refused ? 1 : 0);
        EXPECT(honest(sh->got, sh->want), "hidden-first:" + nm, "in the first call with allocation %d refused the outcome is \"%s\", not \"%s\"", k, show(sh->got), show(sh->want));
        EXPECT(sh->after == sh->want, "after-first:" + nm, "after a first call without memory the call gives \"%s\", not \"%s\"", show(sh->after), show(sh->want)); judged();
      }
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("first use")) { Rng r = rng_for("first use"); first_use(r, scale(60, 8)); sample("first use"); }
  // the instrument itself: a refused allocation is noticed
  { Op o{"self", [](char* b, size_t n) { std::string s(1000, 'x'); copy(b, n, s); }, ""}; Res x; Use u = run(o, x, 1, false); if (x.kind != MEMORY || u.refused != 1) { fprintf(stderr, "allocations are not refused\n"); return 9; }
    static void* kept; Op l{"self", [](char*, size_t) { kept = malloc(500); asm volatile("" : : "r"(kept) : "memory"); }, ""}; u = run(l, x, 0, false); if (u.net < 500) { fprintf(stderr, "memory left behind is not noticed\n"); return 9; } free(kept); }
  if (section("later use")) { Rng r = rng_for("later use"); later_use(r, scale(6000, 15)); sample("later use"); }
  return finish();
}
