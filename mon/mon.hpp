// Runtime-monitor support shared by every harness: event and violation
// reporting, the current-case record (dumped when the process dies), the
// no-progress watchdog, the random generator and the distinct-case counter.
//
// Lines on stdout (tab separated), read by /verif/check.py:
//   VIOL  key  message  case      an oracle was contradicted
//   CRASH sig  case               the process died (also: a sanitizer report)
//   HANG  case                    no case finished for a long CPU time
//   COUNT name n                  how often the monitor saw an event
//   SAMPLE text                   a case of this run, written out
//   DONE  evaluations distinct
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <algorithm>
#include <atomic>
#include <csignal>
#include <sys/syscall.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

namespace mon {

typedef __int128 i128;

// ---------------------------------------------------------------- options
struct Options {
  uint64_t    seed   = 1;
  bool        thorough = false;
  int         shard  = 0;
  int         shards = 1;
  std::string only;       // run only this section
  std::string distinct_file;
  std::string digest_file;        // C21: one result digest per operation
};
inline Options opt;
/// Where the protocol lines go: --log=FILE, kept apart from anything the
/// library itself may print.
inline FILE* out = stdout;
inline int   out_fd = 1;

/// n in the quick tier, more in the thorough one
inline long scale(long n, long factor = 12) { return opt.thorough ? n * factor : n; }

// ------------------------------------------------------------- current case
struct Cur {
  const char* op = "start";
  const char* cls = "";
  int         n = 0;
  long        a[10];
  int         nd = 0;
  double      d[4];
  char        s[241];
  long        slen = -1;      // -1: no string
  uint64_t    shash = 0;
};
inline thread_local Cur cur;
inline std::atomic<unsigned long> progress{0};
inline void advance() { progress.fetch_add(1, std::memory_order_relaxed); }
inline uint64_t evaluations = 0;

template<class... A> inline void set_cur(const char* op, A... a) {
  static_assert(sizeof...(a) <= 10, "too many values");
  cur.op = op;
  cur.n = 0; cur.nd = 0; cur.slen = -1; cur.shash = 0;
  long tmp[] = { static_cast<long>(a)..., 0L };
  for (unsigned i = 0; i < sizeof...(a); i++) cur.a[cur.n++] = tmp[i];
}
inline void cur_d(double v) { if (cur.nd < 4) cur.d[cur.nd++] = v; }
inline void cur_s(const char* s, long n) {        // keeps a copy
  cur.slen = n; memcpy(cur.s, s, n < 240 ? (size_t)n : 240);
  uint64_t h = 0; for (long i = 0; i < n; i++) h = h * 1099511628211ULL + (unsigned char)s[i] + 7;
  cur.shash = h;
}

/// The current case as text; async-signal-safe apart from snprintf.
inline int case_text(char* buf, size_t cap) {
  size_t k = 0;
  auto put = [&](const char* f, auto... v) {
    if (k + 40 < cap) { int r = snprintf(buf + k, cap - k, f, v...); if (r > 0) k += (size_t)r < cap - k ? (size_t)r : cap - k - 1; }
  };
  put("%s", cur.op);
  if (*cur.cls) put("<%s>", cur.cls);
  put("%s", "(");
  for (int i = 0; i < cur.n; i++) put(i ? ", %ld" : "%ld", cur.a[i]);
  for (int i = 0; i < cur.nd; i++) put(" d=%.17g", cur.d[i]);
  if (cur.slen >= 0) {
    put("%s", " s=\"");
    for (long i = 0; i < cur.slen && i < 240; i++) {
      unsigned char c = (unsigned char)cur.s[i];
      if (c >= 32 && c < 127 && c != '"' && c != '\\') put("%c", c);
      else put("\\x%02x", c);
    }
    put("%s", "\"");
  }
  put("%s", ")");
  return (int)k;
}

[[noreturn]] inline void die(const char* what, int sig) {
  char buf[1500];
  int k = snprintf(buf, sizeof buf, "\n%s\t%d\t", what, sig);
  k += case_text(buf + k, sizeof buf - k - 2);
  buf[k++] = '\n';
  ssize_t r = write(out_fd, buf, (size_t)k); (void)r;
  syscall(SYS_exit_group, 66);          // not _exit: a sanitizer that is reporting holds its own locks
  for (;;) {}
}
inline void flush_log() { if (ftrylockfile(out) == 0) { fflush(out); funlockfile(out); } }
inline void on_signal(int sig) { signal(sig, SIG_DFL); flush_log(); die("CRASH", sig); }
/// Two ticks of the processor's time in a row without a finished case.
inline void on_tick(int) {
  static unsigned long last = ~0UL; static int still = 0;
  unsigned long now = progress.load(std::memory_order_relaxed);
  still = now == last ? still + 1 : 0;
  if (still == 2) die("HANG", 0);
  last = now;
}
/// The same by the clock, for a call that waits without using the processor
/// (in a row, so that a clock that jumps is no hang).
inline void on_alarm(int) {
  static unsigned long last = ~0UL; static int still = 0;
  unsigned long now = progress.load(std::memory_order_relaxed);
  still = now == last ? still + 1 : 0;
  if (still == 2) die("HANG", 1);
  last = now;
}

// ------------------------------------------------------------- reporting
inline std::map<std::string, uint64_t> counters;
inline std::map<std::string, uint64_t> viol_keys;
inline std::map<std::string, int>      samples;

inline void count(const char* name, uint64_t n = 1) { counters[name] += n; }

inline void viol(const std::string& key, const char* fmt, ...)
  __attribute__((format(printf, 2, 3)));
inline void viol(const std::string& key, const char* fmt, ...) {
  uint64_t n = ++viol_keys[key];
  if (n > 3 || viol_keys.size() > 60) return;
  char msg[700]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
  for (char* p = msg; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
  char cs[1000]; case_text(cs, sizeof cs);
  fprintf(out, "VIOL\t%s\t%s\t%s\n", key.c_str(), msg, cs);
  fflush(out);
}

inline void sample(const char* section) {
  int& n = samples[section];
  if (n >= 3) return;
  ++n;
  char cs[1000]; case_text(cs, sizeof cs);
  fprintf(out, "SAMPLE\t%s: %s\n", section, cs);
}

inline std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s; while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
  return neg ? "-" + s : s;
}

// ------------------------------------------------- distinct-case counter
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Distinct {
  static constexpr uint64_t CAP = 1u << 21;        // table slots
  static constexpr uint64_t LIMIT = 1400000;       // saturates here
  std::vector<uint64_t> t = std::vector<uint64_t>(CAP, 0);
  uint64_t n = 0;
  void add(uint64_t h) {
    if (n >= LIMIT) return;
    if (!h) h = 1;
    uint64_t i = h & (CAP - 1);
    while (t[i] && t[i] != h) i = (i + 1) & (CAP - 1);
    if (!t[i]) { t[i] = h; ++n; }
  }
};
inline Distinct distinct;

inline uint64_t cur_hash() {
  uint64_t h = 0;
  for (const char* p = cur.op; *p; p++) h = h * 131 + (unsigned char)*p;
  for (const char* p = cur.cls; *p; p++) h = h * 131 + (unsigned char)*p;
  for (int i = 0; i < cur.n; i++) h = mix(h ^ (uint64_t)cur.a[i]);
  for (int i = 0; i < cur.nd; i++) { uint64_t b; memcpy(&b, &cur.d[i], 8); h = mix(h ^ b); }
  return mix(h ^ cur.shash);
}

/// One case was judged by an oracle. `nontrivial` per the property's rule.
inline void judged(bool nontrivial = true) {
  ++evaluations; progress.store(progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
  if (nontrivial && distinct.n < Distinct::LIMIT) distinct.add(cur_hash());
}

// ------------------------------------------------------- constants of the tree
/// Numbers and strings written in the library's sources (check.py collects
/// them, VERIF_DICT names the file), and simple multiples: a special case in
/// the code usually has its value there, and the generators try it.
struct Constants {
  std::vector<long> base, number;       // as written; with multiples (sorted)
  std::vector<std::string> word;
  Constants() {
    const char* name = getenv("VERIF_DICT"); FILE* f = name ? fopen(name, "r") : nullptr; if (!f) return;
    char line[400];
    while (fgets(line, sizeof line, f)) {
      size_t n = strcspn(line, "\n"); line[n] = 0;
      if (line[0] == 'b') base.push_back(strtol(line + 1, nullptr, 10));
      else if (line[0] == 'i') number.push_back(strtol(line + 1, nullptr, 10));
      else if (line[0] == 's') { std::string w; for (const char* p = line + 1; p[0] && p[1]; p += 2) { char h[3] = {p[0], p[1], 0}; w += (char)strtol(h, nullptr, 16); } word.push_back(w); }
    }
    fclose(f); std::sort(base.begin(), base.end()); std::sort(number.begin(), number.end());
  }
};
inline const Constants& constants() { static const Constants c; return c; }

// --------------------------------------------------------------- random
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed) { for (auto& x : s) { seed += 0x9e3779b97f4a7c15ULL; x = mix(seed); } }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  /// uniform in [lo,hi]
  long in(long lo, long hi) {
    unsigned __int128 span = (unsigned __int128)((i128)hi - (i128)lo) + 1;
    if (span >= 1000 && (next() & 31) == 0) {          // now and then a number the sources mention
      const std::vector<long>& c = next() & 1 ? constants().base : constants().number;
      auto a = std::lower_bound(c.begin(), c.end(), lo), b = std::upper_bound(a, c.end(), hi);
      if (a != b) return a[(long)(((unsigned __int128)next() * (unsigned long)(b - a)) >> 64)];
    }
    return (long)((i128)lo + (i128)(((unsigned __int128)next() * span) >> 64));
  }
  bool chance(int pct) { return in(1, 100) <= pct; }
  template<class V> auto pick(const V& v) -> decltype(v[0]) { return v[in(0, (long)(sizeof(v) / sizeof(v[0])) - 1)]; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)in(0, (long)v.size() - 1)]; }
  /// log-uniform magnitude in [0,max]
  long logu(long max) {
    int bits = 64 - __builtin_clzl((unsigned long)max | 1);
    int b = (int)in(0, bits);
    unsigned long m = b >= 63 ? ~0UL >> 1 : (1UL << b) - 1;
    if (m > (unsigned long)max) m = (unsigned long)max;
    return in(0, (long)m);
  }
};

inline Rng rng_for(const char* section) {
  uint64_t h = opt.seed * 1000003ULL + (uint64_t)opt.shard * 7919ULL;
  for (const char* p = section; *p; p++) h = h * 131 + (unsigned char)*p;
  return Rng(h);
}

/// Is this the section to run?
inline bool section(const char* name) {
  if (!opt.only.empty() && opt.only != name) return false;
  return true;
}
/// Split an enumeration between shards.
inline bool mine(long i) { long m = i % opt.shards; if (m < 0) m += opt.shards; return m == opt.shard; }

inline void init(int argc, char** argv) {
  constants();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* k) { return a.compare(0, strlen(k), k) == 0 ? a.c_str() + strlen(k) : nullptr; };
    if (auto v = val("--seed=")) opt.seed = strtoull(v, nullptr, 10);
    else if (auto v = val("--tier=")) opt.thorough = !strcmp(v, "thorough");
    else if (auto v = val("--shard=")) opt.shard = atoi(v);
    else if (auto v = val("--shards=")) opt.shards = atoi(v);
    else if (auto v = val("--only=")) opt.only = v;
    else if (auto v = val("--distinct=")) opt.distinct_file = v;
    else if (auto v = val("--log=")) { out = fopen(v, "ab"); if (!out) exit(9); out_fd = fileno(out); }
    else if (auto v = val("--digest=")) opt.digest_file = v;
    else { fprintf(stderr, "unknown option %s\n", argv[i]); exit(9); }
  }
  static char stk[1 << 16];
  stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  int sigs[] = { SIGABRT };
#else
  int sigs[] = { SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS };
#endif
  for (int s : sigs) {
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
  }
  struct sigaction sa{}; sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
  itimerval tv{}; tv.it_interval.tv_sec = 20; tv.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
  tv.it_interval.tv_sec = tv.it_value.tv_sec = 35;
  setitimer(ITIMER_REAL, &tv, nullptr);
}

inline int finish() {
  for (auto& c : counters) fprintf(out, "COUNT\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto& v : viol_keys) fprintf(out, "VIOLCOUNT\t%s\t%llu\n", v.first.c_str(), (unsigned long long)v.second);
  if (!opt.distinct_file.empty()) {
    if (FILE* f = fopen(opt.distinct_file.c_str(), "wb")) {
      for (uint64_t h : distinct.t) if (h) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  fprintf(out, "DONE\t%llu\t%llu\n", (unsigned long long)evaluations, (unsigned long long)distinct.n);
  fflush(out);
  return viol_keys.empty() ? 0 : 1;
}

} // namespace mon

/// Check a condition of the current case.
#define EXPECT(cond, key, ...) do { if (!(cond)) mon::viol(key, __VA_ARGS__); } while (0)
#endif
