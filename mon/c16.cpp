// C16: month names.
#include "text.hpp"
#include <set>
using namespace ngpt; using namespace mon; using namespace orc; using namespace txt;

static const char* LONG_[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static std::string low(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
/// the month a string names, or 0
static int named(const std::string& s) { std::string l = low(s); for (int i = 0; i < 12; i++) if (l == low(LONG_[i]) || l == low(std::string(LONG_[i], 3))) return i + 1; return 0; }

static void look(const std::string& raw) {
  std::string s = raw.c_str(); int want = named(s);
  Exact x(s); set_cur("month", want); cur_s(x.p, x.len);
  int got = 0, threw = 0;
  try { month m(x.p); got = (int)U(m); if (want && !m.is_valid()) viol("name-valid", "the month reports itself invalid"); } catch (const std::invalid_argument& e) { threw = 1; message(e); } catch (const std::exception& e) { threw = 2; message(e); }
  if (want) { if (threw) viol("name-refused", "a month name is refused"); else EXPECT(got == want, "name-month", "resolves to month %d, it names %d", got, want); count("month names resolved"); }
  else { if (!threw) viol("not-a-name-accepted", "resolves to month %d", got); else EXPECT(threw == 1, "other-exception", "refused by something other than invalid_argument"); count("other strings refused"); }
  if (memcmp(x.p, s.data(), s.size() + 1)) viol("writes", "the lookup wrote to the string");
  judged();
}
static std::string cased(const std::string& s, unsigned mask) { std::string r = low(s); for (size_t i = 0; i < r.size(); i++) if (mask >> i & 1) r[i] = (char)(r[i] - 32); return r; }

int main(int argc, char** argv) {
  init(argc, argv); self_check();
  if (section("names")) {
    for (int i = 0; i < 12; i++) {
      std::string L = LONG_[i], S = L.substr(0, 3);
      for (unsigned m = 0; m < 1u << L.size(); m++) look(cased(L, m));
      for (unsigned m = 0; m < 8; m++) look(cased(S, m));
      set_cur("reported", i + 1); month m{i + 1};
      EXPECT(S == m.short_name(), "short_name", "short name is \"%s\"", m.short_name());
      EXPECT(L == m.long_name(), "long_name", "long name is \"%s\"", m.long_name());
      EXPECT(U(month{m.short_name()}) == i + 1 && U(month{m.long_name()}) == i + 1, "reported-resolves", "a reported name does not resolve back");
      judged();
    }
    sample("names");
  }
  if (section("held")) {               // every name at once, then looked at again after names were asked and resolved
    for (int turn = 0; turn < 40; turn++) {
      const char *s[12], *l[12]; std::vector<month> m; for (int i = 0; i < 12; i++) m.emplace_back(i + 1);
      for (int i = 0; i < 12; i++) { int k = turn % 2 ? 11 - i : i; s[k] = m[(size_t)k].short_name(); l[k] = m[(size_t)k].long_name(); if (turn > 20) (void)month(LONG_[(i * 5 + turn) % 12]).short_name(); }
      for (int i = 0; i < 12; i++) { set_cur("held", i + 1); EXPECT(std::string(LONG_[i], 3) == s[i] && std::string(LONG_[i]) == l[i], "held", "the names of month %d are \"%s\" and \"%s\" once the others have been asked", i + 1, s[i], l[i]); judged(); count("names held"); }
    }
    sample("held");
  }
  if (section("edits")) {              // every string one byte away from a name (and from a name in capitals)
    for (int i = 0; i < 12; i++) for (int v = 0; v < 6; v++) {
      if (v > 3 && slow_throw && !opt.thorough) continue;
      std::string b = v & 1 ? LONG_[i] : std::string(LONG_[i], 3); if (v > 3) b = low(b); else if (v & 2) for (char& c : b) if (c >= 'a') c = (char)(c - 32);
      for (size_t p = 0; p <= b.size(); p++) {
        if (p < b.size()) { std::string e = b; e.erase(p, 1); look(e); e = b; e.insert(p, 1, b[p]); look(e); if (p + 1 < b.size()) { e = b; std::swap(e[p], e[p + 1]); look(e); } }
        look(b.substr(0, p)); look(b.substr(p));
        int step = slow_throw && !opt.thorough ? 7 : 1;
        for (int c = 1 + (int)(opt.seed % 7) * (step > 1); c < 256; c += step) { if (p < b.size()) { std::string e = b; e[p] = (char)c; look(e); } std::string e = b; e.insert(p, 1, (char)c); look(e); }
        for (char c : {' ', '.', 'a', 'e', 'y', 't', '\0', '\x20', '@', '[', '`', '{'}) { std::string e = b; if (p < b.size()) { e[p] = (char)(b[p] ^ 0x20); look(e); e[p] = (char)(b[p] ^ 0x80); look(e); e[p] = (char)(b[p] ^ 0x40); look(e); } e = b; e.insert(p, 1, c); look(e); e = b + std::string(p + 1, c); look(e); e = std::string(p + 1, c) + b; look(e); }
      }
    }
    for (std::string s : std::initializer_list<std::string>{"Sept", "sept", "Sept.", "Juny", "Janu", "Febr", "Marc", "Apri", "Juin", "Augu", "Octo", "Nove", "Dece", "Septembe", "Januaryy", "Mayy", "Ma", "J", "", " ", "   ", "Jan Feb", "JanFeb", "JuneJuly", "1", "01", "12", "Enero", "Mai", "Maj", "\xef\xbb\xbfJan", "JanuaryJanuary", "Decembe", "005", "012", "001", "1st", "JAN.", "Janvier", "Fevrier", "Mars", "Avril", "Juillet", "Aout", "Januar", "Juni", "Juli", "Dez", "Okt", "Mrz", "Tue", "Monday", "DecemberDecember123"}) { look(s); look(low(s)); for (char& c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); look(s); }
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) { look(std::string(LONG_[i]) + LONG_[j]); look(std::string(LONG_[i], 3) + std::string(LONG_[j], 3)); look(std::string(LONG_[i], 3) + (LONG_[j] + std::min<size_t>(3, strlen(LONG_[j])))); for (size_t k = 1; k < strlen(LONG_[i]); k++) look(std::string(LONG_[i], k) + std::string(LONG_[j]).substr(std::min(k, strlen(LONG_[j])))); }
    sample("edits");
  }
  if (section("short")) {              // every string of up to three letters, any bytes up to two
    look("");
    for (int a = 1; a < 256; a++) { look(std::string(1, (char)a)); if (!slow_throw || opt.thorough) for (int b = 1; b < 256; b++) { char s[] = {(char)a, (char)b, 0}; look(s); } }
    if (!slow_throw || opt.thorough) for (int a = 0; a < 26; a++) for (int b = 0; b < 26; b++) for (int c = 0; c < 26; c++) if (mine(a)) { char s[] = {(char)('a' + a), (char)('A' + b), (char)('a' + c), 0}; look(s); }
    if (!slow_throw) {                 // every printable string of three characters, every one of four letters in one case
      for (int a = 32; a < 127; a++) if (mine(a)) for (int b = 32; b < 127; b++) for (int c = 32; c < 127; c++) { char s[] = {(char)a, (char)b, (char)c, 0}; look(s); }
      for (int a = 0; a < 26; a++) for (int b = 0; b < 26; b++) if (mine(a * 26 + b)) for (int c = 0; c < 26; c++) for (int d = 0; d < 26; d++) { const char z = opt.seed % 2 ? 'a' : 'A'; char s[] = {(char)(z + a), (char)(z + b), (char)(z + c), (char)(z + d), 0}; look(s); if (opt.thorough) { s[0] = (char)(s[0] ^ 0x20); look(s); } }
    }
    sample("short");
  }
  if (section("random")) {
    Rng r = rng_for("random"); long n = scale(120000) / (slow_throw ? 6 : 1);
    for (long i = 0; i < n; i++) {
      std::string s = r.chance(70) ? LONG_[r.in(0, 11)] : ""; if (r.chance(30)) s = s.substr(0, 3);
      int e = (int)r.in(0, 4); while (e--) { size_t p = (size_t)r.in(0, (long)s.size()); char c = r.chance(60) ? (char)r.in('A', 'z') : (char)r.in(1, 255); if (r.chance(50) && p < s.size()) s[p] = c; else s.insert(p, r.chance(90) ? 1 : (size_t)r.in(1, 400), c); }
      look(s);
    }
    sample("random");
  }
  return finish();
}
