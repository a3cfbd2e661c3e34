// P27: strip, search_replace, string_format and StringConst against straightforward references.
#include "pbt.hpp"
#include <cstdarg>
#include <stator/string.hpp>
using namespace pbt; using std::size_t;
static std::string word(Src &s, size_t max, const char *alphabet) { std::string t; size_t n = s.range(0, max), m = strlen(alphabet); for (size_t i = 0; i < n; ++i) t += s.chance(1, 60) ? char(s.draw(256)) : alphabet[s.draw(m)]; return t; }
static std::string q(const std::string &s) { std::string t = "\""; for (unsigned char ch : s) t += ch < 32 || ch > 126 ? cat("\\x", (int)ch, ";") : std::string(1, ch); return t + "\""; }
PROP(strip, 150000, 3000000) {
  std::string in = word(s, 14, " \t ab\n "), got, ws = " \t";
  if (s.chance(1, 2)) { got = stator::strip(in); c.describe("strip(" + q(in) + ")"); }
  else { ws = word(s, 4, " \tab\nx"); got = stator::strip(in, ws); c.describe("strip(" + q(in) + ", " + q(ws) + ")"); }
  size_t a = 0, b = in.size(); while (a < b && ws.find(in[a]) != std::string::npos) ++a; while (b > a && ws.find(in[b - 1]) != std::string::npos) --b;
  std::string want(in.begin() + a, in.begin() + b); check(got == want, q(in) + " without " + q(ws) + " at the ends became " + q(got) + ", expected " + q(want));
  c.nontrivial(want != in); if (want.empty() && !in.empty()) c.label("only whitespace"); if (want.find(' ') != std::string::npos) c.label("inner space kept");
}
PROP(search_replace, 200000, 4000000) {
  const char *al = s.chance(1, 2) ? "ab" : "abc<&"; std::string in = word(s, s.chance(1, 5) ? 60 : 12, al), from = word(s, 3, al), to = word(s, s.chance(1, 3) ? 0 : 6, al);
  if (s.chance(1, 4)) to = from + to; if (s.chance(1, 6)) to = to + from + from; c.describe("search_replace(" + q(in) + ", " + q(from) + ", " + q(to) + ")");
  std::string want; size_t n = 0;
  for (size_t i = 0; i < in.size();) if (!from.empty() && in.compare(i, from.size(), from) == 0) { want += to; ++n; i += from.size(); } else want += in[i++];
  std::string keep = in, kf = from, kt = to; auto got = stator::search_replace(in, from, to);
  check(got.first == want, "gave " + q(got.first) + ", expected " + q(want)); check(got.second == n, cat("reported ", got.second, " replacements, made ", n)); check(in == keep && from == kf && to == kt, "an argument changed");
  c.nontrivial(n > 0 && want != in); if (from.empty()) c.label("empty pattern"); if (n > 1) c.label("several"); if (to.find(from) != std::string::npos && n) c.label("replacement contains pattern");
}
static std::string ref(const char *f, ...) { static char buf[200000]; va_list a; va_start(a, f); int n = vsnprintf(buf, sizeof buf, f, a); va_end(a); return std::string(buf, buf + n); }
PROP(string_format, 60000, 1200000) {
  std::string lit = word(s, 8, "abc %"), t; for (char ch : lit) { if (!ch) continue; t += ch; if (ch == '%') t += '%'; }
  std::string str = word(s, 12, "xyz %"); if (s.chance(1, 4)) str += std::string(s.range(0, 5000), 'w'); char ch = s.chance(1, 3) ? 0 : 'k'; str.erase(std::remove(str.begin(), str.end(), '\0'), str.end()); double x = s.anyFinite(); if (s.chance(1, 10)) x = 1e308; int i = (int)s.sym(2000000000); unsigned w = s.range(0, 40), p = s.range(0, 20); size_t z = s.draw(1ull << 62);
  std::string got, want;
  switch (s.range(0, 6)) {
#define F(FMT, ...) { std::string f = FMT; c.describe(cat("format ", q(f))); got = stator::string_format(f, __VA_ARGS__); want = ref(f.c_str(), __VA_ARGS__); break; }
  case 0: F(t + cat("%", w, ".", p, "g|"), x)
  case 1: F(t + "%d" + t, i)
  case 2: F(cat("%-", w + 1, "s") + t + "%s", str.c_str(), "end")
  case 3: F(t + "%f" + t, x)
  case 4: F("%zu%c%x" + t, z, 'q', (unsigned)i)
  case 5: F("%c" + t + "%s", ch, str.c_str())
  default: F("%.17e %i %s" + t, x, i, str.c_str())
  }
  check(got == want, "gave " + q(got).substr(0, 200) + ", expected " + q(want).substr(0, 200)); c.nontrivial(got.size() > 4); if (got.size() > 1000) c.label("long"); if (got.find('\0') != std::string::npos) c.label("NUL inside");
}
PROP(string_constants, 20000, 200000) {
  char a[8], b[8]; for (int i = 0; i < 8; ++i) { a[i] = "ab"[s.draw(2)]; b[i] = s.chance(1, 8) ? 'c' : a[i]; } stator::StringConst<5> x(a), y(b), z(x);
  c.describe(cat(std::string(a, 5), " == ", std::string(b, 5))); bool e = std::memcmp(a, b, 5) == 0; check((x == y) == e && (y == x) == e && z == x && x.size() == 5 && std::string(x.buf) == std::string(a, 5), "comparison of string constants"); c.nontrivial(true);
}
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: the text changed (strip, search_replace) or the output is longer than four characters."); }
