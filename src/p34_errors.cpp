// P34: messages of the library's errors against a plain string model, over histories of streaming,
// copying, throwing, catching and rethrowing; and what errors from real operations say.
#include "pbt.hpp"
#include <stator/exception.hpp>
#include <stator/symbolic/runtime.hpp>
#include <stator/symbolic/array.hpp>
using namespace pbt; using std::size_t;
static std::string word(Src &s, size_t max) { std::string t; size_t n = s.range(0, max); for (size_t i = 0; i < n; ++i) t += "abc xyz\n\"%$"[s.draw(11)]; return t; }
template <class T> static void add(stator::Exception &e, std::string &m, const T &v) { stator::Exception &r = (e << v); check(&r == &e, "streaming gives another exception"); std::ostringstream o; o << v; m += o.str(); }
static void stream(Src &s, stator::Exception &e, std::string &m) {
  switch (s.range(0, 7)) {
  case 0: case 1: add(e, m, word(s, s.chance(1, 20) ? 3000 : 12)); break;
  case 2: { std::string w = word(s, 9); add(e, m, w.c_str()); break; }
  case 3: add(e, m, (long long)s.sym(1ll << 50)); break;
  case 4: add(e, m, s.grid(-1000, 1000, 8)); break;
  case 5: add(e, m, "xyz"[s.draw(3)]); break;
  case 6: add(e, m, "fixed text, "); break;
  default: add(e, m, (unsigned)s.range(0, 100000)); break;
  }
}
static std::string first(int line, const std::string &file, const std::string &fn) { return cat("Exception thrown in [", fn, "] (", file, ":", line, ")\n"); }
static void history(Src &s, Case &c, const stator::Exception &e, std::string m, int depth, bool whole);
static void step(Src &s, Case &c, stator::Exception &e, std::string &m, int depth) {
  switch (s.range(0, depth < 6 ? 8 : 3)) {
  case 0: case 1: case 2: stream(s, e, m); c.append(" <<"); break;
  case 3: { const char *a = e.what(); std::string t = a; check(t == m, cat("message is ", t, ", expected ", m)); check(e.what() == t, "a second look at the message differs"); break; }
  case 4: { c.append(" copy{"); stator::Exception f(e); std::string n = m; for (size_t k = s.range(1, 3); k; --k) step(s, c, f, n, depth + 1); check(std::string(f.what()) == n, cat("copy says ", f.what(), ", expected ", n)); check(std::string(e.what()) == m, "the original of a copy changed"); c.append(" }"); c.label("copied"); break; }
  case 5: { c.append(" throw{"); std::string n = m; try { throw e; } catch (stator::Exception &f) { for (size_t k = s.range(1, 3); k; --k) step(s, c, f, n, depth + 1); check(std::string(f.what()) == n, cat("caught says ", f.what(), ", expected ", n)); c.append(" }"); } c.label("thrown"); break; }
  case 6: { c.append(" rethrow{"); std::string n = m; try { try { throw stator::Exception(e) << "|"; } catch (stator::Exception &f) { n += "|"; stream(s, f, n); throw; } } catch (std::exception &f) { check(std::string(f.what()) == n, cat("rethrown says ", f.what(), ", expected ", n)); } c.append(" }"); c.label("rethrown with more text"); break; }
  case 7: { c.append(" byvalue{"); std::string n = m; try { throw e; } catch (stator::Exception f) { for (size_t k = s.range(1, 2); k; --k) step(s, c, f, n, depth + 1); check(std::string(f.what()) == n, cat("caught by value says ", f.what(), ", expected ", n)); } c.append(" }"); break; }
  default: { std::string n = m; std::exception_ptr p; try { throw e; } catch (...) { p = std::current_exception(); } try { std::rethrow_exception(p); } catch (stator::Exception &f) { stream(s, f, n); check(std::string(f.what()) == n, cat("stored says ", f.what(), ", expected ", n)); } c.append(" stored"); break; }
  }
}
PROP(message_histories, 60000, 1500000) {
  int line = (int)s.range(1, 9999); std::string file = s.chance(1, 8) ? "" : word(s, 9), fn = word(s, 9); c.describe(cat("exception at ", line, ":"));
  stator::Exception e(line, file.c_str(), fn.c_str()); std::string m = first(line, file, fn); size_t n0 = m.size();
  for (size_t k = s.range(1, 10); k; --k) step(s, c, e, m, 0);
  check(std::string(e.what()) == m, cat("message is ", e.what(), ", expected ", m)); c.nontrivial(m.size() > n0);
}
static void where(const std::string &m) { size_t nl = m.find('\n'); check(nl != std::string::npos, "message does not say where: " + m); std::string h = m.substr(0, nl); check(h.find(".hpp:") != std::string::npos, "message does not name the source line: " + h); check(m.size() > nl + 1, "message says nothing: " + m); }
// rejected texts: the message quotes the text and marks a place in it
PROP(text_errors, 60000, 1000000) {
  static const char *tok[] = {"x", "y", "12", "1.5", "+", "-", "*", "/", "^", "(", ")", "[", "]", "{", "}", ",", ":", "=", "sin", "exp", "ln", " ", " ", "$", "#", ".", "1e", "2.3.4", "_", "@", "3e5e2"};
  std::string t; for (size_t n = s.range(0, 12); n; --n) t += tok[s.draw(sizeof tok / sizeof *tok)]; c.describe(t);
  std::string m; try { sym::Expr e(t); throw Discard(); } catch (stator::Exception &e) { m = e.what(); std::string n = m; stream(s, e, n); check(e.what() == n, cat("adding to the error gives ", e.what(), ", expected ", n)); }
  where(m); size_t p = m.rfind('\n'); std::string mark = m.substr(p + 1), before = m.substr(0, p); if (mark.empty() || mark.back() != '^') throw Discard();
  check(before.size() >= t.size() && before.compare(before.size() - t.size(), t.size(), t) == 0, "the message does not end with the text and the mark: " + m);
  size_t a = mark.find_first_not_of(' '); check(mark.find_first_not_of('-', a) == mark.size() - 1, "strange mark: " + mark); check(a <= t.size() && mark.size() - 1 <= t.size(), cat("the mark of ", t, " lies outside of it: ", m));
  size_t u = m.find("Unrecognised token \""); if (u != std::string::npos) { u += 20; std::string w = t.substr(a, mark.size() - a); check(m.compare(u, w.size() + 1, w + "\"") == 0, "the token named is not the one marked: " + m); check(std::string("$#._@").find(t[a]) != std::string::npos, "a valid token is reported as unrecognised: " + m); c.label("token named"); }
  c.nontrivial(a < t.size()); if (a == t.size()) c.label("at the end");
}
// errors of operations, also seen as std::exception
PROP(operation_errors, 20000, 300000) {
  std::string m; size_t n = s.range(1, 6), k = s.range(1, 6); if (k == n) ++k; int op = (int)s.range(0, 3);
  auto list = [&](size_t n) { sym::Expr e("[1]"); std::string t = "["; for (size_t i = 0; i < n; ++i) t += cat(i ? "," : "", s.range(0, 9)); return sym::Expr(t + "]"); };
  try {
    switch (op) {
    case 0: { c.describe(cat("lists of ", n, " and ", k)); sym::Expr e = sym::simplify(sym::Expr(list(n) + list(k))); break; }
    case 1: { c.describe(cat("list of ", n, " at ", n + k)); sym::simplify(sym::Expr(sym::repr(list(n)) + cat("[", n + k, "]"))); break; }
    case 2: { c.describe(cat("array of 3 to ", 3 + k)); sym::Array<double, sym::LinearAddressing<3>> a; a.resize(3 + k); break; }
    default: { c.describe(cat("text of key ", k)); sym::Expr e(cat("{", k, ":1}")); break; }
    }
    if (op == 1) throw Discard();
  } catch (std::exception &e) { m = e.what(); }
  check(!m.empty(), "no error for " + c.desc); where(m); c.nontrivial(true);
}
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: text was streamed to the exception, or a rejected text with its mark inside the text, or an operation that raises an error."); }
