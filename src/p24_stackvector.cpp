// P24: StackVector against std::vector under generated histories.
#define STATOR_DEBUG
#include "pbt.hpp"
#include <memory>
#include <array>
#include <stator/exception.hpp>
#include <tuple>
#include <utility>
#include <stator/orphan/stack_vector.hpp>
using namespace pbt; using std::size_t;
using stator::orphan::StackVector;
// an element that owns memory, so that misuse is seen by the sanitizer
struct Own { std::unique_ptr<int> p; Own() : p(new int(-7)) {} Own(int v) : p(new int(v)) {} Own(const Own &o) : p(new int(*o.p)) {} Own &operator=(const Own &o) { if (this != &o) p.reset(new int(*o.p)); return *this; } bool operator==(const Own &o) const { return *p == *o.p; } bool operator<(const Own &o) const { return *p < *o.p; } };
static std::ostream &operator<<(std::ostream &os, const Own &o) { return os << '#' << *o.p; }
typedef std::pair<double, int> PairT; typedef std::tuple<int, double, std::string> TupT;
template <class T> static T make(Src &s) {
  int v = (int)s.sym(s.chance(1, 2) ? 3 : 1000);
  if constexpr (std::is_same<T, std::string>::value) return std::string(s.range(0, 30), char('a' + (v & 15))) + cat(v);
  else if constexpr (std::is_same<T, PairT>::value) return PairT(v / 4.0, (int)s.sym(5));
  else if constexpr (std::is_same<T, TupT>::value) return TupT(v, s.grid(-3, 3, 4), cat("t", v));
  else return T(v);
}
template <class T> static std::string one(const T &v) {
  std::ostringstream o;
  if constexpr (std::is_same<T, PairT>::value) o << "[" << v.first << ", " << v.second << "] ";
  else if constexpr (std::is_same<T, TupT>::value) o << "[" << std::get<0>(v) << " " << std::get<1>(v) << " " << std::get<2>(v) << " ] ";
  else o << v << " ";
  return o.str();
}
template <class T> static std::string text(const std::vector<T> &m) { std::string t = "StackVector{ "; for (auto &x : m) t += one(x); return t + "}"; }
template <class T, size_t N> struct Run {
  typedef StackVector<T, N> V; typedef std::vector<T> M;
  static void same(const V &v, const M &m, const std::string &what) {
    check(v.size() == m.size(), cat(what, ": size is ", v.size(), ", expected ", m.size())); check(v.empty() == m.empty(), what + ": empty() is wrong");
    check(M(v.begin(), v.end()) == m, what + ": elements are " + [&] { std::ostringstream o; o << v; return o.str(); }() + ", expected " + text(m));
    V &w = const_cast<V &>(v); check(M(w.begin(), w.end()) == m, what + ": mutable iteration differs"); check(M(w.begin(), decltype(w.begin())(const_cast<T *>(v.cend()))) == m, what + ": cend() is wrong");
    M r(m.rbegin(), m.rend()); check(M(v.rbegin(), v.rend()) == r && M(w.rbegin(), w.rend()) == r && M(v.crbegin(), v.crend()) == r, what + ": reverse iteration differs");
    for (size_t i = 0; i < m.size(); ++i) check(v[i] == m[i] && w[i] == m[i], cat(what, ": element ", i, " differs"));
    if (!m.empty()) { check(v.back() == m.back() && w.back() == m.back(), what + ": back() is not the last element"); check(v.front() == m.front(), what + ": front() is not the first element"); }
    std::ostringstream o; o << v; check(o.str() == text(m), what + ": prints as " + o.str() + ", expected " + text(m));
  }
  template <size_t K> static void smaller(Src &s, Case &c, V &v, M &m, bool construct) {
    if constexpr (K <= N || true) {
      StackVector<T, K> o; M om; size_t room = construct ? std::min(K, N) : std::min(K, N - m.size()); size_t n = s.range(0, room);
      for (size_t i = 0; i < n; ++i) { T x = make<T>(s); o.push_back(x); om.push_back(x); }
      // leave a stale element behind the end now and then
      if (n < K && s.chance(1, 2)) { o.push_back(make<T>(s)); o.pop_back(); }
      if (construct) { if constexpr (K <= N) { V x(o); same(x, om, cat("constructed from a vector of capacity ", K)); v = x; m = om; } }
      else { v.extend(o); m.insert(m.end(), om.begin(), om.end()); }
      c.append(cat(construct ? " copy-from" : " extend", "<", K, ">(", n, ")"));
    }
  }
  static void history(Src &s, Case &c, const char *name) {
    V v; M m; c.describe(cat("StackVector<", name, ",", N, ">")); size_t over = 0, max = 0;
    if (s.chance(1, 3)) { T a = make<T>(s), b = make<T>(s), d = make<T>(s); size_t n = s.range(0, std::min<size_t>(3, N)); if (n == 1) v = V{a}; else if (n == 2) v = V{a, b}; else if (n == 3) v = V{a, b, d}; if (n > 0) m.push_back(a); if (n > 1) m.push_back(b); if (n > 2) m.push_back(d); c.append(cat(" {", n, "}")); same(v, m, "initialiser list"); }
    size_t steps = s.range(1, 25);
    for (size_t i = 0; i < steps; ++i) {
      std::string op;
      switch (s.weighted({8, 4, 2, 2, 2, 2, 1, 1, 1})) {
      case 0: { T x = make<T>(s); op = "push"; if (m.size() == N) { bool threw = false; std::string w; try { v.push_back(x); } catch (stator::Exception &e) { threw = true; w = e.what(); } check(threw, "pushing to a full vector was not reported"); check(w.find(text(m)) != std::string::npos, "the report does not show the vector: " + w); op = "push(full)"; ++over; } else { v.push_back(x); m.push_back(x); } break; }
      case 1: { op = "pop"; if (m.empty()) { bool threw = false; try { v.pop_back(); } catch (stator::Exception &) { threw = true; } check(threw, "popping from an empty vector was not reported"); op = "pop(empty)"; ++over; } else { T x = v.pop_back(); check(x == m.back(), "pop_back returned another element"); m.pop_back(); } break; }
      case 2: { op = "copy"; V o(v); same(o, m, "copy"); check(o == v && !(o != v), "a copy is not equal"); if (!m.empty()) { o.pop_back(); } else if (N) o.push_back(make<T>(s)); check(o != v && !(o == v), "vectors of different size compare equal"); same(v, m, "original after changing a copy"); break; }
      case 3: { op = "write"; if (!m.empty()) { size_t k = s.range(0, m.size() - 1); T x = make<T>(s); if (s.chance(1, 2)) v[k] = x; else *(v.begin() + k) = x; m[k] = x; } break; }
      case 4: switch (s.range(0, 2)) { case 0: smaller<1>(s, c, v, m, false); break; case 1: smaller<4>(s, c, v, m, false); break; default: smaller<9>(s, c, v, m, false); } break;
      case 5: switch (s.range(0, 2)) { case 0: smaller<1>(s, c, v, m, true); break; case 1: if (N >= 2) smaller<2>(s, c, v, m, true); break; default: if (N >= 3) smaller<3>(s, c, v, m, true); } break;
      case 6: { op = "extend(full)"; size_t room = N - m.size(); if (room < 5) { StackVector<T, 6> o; M om; for (size_t k = 0; k < room + 1; ++k) { T x = make<T>(s); o.push_back(x); om.push_back(x); } bool threw = false; try { v.extend(o); } catch (stator::Exception &) { threw = true; } check(threw, "extending over the capacity was not reported"); ++over; m.insert(m.end(), om.begin(), om.begin() + room); } break; }
      case 7: { // equality and order depend on the elements only
        op = "compare"; V o; M om; for (auto &x : m) { T y = s.chance(1, 6) ? make<T>(s) : x; o.push_back(y); om.push_back(y); }
        if (om.size() < N && s.chance(1, 2)) { o.push_back(make<T>(s)); o.pop_back(); }
        if (om.size() && s.chance(1, 3)) { o.pop_back(); om.pop_back(); }
        check((v == o) == (m == om) && (v != o) == !(m == om), cat("== of ", text(m), " and ", text(om), " is wrong"));
        check((v < o) == (m < om) && (v > o) == (om < m) && (v <= o) == !(om < m) && (v >= o) == !(m < om), cat("the order of ", text(m), " and ", text(om), " is wrong")); break; }
      default: { op = "swap"; V o; M om; size_t n = s.range(0, N); for (size_t k = 0; k < n; ++k) { T x = make<T>(s); o.push_back(x); om.push_back(x); } if (s.chance(1, 2)) v.swap(o); else std::swap(v, o); std::swap(m, om); same(o, om, "swapped"); break; }
      }
      if (!op.empty()) c.append(" " + op);
      same(v, m, "after" + (op.empty() ? std::string(" extend/copy-from") : " " + op)); max = std::max(max, m.size());
    }
    if (over) c.label("over capacity or empty"); c.label(name); if (max == N) c.label("filled"); c.nontrivial(max > 1 || N == 1 && max == 1 && steps > 3);
  }
};
template <class T> static void sizes(Src &s, Case &c, const char *name) {
  switch (s.range(0, 4)) { case 0: Run<T, 1>::history(s, c, name); break; case 1: Run<T, 2>::history(s, c, name); break; case 2: Run<T, 3>::history(s, c, name); break; case 3: Run<T, 5>::history(s, c, name); break; default: Run<T, 16>::history(s, c, name); }
}
PROP(histories, 120000, 2500000) {
  switch (s.range(0, 5)) {
  case 0: sizes<int>(s, c, "int"); break;
  case 1: sizes<double>(s, c, "double"); break;
  case 2: sizes<std::string>(s, c, "string"); break;
  case 3: sizes<Own>(s, c, "owning"); break;
  case 4: sizes<PairT>(s, c, "pair"); break;
  default: sizes<TupT>(s, c, "tuple"); break;
  }
}
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: the vector held at least two elements (or was filled) at some point of the history."); }
