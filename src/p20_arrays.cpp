#include "pbt.hpp"
#include <stator/symbolic/symbolic.hpp>
#include <stator/symbolic/array.hpp>
#include <map>
using namespace pbt; using std::size_t;
template <class P> static auto unwrap(P p) { auto &r = sym::detail::unwrap(p); typename std::decay<decltype(r)>::type v(r); return v; }
typedef std::vector<size_t> Ix;
static std::string show(const Ix &d) { std::string s; for (size_t x : d) s += cat(s.empty() ? "" : "x", x); return s; }
static size_t prod(const Ix &d) { size_t p = d.empty() ? 0 : 1; for (size_t x : d) p *= x; return p; }
static bool next(Ix &i, const Ix &d) { for (size_t k = d.size(); k-- > 0;) { if (++i[k] < d[k]) return true; i[k] = 0; } return false; }
template <class C> static C coords(const Ix &d) { C c{}; if constexpr (std::is_same<C, std::vector<size_t>>::value) c = d; else for (size_t i = 0; i < c.size(); ++i) c[i] = d[i]; return c; }
// chained access a[i][j]..., for a static number of dimensions
template <size_t D, class A> static auto &chain(A &&a, const Ix &i) {
  if constexpr (D == 2) return a[i[0]][i[1]]; else if constexpr (D == 3) return a[i[0]][i[1]][i[2]]; else return a[i[0]][i[1]][i[2]][i[3]];
}
static Ix dims(Src &s, size_t D, size_t cap) { for (int t = 0; t < 20; ++t) { Ix d; for (size_t i = 0; i < D; ++i) d.push_back(s.range(s.chance(1, 20) ? 0 : 1, 5)); if (prod(d) <= cap) return d; } return Ix(D, 1); }
template <class A> static std::vector<double> items(const A &a) { std::vector<double> v; for (const auto &x : a) v.push_back(x); return v; }
template <class A, size_t D> static void multi(Src &s, Case &c, const char *name, size_t cap) {
  Ix d = dims(s, D, cap); typedef typename A::Coords C; A a; size_t n = prod(d); c.describe(cat(name, " array of ", show(d)));
  a.resize(coords<C>(d)); check(a.size() == n, cat("size is ", a.size(), ", expected ", n)); check(a.empty() == (n == 0), "empty() is wrong");
  { C g = a.getDimensions(); for (size_t i = 0; i < D; ++i) check(g[i] == d[i], "getDimensions differs from the requested dimensions"); }
  // write each element through a generated way of access and read it back through all of them
  std::map<Ix, double> model; double k = s.sym(1000); Ix i(D, 0); std::set<const double *> addresses;
  if (n) do { k += 1; model[i] = k; if (s.chance(1, 2)) a[coords<C>(i)] = k; else chain<D>(a, i) = k; } while (next(i, d));
  i = Ix(D, 0); const A &ca = a; size_t at = 0; std::vector<double> order;
  if (n) do {
    double w = model[i]; order.push_back(w); check(a[coords<C>(i)] == w, cat("element ", show(i), " reads ", a[coords<C>(i)], " by coordinates, expected ", w));
    check(ca[coords<C>(i)] == w && chain<D>(a, i) == w && chain<D>(ca, i) == w, cat("element ", show(i), " differs between the ways of access"));
    check(a.coords_to_index(coords<C>(i)) == at, cat("element ", show(i), " has index ", a.coords_to_index(coords<C>(i)), ", expected ", at)); ++at;
    addresses.insert(&a[coords<C>(i)]);
  } while (next(i, d));
  check(addresses.size() == n, "two coordinate tuples share an element"); check(items(a) == order && items(ca) == order, cat("iteration is not in row-major order: ", sym::repr(a)));
  { std::string t = "["; for (double x : order) t += (t.size() > 1 ? ", " : "") + sym::repr(x); check(sym::repr(a) == t + "]", "printed as " + sym::repr(a) + ", expected " + t + "]"); }
  // arithmetic
  A b; b.resize(coords<C>(d)); for (auto &x : b) x = s.grid(-30, 30, 4); double r = s.grid(1, 30, 4); std::vector<double> vb = items(b), v; 
  auto cmp = [&](const char *op, std::vector<double> got, const A &res, auto f) { check(res.getDimensions() == a.getDimensions(), cat("result of ", op, " has other dimensions")); check(got.size() == n, cat("result of ", op, " has ", got.size(), " items")); for (size_t j = 0; j < n; ++j) { double w = f(j); check(got[j] == w || (w != w && got[j] != got[j]), cat(op, ": item ", j, " is ", got[j], ", expected ", w)); } };
  switch (s.range(0, 6)) {
  case 0: { A x = unwrap(a + b); cmp("+", items(x), x, [&](size_t j) { return order[j] + vb[j]; }); break; }
  case 1: { A x = unwrap(a - b); cmp("-", items(x), x, [&](size_t j) { return order[j] - vb[j]; }); break; }
  case 2: { A x = unwrap(a / b); cmp("/", items(x), x, [&](size_t j) { return order[j] / vb[j]; }); break; }
  case 3: { A x = unwrap(a + r); cmp("+ scalar", items(x), x, [&](size_t j) { return order[j] + r; }); break; }
  case 4: { A x = unwrap(a - r); cmp("- scalar", items(x), x, [&](size_t j) { return order[j] - r; }); break; }
  case 5: { A x = unwrap(a / r); cmp("/ scalar", items(x), x, [&](size_t j) { return order[j] / r; }); break; }
  default: break;
  }
  check(items(a) == order && items(b) == vb, "an operand changed");
  // other dimensions are rejected, including the same number of elements
  Ix e = s.chance(1, 2) ? Ix(d.rbegin(), d.rend()) : dims(s, D, cap); if (e != d) { A o; o.resize(coords<C>(e)); for (auto &x : o) x = 1; int op = (int)s.range(0, 2); bool threw = false; try { if (op == 0) unwrap(a + o); else if (op == 1) unwrap(a - o); else unwrap(a / o); } catch (stator::Exception &) { threw = true; } check(threw, cat("arrays of ", show(d), " and ", show(e), " were combined")); c.label("mismatch"); check(!(a == o), "arrays of different dimensions compare equal"); }
  { A o = a; check(o == a, "a copy is not equal"); if (n) { size_t j = s.range(0, n - 1); *(o.begin() + j) += 1; check(!(o == a), "arrays with different elements compare equal"); check(items(a) == order, "changing a copy changed the original"); } }
  // the first dimension can grow keeping every element
  if (n) { Ix g = d; g[0] += s.range(1, 3); if (prod(g) <= cap) { a.resize(coords<C>(g)); i = Ix(D, 0); do check(a[coords<C>(i)] == model[i], cat("element ", show(i), " changed when the first dimension grew")); while (next(i, d)); check(a.size() == prod(g), "size after growing"); } }
  // beyond a fixed store
  if (cap < 1000) { Ix g(D, 1); g[s.range(0, D - 1)] = cap + s.range(1, 5); bool threw = false; try { A o; o.resize(coords<C>(g)); } catch (stator::Exception &) { threw = true; } check(threw, cat("dimensions ", show(g), " exceed the store of ", cap, " but were accepted"));  auto before = items(a); auto was = a.getDimensions(); threw = false; try { a.resize(coords<C>(g)); } catch (stator::Exception &) { threw = true; } check(threw && a.getDimensions() == was && items(a) == before, cat("the array changed in a refused resize to ", show(g))); }
  c.nontrivial(n > 1); c.label(name);
}
PROP(multidimensional, 60000, 1000000) {
  switch (s.range(0, 4)) {
  case 0: multi<sym::Array<double, sym::RowMajorAddressing<-1u, 2>>, 2>(s, c, "dynamic 2D", 100000); break;
  case 1: multi<sym::Array<double, sym::RowMajorAddressing<-1u, 3>>, 3>(s, c, "dynamic 3D", 100000); break;
  case 2: multi<sym::Array<double, sym::RowMajorAddressing<-1u, 4>>, 4>(s, c, "dynamic 4D", 100000); break;
  case 3: multi<sym::Array<double, sym::RowMajorAddressing<20, 2>>, 2>(s, c, "fixed 2D", 20); break;
  default: multi<sym::Array<double, sym::RowMajorAddressing<48, 3>>, 3>(s, c, "fixed 3D", 48); break;
  }
}
// any number of dimensions chosen at run time
PROP(runtime_dimensions, 40000, 700000) {
  typedef sym::Array<double> A; size_t D = s.range(1, 5); Ix d = dims(s, D, 4000); A a; size_t n = prod(d); c.describe(cat("array of run-time dimensions ", show(d)));
  a.resize(d); check(a.size() == n && a.getDimensions() == d, "dimensions after resize"); std::map<Ix, double> model; Ix i(D, 0); double k = 0; 
  if (n) do { k += 1; model[i] = k; if (s.chance(1, 2)) a[i] = k; else { auto x = a[i[0]]; for (size_t j = 1; j < D; ++j) x[i[j]]; x = k; } } while (next(i, d));
  i = Ix(D, 0); std::vector<double> order; size_t at = 0; if (n) do { double w = model[i]; order.push_back(w); check(a[i] == w, cat("element ", show(i), " reads ", a[i], ", expected ", w)); auto x = a[i[0]]; for (size_t j = 1; j < D; ++j) x[i[j]]; check(double(x) == w && x == w, cat("element ", show(i), " by chained access reads ", double(x), ", expected ", w)); check(a.coords_to_index(i) == at++, "index is not row-major"); } while (next(i, d));
  check(items(a) == order, "iteration is not in row-major order");
  if (n && D > 1) { auto x = a[0]; for (size_t j = 1; j + 1 < D; ++j) x[0]; bool threw = false; try { if (s.chance(1, 2)) x = 5.0; else k += double(x); } catch (stator::Exception &) { threw = true; } check(threw, "an incomplete address was accepted"); }
  if (n) { auto x = a[0]; for (size_t j = 1; j < D; ++j) x[0]; bool threw = false; try { x[0]; } catch (stator::Exception &) { threw = true; } check(threw, "too many indices were accepted"); }
  A b = a; for (auto &x : b) x = s.grid(-9, 9, 2); A r = unwrap(a + b); auto ib = items(b), ir = items(r); check(r.getDimensions() == d && ir.size() == n, "dimensions of the sum"); for (size_t j = 0; j < n; ++j) check(ir[j] == order[j] + ib[j], "sum is not elementwise");
  Ix e = s.chance(1, 2) ? Ix{n} : s.chance(1, 2) ? Ix(d.rbegin(), d.rend()) : [&] { Ix t = d; t.push_back(1); return t; }(); if (e != d) { A o; o.resize(e); bool threw = false; try { unwrap(a - o); } catch (stator::Exception &) { threw = true; } check(threw, cat("arrays of ", show(d), " and ", show(e), " were combined")); }
  if (D > 1) { bool threw = false; try { a.push_back(1); } catch (stator::Exception &) { threw = true; } check(threw, "push_back on a multi-dimensional array was accepted"); check(items(a) == order, "rejected push_back changed the array"); }
  c.nontrivial(n > 1); c.label(cat(D, " dimensions"));
}
// histories on one-dimensional arrays against std::vector
template <class A> static void linear(Src &s, Case &c, const char *name, size_t cap, bool hasCtor) {
  A a; std::vector<double> m; c.describe(cat(name, " history:"));
  for (size_t k = s.range(1, 25); k > 0; --k) {
    switch (s.range(0, 5)) {
    case 0: case 1: case 2: { double v = s.sym(99); c.append(cat(" push ", v)); bool threw = false; try { a.push_back(v); } catch (stator::Exception &) { threw = true; } if (m.size() < cap) { check(!threw, "push_back failed below capacity"); m.push_back(v); } else { check(threw, "push_back beyond the store was accepted"); c.label("full"); } break; }
    case 3: { size_t n = s.range(0, std::min<size_t>(cap + 2, 20)); c.append(cat(" resize ", n)); bool threw = false; try { if constexpr (std::is_same<typename A::Coords, size_t>::value) a.resize(n); else a.resize(typename A::Coords{n}); } catch (stator::Exception &) { threw = true; } if (n <= cap) { check(!threw, "resize failed"); size_t o = m.size(); m.resize(n); if (n > o) for (size_t j = o; j < n; ++j) m[j] = *(a.begin() + j) = 7; } else check(threw, "resize beyond the store was accepted"); break; }
    case 4: if (!m.empty()) { size_t j = s.range(0, m.size() - 1); m[j] = s.sym(99); c.append(cat(" [", j, "]=", m[j])); if constexpr (std::is_same<typename A::Coords, size_t>::value) a[j] = m[j]; else a[typename A::Coords{j}] = m[j]; } break;
    default: { A b(a); if (!m.empty() && s.chance(1, 2)) *b.begin() = 1e9; A d; d = a; check(d == a, "copy differs"); }
    }
    check(a.size() == m.size() && a.empty() == m.empty(), cat("size is ", a.size(), ", expected ", m.size())); check(items(a) == m, cat("items are ", sym::repr(a)));
    const A &ca = a; for (size_t j = 0; j < m.size(); ++j) { if constexpr (std::is_same<typename A::Coords, size_t>::value) check(ca[j] == m[j], cat("item ", j)); else check(ca[typename A::Coords{j}] == m[j], cat("item ", j)); }
  }
  if (!m.empty()) { A t = unwrap(a + a); auto v = items(t); check(v.size() == m.size(), "size of the sum"); for (size_t j = 0; j < v.size(); ++j) check(v[j] == m[j] + m[j], "sum"); }
  c.nontrivial(m.size() > 1); c.label(name);
}
PROP(linear_histories, 60000, 1000000) {
  switch (s.range(0, 3)) {
  case 0: linear<sym::Array<double, sym::LinearAddressing<-1u>>>(s, c, "dynamic linear", 1u << 20, true); break;
  case 1: linear<sym::Array<double, sym::LinearAddressing<7>>>(s, c, "fixed linear", 7, false); break;
  case 2: linear<sym::Array<double>>(s, c, "run-time 1D", 1u << 20, false); break;
  default: linear<sym::Array<double, sym::LinearAddressing<1>>>(s, c, "fixed linear of one", 1, false); break;
  }
}
int main(int c, char **v) { return pbt::main(c, v, "A case is non-trivial when the array ends with more than one element."); }
