// P33: the text of a vector or matrix shows every element, row by row.
#include "pbt.hpp"
#include <stator/symbolic/runtime.hpp>
using namespace pbt; using std::size_t;
template <class M> static void text(Src &s, Case &c, M m, const char *name) {
  typedef typename M::Scalar T; std::string d;
  for (int i = 0; i < m.rows(); ++i) { if (i) d += ";"; for (int j = 0; j < m.cols(); ++j) { m(i, j) = s.chance(1, 2) ? T(s.sym(9)) : s.chance(1, 12) ? T(std::numeric_limits<T>::infinity()) : T(s.anyFinite()); d += cat(" ", m(i, j)); } }
  c.describe(cat(name, " ", m.rows(), "x", m.cols(), ":", d)); M keep = m;
  std::string t = sym::repr(m); check(keep == m, "the matrix changed");
  // read the groups of numbers
  std::vector<std::vector<T>> groups; std::vector<T> top; int depth = 0; size_t i = 0;
  while (i < t.size()) {
    if (t[i] == '{') { if (++depth == 2) groups.emplace_back(); check(depth <= 2, "nested too deeply: " + t); ++i; }
    else if (t[i] == '}') { --depth; check(depth >= 0, "unbalanced: " + t); ++i; if (t.compare(i, 2, "^T") == 0) { check(m.cols() == 1 && depth == 0, "transposed: " + t); i += 2; } }
    else if (t[i] == ' ') ++i;
    else { char *e; T v; if (sizeof(T) == sizeof(float)) v = (T)std::strtof(t.c_str() + i, &e); else v = (T)std::strtod(t.c_str() + i, &e); check(e != t.c_str() + i, "not a number in " + t); i = e - t.c_str(); (depth == 2 ? groups.back() : top).push_back(v); }
  }
  check(depth == 0, "unbalanced: " + t);
  if (m.cols() == 1) { check(groups.empty() && top.size() == (size_t)m.rows(), "a column vector of the wrong length: " + t); for (int i = 0; i < m.rows(); ++i) check(top[i] == m(i, 0), cat("element ", i, " of ", t)); }
  else {
    check(top.empty() && groups.size() == (size_t)m.rows(), cat("expected ", m.rows(), " rows: ", t));
    for (int i = 0; i < m.rows(); ++i) { check(groups[i].size() == (size_t)m.cols(), cat("row ", i, " of ", t)); for (int j = 0; j < m.cols(); ++j) check(groups[i][j] == m(i, j), cat("element ", i, ",", j, " of ", t)); }
  }
  c.nontrivial(m.size() > 1); c.label(m.rows() == m.cols() ? "square" : m.cols() == 1 ? "column" : m.rows() == 1 ? "row" : "rectangular");
}
PROP(matrix_text, 60000, 1000000) {
  switch (s.range(0, 9)) {
#define K(n, T, R, C) case n: text(s, c, Eigen::Matrix<T, R, C>(), #T); break;
    K(0, double, 2, 2) K(1, double, 3, 3) K(2, double, 2, 3) K(3, double, 4, 2) K(4, double, 3, 1) K(5, double, 1, 4) K(6, float, 2, 4) K(7, double, 1, 1)
    case 8: text(s, c, stator::Vector<double, 3>(), "Vector"); break;
    default: text(s, c, Eigen::MatrixXd(s.range(1, 5), s.range(1, 5)), "MatrixXd");
  }
}
int main(int argc, char **argv) { return pbt::main(argc, argv, "Non-trivial: more than one element."); }
