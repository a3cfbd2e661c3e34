From 51ac386118bf49bd06ee36edfcf64f0f91921ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 01/51] fix: keep the unit when multiplying a plain value by a
 quantity

---
 stator/symbolic/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/units.hpp b/stator/symbolic/units.hpp
index f13ea43..4ced645 100644
--- a/stator/symbolic/units.hpp
+++ b/stator/symbolic/units.hpp
@@ -100,7 +100,7 @@ namespace sym
   template <class RLHS, class RRHS, class LHS>
   auto multiply_impl(const LHS &l, const UnitsOp<RLHS, RRHS> &r, detail::choice<1>)
   {
-    return units(l * r._l, r._l);
+    return units(l * r._l, r._r);
   }
 
   template <class LLHS, class LRHS, class RLHS, class RRHS>
-- 
2.43.0


From 7888c70c49aa87b658278db1d617cfaa8d862c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 02/51] fix: remove the stray closing brace from the LaTeX form
 of ln

---
 stator/symbolic/unary_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/unary_ops.hpp b/stator/symbolic/unary_ops.hpp
index a0ef12e..b02724e 100644
--- a/stator/symbolic/unary_ops.hpp
+++ b/stator/symbolic/unary_ops.hpp
@@ -77,7 +77,7 @@ namespace sym {
       static inline std::string l_repr()       { return "ln "; }
       static inline std::string r_repr()       { return ""; }
       static inline std::string l_latex_repr() { return "\\ln "; }
-      static inline std::string r_latex_repr() { return "}"; }
+      static inline std::string r_latex_repr() { return ""; }
       static constexpr int type_index = 4;
     };
 
-- 
2.43.0


From 3556bb850459e9448dafa57306a0953174ad9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 03/51] fix: make the hash of equal dictionaries independent of
 their item order

---
 stator/symbolic/dict.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index aa79cb8..667daba 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -111,10 +111,13 @@ namespace std
   {
     std::size_t operator()(sym::Dict<Key, Value> const& v) const noexcept
     {
+      //Items are summed, as equal dictionaries may iterate in different orders
       std::size_t seed = 16;
       for (const auto& item : v) {
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	std::size_t item_seed = 0;
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	seed += item_seed;
       }
       return seed;
     }
-- 
2.43.0


From 714e78fbaf3af7b71cdb1bd807495cf6cbf36a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 04/51] fix: operand order of the reflected Python subtraction
 and division

---
 pysrc/stator/core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index c2a9a35..d1bdf70 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -77,13 +77,13 @@ PYBIND11_MODULE(core, m)
     .def("__add__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__radd__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__sub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
-    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
+    .def("__rsub__", +[](const sym::Expr& r, const sym::Expr& l) { return to_python(l-r); })
     .def("__mul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__rmul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__div__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rdiv__", +[](const sym::Expr& r, const sym::Expr& l) { return to_python(l/r); })
     .def("__truediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rtruediv__", +[](const sym::Expr& r, const sym::Expr& l) { return to_python(l/r); })
     .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; })
     .def(py::hash(py::self))
     .def("equal", +[](const sym::Expr& l, const sym::Expr& r) { return equality(l, r); })
-- 
2.43.0


From b22c98b4b32d1332efd37738fe634051c113f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 05/51] fix: parenthesise nested powers/equalities and negative
 constants where printing them bare changes the meaning

---
 stator/symbolic/binary_ops.hpp |  5 ++++-
 stator/symbolic/constants.hpp  | 23 +++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 753e2d9..88602b2 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -452,7 +452,10 @@ namespace sym {
     const auto RHS_BP  = BP(op._r);
 
     std::string LHS_repr = repr<Config>(op._l);
-    if (LHS_BP.second < this_BP.first || Config::Force_parenthesis)
+    //The left operand of a right-associative operator also needs
+    //parenthesis if it is the same operator, e.g. (x^y)^z
+    const bool right_assoc = Op::associativity == detail::Associativity::RIGHT;
+    if (LHS_BP.second < this_BP.first + right_assoc || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index ca8a954..939a8b3 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -232,9 +232,28 @@ namespace sym {
   /*! \brief Returns the binding powers for constants.
       
     Arguments that cannot be split, like constants have very high
-    binding powers internally as they cannot be split.
+    binding powers internally as they cannot be split. Negative
+    constants are the exception, as they are written with a prefix
+    minus sign: like negation, anything binding more tightly than
+    addition on their left, or multiplication on their right, would
+    claim (part of) them.
   */
   template<class T, typename = typename std::enable_if<detail::IsConstant<T>::value>::type>
   std::pair<int, int> BP(const T& v)
-  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+  {
+    if constexpr (std::is_floating_point<T>::value || std::is_integral<T>::value) {
+      if (v < T() || (std::is_floating_point<T>::value && std::signbit(double(v))))
+        return std::make_pair(21, 30);
+    }
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
+
+  template<std::intmax_t Num, std::intmax_t Denom>
+  std::pair<int, int> BP(const C<Num, Denom>& v)
+  {
+    //Fractions are printed with their own parenthesis
+    if ((Num < 0) && (Denom == 1))
+      return std::make_pair(21, 30);
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
 }
-- 
2.43.0


From cbd8b936d478828cc1665911387b7f5ab7981640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 06/51] fix: endless recursion when differentiating units,
 uncertainties and dictionaries

---
 stator/symbolic/runtime.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c2d9263..3856f67 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -968,6 +968,24 @@ namespace sym
         return Expr(derivative(v, _var));
       }
 
+      //Units are constant, so only the quantity is differentiated
+      Expr apply(const UnitsOp<Expr, Expr> &v)
+      {
+        return Expr(units(Expr(v._l->visit(*this)), v._r));
+      }
+
+      //The remaining types have no derivative rule. Without these
+      //overloads they convert back to Expr and recurse forever.
+      Expr apply(const UncertaintyOp<Expr, Expr> &v)
+      {
+        stator_throw() << "No derivative available for " << repr(v);
+      }
+
+      Expr apply(const DictRT &v)
+      {
+        stator_throw() << "No derivative available for " << repr(v);
+      }
+
       const VarRT &_var;
     };
   }
-- 
2.43.0


From f59fad0e3681abd0a8daf29e238ab4ab2715a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 07/51] fix: substitute inside the values of dictionaries

---
 stator/symbolic/runtime.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 3856f67..bf0883f 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -787,6 +787,20 @@ namespace sym
         return (_replaced) ? ret_ptr : Expr();
       }
 
+      //Substitution acts on the values of a dictionary, its keys are names
+      Expr apply(const DictRT &v)
+      {
+        auto ret_ptr = DictRT::create();
+        bool replaced = false;
+        for (const auto &item : v)
+        {
+          Expr t = item.second->visit(*this);
+          replaced = replaced || bool(t);
+          (*ret_ptr)[item.first] = t ? t : item.second;
+        }
+        return replaced ? Expr(ret_ptr) : Expr();
+      }
+
       template <typename Op>
       Expr apply(const UnaryOp<Expr, Op> &op)
       {
@@ -879,6 +893,20 @@ namespace sym
         return (_replaced) ? ret_ptr : Expr();
       }
 
+      //Substitution acts on the values of a dictionary, its keys are names
+      Expr apply(const DictRT &v)
+      {
+        auto ret_ptr = DictRT::create();
+        bool replaced = false;
+        for (const auto &item : v)
+        {
+          Expr t = item.second->visit(*this);
+          replaced = replaced || bool(t);
+          (*ret_ptr)[item.first] = t ? t : item.second;
+        }
+        return replaced ? Expr(ret_ptr) : Expr();
+      }
+
       template <typename Op>
       Expr apply(const UnaryOp<Expr, Op> &op)
       {
-- 
2.43.0


From e3eb5cd2d297f5175045d6baf616ba77f58579f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 08/51] fix: endless recursion when printing an operator with a
 dictionary operand

---
 stator/symbolic/dict.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index 667daba..0de201c 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -102,6 +102,12 @@ namespace sym {
     
     return out.substr(0, out.size() - 2) + end;
   }
+
+  template<class... Args>
+  std::pair<int, int> BP(const Dict<Args...>&)
+  {
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
 }
 
 
-- 
2.43.0


From 2d584c2cc07201c49052cdebf1835a5281f1366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 09/51] fix: endless recursion when simplifying an equality,
 power, unit or uncertainty of two lists

---
 stator/symbolic/runtime.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index bf0883f..9525dbc 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -639,6 +639,10 @@ namespace sym
       {
         //First carry out the operation, but preserve the type information
         auto res_ptr = Op::apply(l, r);
+        //Operators without an elementwise form (e.g. equality, power)
+        //only build themselves again, so there is nothing to simplify
+        if (!dynamic_cast<const ArrayRT *>(res_ptr.get()))
+          return Expr();
         //Then apply the ArrayRT simplify to continue the simplification/computation of arguments
         Expr res2 = simplify(*res_ptr);
         //Then return the general expression
-- 
2.43.0


From 0b56843dfd56dc6719a939d0b9ef182c6b3c87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 10/51] fix: do not merge products of polynomials in different
 variables

---
 stator/symbolic/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 406269a..d1230ad 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -390,7 +390,8 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, size_t N,
 	   class PolyVar1, class PolyVar2, class Op,
-	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type>
+	   typename = typename std::enable_if<std::is_same<Op,detail::Multiply>::value>::type,
+	   typename = typename enable_if_var_eq<PolyVar1, PolyVar2>::type>
     auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, Op, Polynomial<N, Real2, PolyVar2>>& f)
     -> Polynomial<M + N, decltype(store(Op::apply(f._l[0], f._r[0]))), PolyVar1>
   {
-- 
2.43.0


From e5552283ef1d6301ac470ae199015d84b722a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 11/51] fix: sign of a polynomial with vanishing leading
 coefficients at minus infinity

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 837c3a6..739812d 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -242,7 +242,7 @@ namespace sym {
 	for(size_t i = Order; i > 0; --i)
 	  if (f[i] != empty_sum(f[0])) {
 	    //Determine if this is an odd or even function of x
-	    if (Order % 2)
+	    if (i % 2)
 	      //This is an odd function of x, the sign of x matters
 	      return f[i] * x;
 	    else
-- 
2.43.0


From 9bb59a265198d80d800bb61f55edb97e3903d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 12/51] fix: deflate_polynomial ran out of bounds for linear
 polynomials

---
 stator/symbolic/polynomial.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 739812d..226e196 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -711,15 +711,16 @@ namespace sym {
     b[Order-1] = a[Order];
     b[0] = - a[0] / root;
 
-    size_t i_t = Order-2;
+    //The coefficients in [i_b, i_t) are still to be determined
+    size_t i_t = Order-1;
     size_t i_b = 1;
-    while (i_t >= i_b) {
-	const Coeff_t d = root * b[i_t + 1];	
-	if (subtraction_precision(b[i_b], a[i_b]) > addition_precision(a[i_t+1], d)) {
+    while (i_t > i_b) {
+	const Coeff_t d = root * b[i_t];	
+	if (subtraction_precision(b[i_b], a[i_b]) > addition_precision(a[i_t], d)) {
 	  b[i_b] = (b[i_b-1] - a[i_b]) / root;
 	  ++i_b;
 	} else {
-	  b[i_t] = a[i_t+1] + d;
+	  b[i_t-1] = a[i_t] + d;
 	  --i_t;
 	}
     }
-- 
2.43.0


From 4375f9210c1ca806d1e1445600c989c9fb1b674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 13/51] fix: deflate_polynomial judged the cancellation of the
 wrong term and lost small roots' cofactors

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 226e196..9665b35 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -716,7 +716,7 @@ namespace sym {
     size_t i_b = 1;
     while (i_t > i_b) {
 	const Coeff_t d = root * b[i_t];	
-	if (subtraction_precision(b[i_b], a[i_b]) > addition_precision(a[i_t], d)) {
+	if (subtraction_precision(b[i_b-1], a[i_b]) > addition_precision(a[i_t], d)) {
 	  b[i_b] = (b[i_b-1] - a[i_b]) / root;
 	  ++i_b;
 	} else {
-- 
2.43.0


From b5b36cf446b0dec23a3c986968982c80e31920ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 14/51] fix: return the double root at zero of a quadratic
 once, as any other double root

---
 stator/symbolic/polynomial.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 9665b35..04b51c5 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -790,9 +790,13 @@ namespace sym {
     //Scale the constant of x^2 to 1
     f = expand(f / f[2]);
     
-    if (f[0] == 0)
+    if (f[0] == 0) {
 	//There is no constant term, so we actually have x^2 + f[1] * x = 0
+	if (f[1] == 0)
+	  //Double root at zero
+	  return StackVector<double, 2>{0.0};
 	return StackVector<double, 2>{std::min(-f[1], 0.0), std::max(-f[1], 0.0)};
+    }
     
     static const double maxSqrt = std::sqrt(std::numeric_limits<double>::max());
     if (std::abs(f[1]) > maxSqrt) {
-- 
2.43.0


From b428acc02e559b9282a87fd3eadcc7a7c4d37892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 15/51] fix: cubic lost roots much smaller than its largest
 root

---
 stator/symbolic/polynomial.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 04b51c5..033a341 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -998,6 +998,18 @@ namespace sym {
     roots.push_back(s * (-cosk + rt3sink) - f[2] / 3.0);
     roots.push_back(s * (-cosk - rt3sink) - f[2] / 3.0);
 
+    //If the roots differ greatly in magnitude, the small ones are lost
+    //to cancellation in the expressions above (they might not even be
+    //real). Only the largest root is then reliable, so polish it and
+    //solve for the rest by deflation.
+    auto abs_less = [](double a, double b) { return std::abs(a) < std::abs(b); };
+    double largest = *std::max_element(roots.begin(), roots.end(), abs_less);
+    if (std::abs(*std::min_element(roots.begin(), roots.end(), abs_less)) < 1e-3 * std::abs(largest))
+	{
+	  stator::numeric::halleys_method([&](double x){ return eval_derivatives<2>(f, x); }, largest);
+	  return deflate_and_solve_polynomial(f, largest);
+	}
+
     //We don't test if the polishing fails. Without established
     //bounds polishing is "hard" with multiple real roots, so we
     //just accept a polished root if it is available
-- 
2.43.0


From 9e23ae89751847dd8d585d1e11d75fd77cfe1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 16/51] fix: overflow when solving cubics with very large or
 small roots

---
 stator/symbolic/polynomial.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 033a341..a3cbb92 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -878,6 +878,20 @@ namespace sym {
 	//Special case where f(x) = x^3 + f[0]
 	return StackVector<double, 3>{std::cbrt(-f[0])};
 
+    //If the roots are so large (or small) that the terms below might
+    //overflow (or underflow), solve for x scaled by a power of two
+    //(as long as no coefficient is lost in doing so).
+    int scale;
+    std::frexp(std::max(std::max(std::abs(f[2]), std::sqrt(std::abs(f[1]))), std::cbrt(std::abs(f[0]))), &scale);
+    const double scaled_f0 = std::ldexp(f[0], -3 * scale), scaled_f1 = std::ldexp(f[1], -2 * scale);
+    if ((std::abs(scale) > 100) && std::isnormal(scaled_f0) && ((f[1] == 0) || std::isnormal(scaled_f1)))
+	{
+	  auto scaled_roots = solve_real_roots(Polynomial<3, double, PolyVar>{scaled_f0, scaled_f1, std::ldexp(f[2], -scale), 1.0});
+	  for (auto& root : scaled_roots)
+	    root = std::ldexp(root, scale);
+	  return scaled_roots;
+	}
+
     static const double maxSqrt = std::sqrt(std::numeric_limits<double>::max());
     
     if ((f[2] > maxSqrt) || (f[2] < -maxSqrt))
-- 
2.43.0


From 3dd48032d39b3c038ebf2ebb7e23510be9e94536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 17/51] fix: solve_real_roots lost the root at zero of
 polynomials of order five and above

---
 stator/symbolic/polynomial.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index a3cbb92..95e3a30 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1901,7 +1901,14 @@ namespace sym {
     //Handle special cases 
     //The constant coefficient is zero: deflate the polynomial
     if (f[0] == Coeff_t())
-	return solve_real_roots(deflate_polynomial(f, Null()));
+	{
+	  StackVector<Coeff_t, Order> roots = solve_real_roots(deflate_polynomial(f, Null()));
+	  //Add the root at zero (unless it is a multiple root)
+	  if (std::find(roots.begin(), roots.end(), Coeff_t()) == roots.end())
+	    roots.push_back(Coeff_t());
+	  std::sort(roots.begin(), roots.end());
+	  return roots;
+	}
     
     //The highest order coefficient is zero: drop to lower order
     //solvers
-- 
2.43.0


From 905b89836fe04fc50b1d19778ba27cf78b4ef9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 18/51] fix: VCA and VAS root bounding lost roots lying at (or
 near) the points where they divide the range

---
 stator/symbolic/polynomial.hpp | 46 +++++++++++++---------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 95e3a30..e29c92f 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1397,42 +1397,32 @@ namespace sym {
 	return StackVector<std::pair<Coeff_t,Coeff_t>, Order>{std::make_pair(Coeff_t(0), Coeff_t(1))};
     default:
 	//Possibly multiple roots, so divide the range [0,1] in half
-	//and recursively explore it.
-
-	//We first scale the polynomial so that the original range
-	//x=[0,1] is scaled to the range x=[0,2]. To do this, we
-	//perform the subsitution x->x/2. Rather than use division
-	//(even though a division by 2 usually cheap), we actually
-	//generate this function \f$p1(x) = 2^{Order}\,f(x/2)\f$. This
-	//transforms this to a multiplication op which is always cheap.
-	Polynomial<Order, Coeff_t, PolyVar> p1(f);
-	for (size_t i(0); i <= Order; ++i)
-	  p1[i] *= (1 << (Order-i)); //This gives (2^Order) / (2^i)
-
-	//Perform a Taylor shift p2(x) = p1(x+1). This gives 
-	//
-	//p2(x) = 2^Order f(x/2 + 0.5) 
-	//
-	//in terms of the original function, f(x).
-	const Polynomial<Order, Coeff_t, PolyVar> p2 = shift_function(p1, Unity());
-
-	//Now that we have two scaled and shifted polynomials where
-	//the roots in f in the range x=[0,0.5] are in p1 over the
-	//range \f$x=[0,1]\f$, and the roots of f in the range
-	//x=[0.5,1.0] are in p2 over the range \f$x=[0,1]\f$. Search
-	//them both and combine the results.
+	//and recursively explore it. A root at the point of division
+	//would be missed as it is in neither of the (open) ranges, so
+	//move that point if it is close to a root (compared to the
+	//precision of the polynomial evaluation).
+	Coeff_t mid(0.5);
+	for (size_t i(0); (i <= Order) && (std::abs(sub(f, PolyVar() = mid)) <= 1e6 * precision(f, mid)); ++i)
+	  mid *= Coeff_t(0.95);
+
+	//The roots in f in the range x=[0,mid] are in p1 over the range
+	//\f$x=[0,1]\f$, and the roots of f in the range x=[mid,1.0]
+	//are in p2 over the range \f$x=[0,1]\f$. Search them both and
+	//combine the results.
+	const Polynomial<Order, Coeff_t, PolyVar> p1 = scale_poly(f, mid);
+	const Polynomial<Order, Coeff_t, PolyVar> p2 = scale_poly(shift_function(f, mid), 1 - mid);
 
 	auto retval = VCA_real_root_bounds_worker(p1);
 	//Scale these roots back to the original mapping
 	for (auto& root_bound : retval) {
-	  root_bound.first /= 2;
-	  root_bound.second /= 2;
+	  root_bound.first *= mid;
+	  root_bound.second *= mid;
 	}
 
 	auto second_range = VCA_real_root_bounds_worker(p2);
 	//Scale these roots back to the original mapping
 	for (auto& root_bound : second_range)
-	  retval.push_back(std::make_pair(root_bound.first / 2 + 0.5, root_bound.second / 2 + 0.5));
+	  retval.push_back(std::make_pair(root_bound.first * (1 - mid) + mid, root_bound.second * (1 - mid) + mid));
 	
 	return retval;
     }
@@ -1595,7 +1585,7 @@ namespace sym {
 	  continue; //Start again
 	}
 
-	if (std::abs(sub(f, PolyVar() = 1.0)) <= (100 * precision(f, 1.0))) {
+	if (std::abs(sub(f, PolyVar() = 1.0)) <= (1e6 * precision(f, 1.0))) {
 	  //There is probably a root near x=1.0 as its approached zero
 	  //closely (compared to the precision of the polynomial
 	  //evaluation). Rather than trying to divide it out or do
-- 
2.43.0


From 0fc3e715c13af95f14b56b63c86e040141adf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 19/51] fix: Sturm chains took rounding errors for high-order
 terms and then miscounted roots

---
 stator/symbolic/polynomial.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index e29c92f..3ce0ae1 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1043,8 +1043,25 @@ namespace sym {
     Polynomial<Order-2, Coeff_t, PolyVar> 
 	mrem(const Polynomial<Order, Coeff_t, PolyVar>& f, const Polynomial<Order-1, Coeff_t, PolyVar>&g)
     {
+	Polynomial<Order, Coeff_t, PolyVar> quot;
 	Polynomial<Order-2, Coeff_t, PolyVar> rem;
-	std::tie(std::ignore, rem) = gcd(f, g);
+	std::tie(quot, rem) = gcd(f, g);
+	//If the high-order coefficients have cancelled out, the rounding
+	//error left must not be taken for the highest-order term.
+	auto is_rounding_error = [&](size_t i) {
+	  Coeff_t sum = std::abs(f[i]);
+	  for (size_t j(0); j <= i; ++j)
+	    sum += std::abs(quot[j] * g[i - j]);
+	  return std::abs(rem[i]) <= 1024 * std::numeric_limits<Coeff_t>::epsilon() * sum;
+	};
+
+	size_t order = Order - 2;
+	while (order && is_rounding_error(order))
+	  --order;
+
+	if (!is_rounding_error(order))
+	  for (size_t i(order + 1); i <= Order - 2; ++i)
+	    rem[i] = Coeff_t();
 	return -rem;
     }
 
-- 
2.43.0


From 1d0c5ef4e1daec3a00500a4d52b1dceaee456f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 20/51] fix: iteration, printing and comparison of arrays with
 fixed-size stores included the unused elements

---
 stator/symbolic/array.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index d07595b..42b4086 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <stator/symbolic/symbolic.hpp>
+#include <algorithm> // For std::equal
 #include <iterator> // For std::forward_iterator_tag
 #include <cstddef>  // For std::ptrdiff_t
 
@@ -108,13 +109,13 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin(), ad.end());
     }
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    auto end() const { return Base::_store.begin() + end_offset(); }
+    auto end() { return Base::_store.begin() + end_offset(); }
 
     void resize(const Coords &d)
     {
@@ -148,6 +149,9 @@ namespace sym
     }
 
     size_t size() const { return _dimension; }
+
+    //Only the first size() elements of a fixed-size store are in use
+    size_t end_offset() const { return (StoreSize == -1u) ? Base::_store.size() : size(); }
     bool empty() const { return _dimension == 0; }
   };
 
@@ -175,8 +179,8 @@ namespace sym
 
     auto begin() const { return Base::_store.begin(); }
     auto begin() { return Base::_store.begin(); }
-    auto end() const { return Base::_store.end(); }
-    auto end() { return Base::_store.end(); }
+    auto end() const { return Base::_store.begin() + end_offset(); }
+    auto end() { return Base::_store.begin() + end_offset(); }
 
     Coords getDimensions() const { return _dimensions; }
 
@@ -203,7 +207,7 @@ namespace sym
     template <class... Args>
     bool operator==(const Addressing<Args...> &ad) const
     {
-      return (ad.getDimensions() == getDimensions()) && (ad._store == Base::_store);
+      return (ad.getDimensions() == getDimensions()) && std::equal(begin(), end(), ad.begin(), ad.end());
     }
 
     void resize(const Coords &d)
@@ -222,6 +226,9 @@ namespace sym
       return store_size();
     }
 
+    //Only the first size() elements of a fixed-size store are in use
+    size_t end_offset() const { return (StoreSize == -1u) ? Base::_store.size() : size(); }
+
     bool empty() const { return store_size() == 0; }
 
     size_t store_size() const
-- 
2.43.0


From a40e234126a7f54ea90feb9711f64c4747259335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 21/51] fix: StackVector comparisons and swap included or lost
 the unused storage

---
 stator/orphan/stack_vector.hpp | 38 ++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/stator/orphan/stack_vector.hpp b/stator/orphan/stack_vector.hpp
index 01b6fa5..001d3ed 100644
--- a/stator/orphan/stack_vector.hpp
+++ b/stator/orphan/stack_vector.hpp
@@ -20,6 +20,7 @@
 #pragma once
 
 // C++
+#include <algorithm>
 #include <array>
 #include <ostream>
 
@@ -137,11 +138,48 @@ namespace stator {
 	  push_back(a);
       }
       
+      /*! \brief Exchange the contents (and sizes) of two containers.*/
+      void swap(StackVector& ovec) {
+	Base::swap(ovec);
+	std::swap(_size, ovec._size);
+      }
+
     private:
       /*! The number of elements stored in the StackVector. */
       size_t _size;
     };
 
+    /*! \name Comparison of the stored elements only.
+      
+      The comparisons of the std::array base class would include the
+      unused storage.
+      \{
+    */
+    template<class T, size_t Nmax>
+    bool operator==(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return std::equal(l.begin(), l.end(), r.begin(), r.end()); }
+
+    template<class T, size_t Nmax>
+    bool operator!=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(l == r); }
+
+    template<class T, size_t Nmax>
+    bool operator<(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end()); }
+
+    template<class T, size_t Nmax>
+    bool operator>(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return r < l; }
+
+    template<class T, size_t Nmax>
+    bool operator<=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(r < l); }
+
+    template<class T, size_t Nmax>
+    bool operator>=(const StackVector<T,Nmax>& l, const StackVector<T,Nmax>& r)
+    { return !(l < r); }
+    /*! \} */
+
     /*! Output operator for pretty printing StackVector classes. */
     template<class T, size_t Nmax>
     std::ostream& operator<<(std::ostream& os, const StackVector<T,Nmax>&s) {
-- 
2.43.0


From dd31f3e15e3218775246b3078dc522260778e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 22/51] fix: search_replace never returned for an empty search
 pattern

---
 stator/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/string.hpp b/stator/string.hpp
index 5b8c089..e70a3de 100644
--- a/stator/string.hpp
+++ b/stator/string.hpp
@@ -69,7 +69,7 @@ namespace stator {
   inline std::pair<std::string, size_t> search_replace(std::string in, const std::string& from, const std::string& to)
   {
     size_t replacements = 0;
-    if (!in.empty())
+    if (!in.empty() && !from.empty())
       {
 	std::string::size_type toLen = to.length();
 	std::string::size_type frLen = from.length();
-- 
2.43.0


From 98f61caf96f3ad384da9f0645cbcdde7f5b7d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:52 +0000
Subject: [PATCH 23/51] fix: surface area of axis-aligned boxes was wrong
 except in three dimensions

---
 stator/geometry/box.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stator/geometry/box.hpp b/stator/geometry/box.hpp
index eb8a627..6f99a64 100644
--- a/stator/geometry/box.hpp
+++ b/stator/geometry/box.hpp
@@ -59,14 +59,21 @@ namespace stator {
       return measure;
     }
 
-    /*! \brief Calculate the surface area of an Axis-Aligned Box.*/
+    /*! \brief Calculate the surface area of an Axis-Aligned Box.
+
+      This is twice the sum of the measures of the faces, each spanned
+      by all but one of the dimensions. */
     template<typename Scalar, size_t D>
     Scalar area(const AABox<Scalar, D>& bb) {
       auto extent = bb.dimensions();
       Scalar measure = 0;
-      for (size_t i(0); i < D; ++i)
-        for (size_t j(i+1); j < D; ++j)
-          measure += extent[i] * extent[j];
+      for (size_t i(0); i < D; ++i) {
+        Scalar face = 1;
+        for (size_t j(0); j < D; ++j)
+          if (j != i)
+            face *= extent[j];
+        measure += face;
+      }
       return 2 * measure;
     }
   } // namespace geometry
-- 
2.43.0


From ddd4054b95154be1c3605c6568b13bc9f888e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 24/51] fix: iterative refinement reported convergence away
 from roots and looped on NaN

---
 stator/symbolic/numeric.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3484956..22b6d1d 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -37,9 +37,9 @@ namespace stator {
 	//std::cout << "new_x = " << new_x << std::endl;
 	//std::cout << "[" << low_bound << "," << high_bound << "]" << std::endl;
 
-	if ((new_x >= high_bound) || (new_x <= low_bound)) {
+	if (!((new_x < high_bound) && (new_x > low_bound))) {
 	  //std::cout << "Out of bounds" << std::endl;
-	  //Out of bounds step, failed!
+	  //Out of bounds (or NaN) step, failed!
 	  return 0;
 	}
 	
@@ -58,9 +58,9 @@ namespace stator {
 	}
 	
 	//Check if the function has increased
-	if (std::abs(new_state[0]) > std::abs(curr_state[0])) {
+	if (!(std::abs(new_state[0]) <= std::abs(curr_state[0]))) {
 	  //std::cout << "Function increased!" << std::endl;
-	  //The function increased! method has failed
+	  //The function increased (or is NaN)! method has failed
 	  return 0;
 	}
 
@@ -88,9 +88,10 @@ namespace stator {
       static_assert(Derivatives >= 1, "Can only perform newton raphson if at least 1 derivative is available");
 
       //std::cout << "NR Method" << std::endl;
-      if (curr_state[1] == 0) {
+      if ((curr_state[1] == 0) || !std::isfinite(curr_state[1])) {
 	//std::cout << "Zero derivative!" << std::endl;
-	//Zero derivatives cause x to diverge, so abort
+	//Zero derivatives cause x to diverge, and steps of zero size
+	//(from overflowed derivatives) look converged, so abort
 	return 0;
       }
 
@@ -128,7 +129,15 @@ namespace stator {
 	return 0;
       }
 
-      return detail::process_iterative_step(f, curr_state, x, x + delta, low_bound, high_bound, x_precision);
+      const Real new_x = x + delta;
+      if ((std::abs(new_x - x) < std::abs(x_precision * new_x)) && (std::abs(deltaNR) > 2 * std::abs(delta))) {
+	//The Halley step vanishes at stationary points where the Newton
+	//Raphson step diverges. Fail so that this is not mistaken for
+	//convergence.
+	return 0;
+      }
+
+      return detail::process_iterative_step(f, curr_state, x, new_x, low_bound, high_bound, x_precision);
     }
 
     /*! \brief A single step of Schroeder's method for finding roots.
@@ -167,7 +176,9 @@ namespace stator {
 
       //std::cout << "new_x = " << x_mid << std::endl;
 
-      Real delta = x_mid - x;
+      //The root is somewhere in the interval, the distance to the
+      //current estimate x does not limit the error.
+      Real delta = (high_bound - low_bound) / 2;
       
       if (//Check if the precision has been reached
 	  (std::abs(delta) < std::abs(x_precision * x_mid))
-- 
2.43.0


From c696804b8f6251cb66b817b551d4cae653186c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 25/51] fix: LaTeX form of uncertainties ran the plus-minus
 sign into a following name

---
 stator/symbolic/uncertainty.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/uncertainty.hpp b/stator/symbolic/uncertainty.hpp
index f91a37d..bfa79e9 100644
--- a/stator/symbolic/uncertainty.hpp
+++ b/stator/symbolic/uncertainty.hpp
@@ -50,7 +50,7 @@ namespace sym
       static inline std::string repr() { return "±"; }
       static inline std::string r_repr() { return ""; }
       static inline std::string l_latex_repr() { return ""; }
-      static inline std::string latex_repr() { return "\\pm"; }
+      static inline std::string latex_repr() { return "\\pm "; }
       static inline std::string r_latex_repr() { return ""; }
       template <class L, class R>
       static auto apply(const L &l, const R &r)
-- 
2.43.0


From 0c25e7a06ffea7c342622648215cc71a5c256002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 26/51] fix: LaTeX form of powers wrote double superscripts for
 exponentials and numbers with exponents

---
 stator/symbolic/binary_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 88602b2..e1ee034 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -455,7 +455,11 @@ namespace sym {
     //The left operand of a right-associative operator also needs
     //parenthesis if it is the same operator, e.g. (x^y)^z
     const bool right_assoc = Op::associativity == detail::Associativity::RIGHT;
-    if (LHS_BP.second < this_BP.first + right_assoc || Config::Force_parenthesis)
+    //LaTeX cannot raise something which already ends in a superscript
+    //(e.g. an exponential or a number with an exponent)
+    const bool double_superscript = Config::Latex_output && std::is_same<Op, detail::Power>::value
+      && !LHS_repr.empty() && (LHS_repr.back() == '}');
+    if (LHS_BP.second < this_BP.first + right_assoc || double_superscript || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From b8731742f69452cfd3fe5b51f40eb420a1dd0cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 27/51] fix: automatic differentiation of runtime variables

Comparing a runtime variable with the compile-time variable of the
substitution needs its protected converting constructor, so ad() of any
Expr failed to compile. Compare the names.
---
 stator/symbolic/ad.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 1c65049..88f28c9 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -36,7 +36,7 @@ namespace sym {
   template<size_t Nd, conststr N1, typename Var_t, typename Arg_t>
   Eigen::Matrix<double, Nd+1,1> ad(const Var<N1>& v, const EqualityOp<Var_t, Arg_t>& r) {
     Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
-    if ((v == r._l)) {
+    if (v.getName() == r._l.getName()) {
       result[0] = r._r;
       if (Nd > 0) result[1] = 1.0;
     } else
-- 
2.43.0


From 884459bf5d6b605eb8add4ca450d2bd6340b8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 28/51] fix: automatic differentiation of runtime negation and
 unsupported operators

Operators without an ad() overload converted implicitly back to an Expr
and recursed until the stack overflowed. Add the rule for negation and
throw for the operators which have none.
---
 stator/symbolic/ad.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 88f28c9..08a984c 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -159,6 +159,11 @@ namespace sym {
     return cos;
   }
 
+  template<size_t Nd, typename Arg, typename Var_t, typename Arg_t>
+  Eigen::Matrix<double, Nd+1,1> ad(const UnaryOp<Arg, detail::Negate>& op, const EqualityOp<Var_t, Arg_t>& sub) {
+    return -ad<Nd>(op._arg, sub);
+  }
+
   namespace detail {
     template<size_t Nd, typename LHS_t, typename Var_t, typename Arg_t>
     Eigen::Matrix<double, Nd+1,1> ad_pow(const LHS_t& lhs, const double& a, const EqualityOp<Var_t, Arg_t>& sub) {
@@ -236,10 +241,28 @@ namespace sym {
       
       const Relation& _rel;
       
+      typedef Eigen::Matrix<double, Nd+1,1> result_type;
+
       template<class T>
-      Eigen::Matrix<double, Nd+1,1> apply(const T& v) {
+      result_type apply(const T& v) {
   	return ad<Nd>(v, _rel);
       }
+
+      //These have no differentiation rule. Without these overloads, the
+      //implicit conversion back to an Expr recurses without end.
+      result_type apply(const UnaryOp<Expr, detail::Absolute>& v) { return unsupported(v); }
+      result_type apply(const UnaryOp<Expr, detail::Arbsign>& v) { return unsupported(v); }
+      result_type apply(const BinaryOp<Expr, detail::Equality, Expr>& v) { return unsupported(v); }
+      result_type apply(const BinaryOp<Expr, detail::ArrayAccess, Expr>& v) { return unsupported(v); }
+      result_type apply(const BinaryOp<Expr, detail::Units, Expr>& v) { return unsupported(v); }
+      result_type apply(const BinaryOp<Expr, detail::Uncertainty, Expr>& v) { return unsupported(v); }
+      result_type apply(const ArrayRT& v) { return unsupported(v); }
+      result_type apply(const DictRT& v) { return unsupported(v); }
+
+      template<class T>
+      result_type unsupported(const T& v) {
+	stator_throw() << "Automatic differentiation is not defined for \"" << repr(v) << "\"";
+      }
     };
   }
     
-- 
2.43.0


From ce8f4aac03addd191afaaea755f8ab1316895530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 29/51] fix: automatic differentiation of powers at zero and
 with constant exponents

The recurrence divides by the value of the base, so x^2 at x=0 gave NaN
derivatives; the general rule takes the logarithm of the base even if
the exponent is only a constant expression.
---
 stator/symbolic/ad.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/ad.hpp b/stator/symbolic/ad.hpp
index 08a984c..8a63607 100644
--- a/stator/symbolic/ad.hpp
+++ b/stator/symbolic/ad.hpp
@@ -171,6 +171,22 @@ namespace sym {
       Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
     
       result[0] = std::pow(g[0], a);
+
+      //The recurrence divides by g[0], so powers which are regular at
+      //zero are multiplied out instead. A product of more than Nd
+      //terms vanishing at this point has only zero derivatives.
+      if ((g[0] == 0) && (a >= 0) && (a == std::floor(a))) {
+	if (a > Nd)
+	  return result;
+	for (size_t n(0); n < size_t(a); ++n)
+	  for (size_t k(Nd + 1); k-- > 0;) {
+	    double sum = 0;
+	    for (size_t i(0); i <= k; ++i)
+	      sum += g[i] * ((n > 0) ? result[k - i] : double(k == i));
+	    result[k] = sum;
+	  }
+	return result;
+      }
     
       for (size_t k(1); k < Nd+1; ++k) {
 	for (size_t i(1); i <= k; ++i)
@@ -183,8 +199,13 @@ namespace sym {
 
     template<size_t Nd, typename LHS_t, typename RHS_t, typename Var_t, typename Arg_t>
     Eigen::Matrix<double, Nd+1,1> ad_pow(const LHS_t& lhs, const RHS_t& rhs, const EqualityOp<Var_t, Arg_t>& sub) {
-      Eigen::Matrix<double, Nd+1,1> f = ad<Nd>(lhs, sub);
       Eigen::Matrix<double, Nd+1,1> g = ad<Nd>(rhs, sub);
+
+      //A constant exponent is also defined for bases which have no logarithm
+      if (g.tail(Nd).isZero(0))
+	return ad_pow<Nd>(lhs, double(g[0]), sub);
+
+      Eigen::Matrix<double, Nd+1,1> f = ad<Nd>(lhs, sub);
       Eigen::Matrix<double, Nd+1,1> lnf = ad<Nd>(sym::log(lhs), sub);
       Eigen::Matrix<double, Nd+1,1> result = Eigen::Matrix<double, Nd+1,1>::Zero();
     
-- 
2.43.0


From 53a532a8435a17f2d70c8681634801e688b9e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 30/51] fix: simplification of powers which cannot be
 multiplied out

simplify() of a power of a function, or a negative or zeroth power, was
a hard error instead of a substitution failure, so even try_simplify()
did not compile.
---
 stator/symbolic/simplify.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index d1230ad..9b9d1cb 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -228,9 +228,8 @@ namespace sym {
    */
   template<class Config = DefaultSimplifyConfig, class Arg, std::intmax_t Power,
 	     typename = typename std::enable_if<PowerOpEnableExpansion<Arg>::value>::type>
-  auto simplify(const PowerOp<Arg, C<Power, 1> >& f) {
-    return simplify_powerop_impl<Config>(f, detail::select_overload{});
-  }
+  auto simplify(const PowerOp<Arg, C<Power, 1> >& f)
+    -> STATOR_AUTORETURN(simplify_powerop_impl<Config>(f, detail::select_overload{}));
 
   
   //Implement other simplifications at least at choice<5> or above, reordering should be a last case option!
-- 
2.43.0


From 1964f9cf30374a69b5410cf7afdf8e9c70df2d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 31/51] fix: expanding the quotient of a polynomial by an
 integer truncated its coefficients

---
 stator/symbolic/simplify.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index 9b9d1cb..b624af3 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -401,15 +401,30 @@ namespace sym {
     return retval;
   }
 
+  namespace detail {
+    /*! \brief Division of polynomial coefficients.
+
+      Integer coefficients are just a compact representation of whole
+      numbers, thus they must not be truncated by division.
+     */
+    template<class L, class R>
+    auto divide_coefficient(const L& l, const R& r) {
+      if constexpr (std::is_integral<L>::value && std::is_integral<R>::value)
+	return double(l) / double(r);
+      else
+	return store(l / r);
+    }
+  }
+
   /*! \brief Division between two Polynomial types.
    */
   template<class Config = DefaultSimplifyConfig, class Real1, class Real2, size_t M, class PolyVar1, class PolyVar2>
   auto simplify(const BinaryOp<Polynomial<M, Real1, PolyVar1>, detail::Divide, Polynomial<0, Real2, PolyVar2>>& f)
-    -> Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1>
+    -> Polynomial<M, decltype(detail::divide_coefficient(f._l[0], f._r[0])), PolyVar1>
   {
-    Polynomial<M, decltype(store(f._l[0] / f._r[0])), PolyVar1> retval;
+    Polynomial<M, decltype(detail::divide_coefficient(f._l[0], f._r[0])), PolyVar1> retval;
     for (size_t i(0); i <= M; ++i)
-  	  retval[i] += f._l[i] / f._r[0];
+  	  retval[i] += detail::divide_coefficient(f._l[i], f._r[0]);
     return retval;
   }
   
-- 
2.43.0


From fc2f6fd04fc3b2d20d546890eda67c2b96f810ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 32/51] fix: powers of compile-time rationals did not compile

---
 stator/symbolic/binary_ops.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index e1ee034..9f0db86 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -335,9 +335,13 @@ namespace sym {
     };
   }
   
-  template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2>
+  template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2,
+	   typename = typename std::enable_if<num2 != 1>::type>
   auto pow(const C<num1, den1>& l, const C<num2,1>& r) {
-    return PowerOpSub<num2>::eval(sub(l, num2));
+    if constexpr (num2 < 0)
+      return Unity() / PowerOpSub<-num2>::eval(l);
+    else
+      return PowerOpSub<num2>::eval(l);
   }
   
   /*! \brief Symbolic equality operator. 
-- 
2.43.0


From 12614a67d699f9bc4e590241c1cba57b31ac3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 33/51] fix: sign of the sine of half-odd multiples of pi

---
 stator/symbolic/constants.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index 939a8b3..69be640 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -183,7 +183,11 @@ namespace sym {
 
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
-  constexpr Unity sin_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
+  constexpr auto sin_Cimpl(const C<num, den>& a, detail::choice<0>) {
+    //The sign alternates between each peak
+    typedef decltype((C<num, den>() - pi() / C<2>()) / pi()) peak;
+    return C<1 - 2 * (peak::num % 2 != 0)>();
+  }
 
   template<std::intmax_t num, std::intmax_t den,
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi>::value>::type>
-- 
2.43.0


From dae56080eff371ab11dd3862fafc456e27d8b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 34/51] fix: sine and cosine of compile-time rationals which
 are no multiple of pi did not compile

---
 stator/symbolic/constants.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index 69be640..9b549dd 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <ratio>
 
 namespace sym {
@@ -197,6 +198,13 @@ namespace sym {
 	   typename = typename std::enable_if<is_whole_factor<std::ratio<num, den>, pi, decltype(pi() / C<2>())>::value>::type>
   constexpr Null cos_Cimpl(const C<num, den>& a, detail::choice<0>) { return {}; }
 
+  //Any other sine or cosine of a rational is irrational, so it becomes a number
+  template<std::intmax_t num, std::intmax_t den>
+  double sin_Cimpl(const C<num, den>& a, detail::choice<1>) { return std::sin(double(a)); }
+
+  template<std::intmax_t num, std::intmax_t den>
+  double cos_Cimpl(const C<num, den>& a, detail::choice<1>) { return std::cos(double(a)); }
+
   template<std::intmax_t num, std::intmax_t den>
   auto sin(const C<num, den>& a) { return sin_Cimpl(a, detail::select_overload{}); }
 
-- 
2.43.0


From 0a8772ac4773239db6036fe0f0d492b8a164ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 35/51] fix: convert fractions whose remainder is not one to
 arithmetic types

The remainder itself was used as a boolean template argument, which is a
narrowing conversion unless it is zero or one: expanding expressions
containing C<2,3> or C<-1,2> did not compile.
---
 stator/symbolic/simplify.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index b624af3..efeb442 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -337,7 +337,7 @@ namespace sym {
   std::intmax_t toArithmetic(C<n1,d1> val) { return n1 / d1; }
   
   template<std::intmax_t n1, std::intmax_t d1, 
-  	     typename = typename std::enable_if<n1 % d1>::type>
+  	     typename = typename std::enable_if<(n1 % d1) != 0>::type>
   double toArithmetic(C<n1,d1> val) { return double(n1) / double(d1); }
 
   template<class Config, std::intmax_t num, std::intmax_t den,
-- 
2.43.0


From 1e3ab6da592f38279da4203b8b4e1b756c5ad110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 36/51] fix: evaluate fractional and floating point powers of
 rational constants

Substituting a rational constant into x^(1/2) or x^0.5 did not compile as
no power operator accepted the pair.
---
 stator/symbolic/binary_ops.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 9f0db86..11ebc17 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -343,6 +343,15 @@ namespace sym {
     else
       return PowerOpSub<num2>::eval(l);
   }
+
+  //Any other powers of rationals are generally irrational, so they become numbers
+  template<std::intmax_t num1, std::intmax_t den1, std::intmax_t num2, std::intmax_t den2,
+	   typename std::enable_if<den2 != 1, bool>::type = true>
+  auto pow(const C<num1, den1>& l, const C<num2, den2>& r) { return pow(double(l), r); }
+
+  template<std::intmax_t num, std::intmax_t den, class RHS,
+	   typename std::enable_if<std::is_arithmetic<RHS>::value, bool>::type = true>
+  auto pow(const C<num, den>& l, const RHS& r) { return std::pow(double(l), r); }
   
   /*! \brief Symbolic equality operator. 
 
-- 
2.43.0


From fa1434b4e6a7bc51b8a9e323c64b5202e427ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 37/51] fix: python integers beyond 32 bits can be combined
 with expressions

---
 pysrc/stator/core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index d1bdf70..51864e3 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -98,4 +98,6 @@ PYBIND11_MODULE(core, m)
   
   py::implicitly_convertible<int, sym::Expr>();
   py::implicitly_convertible<double, sym::Expr>();
+  // Python integers beyond the range of int
+  py::implicitly_convertible<py::int_, sym::Expr>();
 }
-- 
2.43.0


From 122f33c38f8205d67d11bd910eae3c9c92052318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 38/51] fix: comparing an expression with an unrelated python
 object is False, not an exception

---
 pysrc/stator/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index 51864e3..6225584 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -84,7 +84,7 @@ PYBIND11_MODULE(core, m)
     .def("__rdiv__", +[](const sym::Expr& r, const sym::Expr& l) { return to_python(l/r); })
     .def("__truediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
     .def("__rtruediv__", +[](const sym::Expr& r, const sym::Expr& l) { return to_python(l/r); })
-    .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; })
+    .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; }, py::is_operator())
     .def(py::hash(py::self))
     .def("equal", +[](const sym::Expr& l, const sym::Expr& r) { return equality(l, r); })
     .def("debug_form", +[](const sym::Expr& self) { return "Expr('"+sym::repr<stator::ReprConfig<stator::Debug_output>>(self)+"')"; })
-- 
2.43.0


From 0120ac0fceaee948dc3135fe5d9c4e841ab29b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 39/51] fix: nested python lists and dictionaries convert to
 expressions

---
 pysrc/stator/core.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index 6225584..05b6b53 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -42,12 +42,23 @@ py::object to_python(const sym::Expr& b) {
   return simple_b->visit(visitor);
 }
 
+sym::Expr make_Expr(const py::dict& d);
+sym::Expr make_Expr(const py::list& l);
+
+sym::Expr make_Expr(const py::handle& h) {
+  if (py::isinstance<py::dict>(h))
+    return make_Expr(py::reinterpret_borrow<py::dict>(h));
+  if (py::isinstance<py::list>(h))
+    return make_Expr(py::reinterpret_borrow<py::list>(h));
+  return py::cast<sym::Expr>(h);
+}
+
 sym::Expr make_Expr(const py::dict& d) {
   auto out_ptr = sym::DictRT::create();
   auto& out = *out_ptr;
   for (const auto& item : d) {
-    sym::Expr key = py::cast<sym::Expr>(item.first);
-    sym::Expr value = py::cast<sym::Expr>(item.second);
+    sym::Expr key = make_Expr(item.first);
+    sym::Expr value = make_Expr(item.second);
     out[key] = value;
   }
   return out;
@@ -57,7 +68,7 @@ sym::Expr make_Expr(const py::list& l) {
   auto out_ptr = sym::ArrayRT::create();
   auto& out = *out_ptr;
   for (const auto& item : l)
-    out.push_back(py::cast<sym::Expr>(item));
+    out.push_back(make_Expr(item));
   return out;
 }
 
-- 
2.43.0


From c4c5a87db242a703a36da9a77ae0d4769de164a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 40/51] fix: error estimate of polynomial evaluation used the
 signed constant term

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 3ce0ae1..7f44344 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -633,7 +633,7 @@ namespace sym {
     const int mantissa_digits = std::numeric_limits<Coeff_t>::digits;
     const Coeff_t eps = 1.06 / std::pow(2, mantissa_digits);
 
-    Coeff_t sum = f[0];
+    Coeff_t sum = std::abs(f[0]);
     Coeff_t2 xn = std::abs(x);
     for(size_t i = 1; i <= Order; ++i) {
 	sum += (2 * i + 1) * std::abs(f[i]) * xn;
-- 
2.43.0


From d05ff0131ab8e585a641cebe362bb6f5f1b131da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 41/51] fix: substitution of expressions into polynomials did
 not compile

---
 stator/symbolic/polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 7f44344..16a8397 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -306,7 +306,7 @@ namespace sym {
                                               >::type,
 	     typename = typename enable_if_var_eq<PolyVar, SubVar>::type>
   auto sub(const Polynomial<Order, Coeff_t, PolyVar>& f, const EqualityOp<SubVar, Coeff_t2>& x_container) {
-    return detail::PolySubWorker<Order>::eval(f, x_container._val);
+    return detail::PolySubWorker<Order>::eval(f, x_container._r);
   }
 
   /*! \brief Fast evaluation of multiple derivatives of a
-- 
2.43.0


From 0e2817adec9618e35f57b52c50d5a191e1fe3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 42/51] fix: integral of a variable by itself did not compile

---
 stator/symbolic/integrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/integrate.hpp b/stator/symbolic/integrate.hpp
index f29e3e7..9c6f8e4 100644
--- a/stator/symbolic/integrate.hpp
+++ b/stator/symbolic/integrate.hpp
@@ -66,7 +66,7 @@ namespace sym {
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2,
 	   typename = typename enable_if_var_eq<Var<N1, VarArgs1...>, Var<N2, VarArgs2...> >::type>
   auto integrate(Var<N1, VarArgs1...>, Var<N2, VarArgs2...>)
-  { return C<1,2>() * pow<2>(Var<N1, VarArgs1...>()); }
+  { return C<1,2>() * pow(Var<N1, VarArgs1...>(), C<2>()); }
   
   /*! \brief Integration of \$x^n\$ by \$x\$.*/
   template<conststr N1, class ...VarArgs1, conststr N2, class ...VarArgs2, std::intmax_t Power,
-- 
2.43.0


From f5970a8055c7ba6e190f183473a1ac6e3d3351e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 43/51] fix: fast_sub with a compile-time variable did not
 compile

---
 stator/symbolic/runtime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 9525dbc..78535af 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1120,7 +1120,8 @@ namespace sym
   template <class Var>
   double fast_sub(const Expr &f, const EqualityOp<Var, double> &rel)
   {
-    detail::FastSubRT visitor(rel._var, rel._val);
+    auto v_ptr = VarRT::create(rel._l);
+    detail::FastSubRT visitor(*v_ptr, rel._r);
     f->visit(visitor);
     return visitor._intermediate;
   }
-- 
2.43.0


From 8bbb83cb660802b35202de12748301314e71928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 44/51] fix: static_list items passed by reference did not link

---
 stator/orphan/static_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/orphan/static_list.hpp b/stator/orphan/static_list.hpp
index b390af8..992b76b 100644
--- a/stator/orphan/static_list.hpp
+++ b/stator/orphan/static_list.hpp
@@ -165,7 +165,7 @@ namespace stator {
     struct get_static_list_item<static_list<T, ListItems...>, Index> {
       static_assert(Index < sizeof...(ListItems), "Index out of range!");
 
-      static const T value = detail::get_static_list_item_helper<Index, 0,
+      static constexpr T value = detail::get_static_list_item_helper<Index, 0,
         static_list<T, ListItems...>>::value;
     };
 
-- 
2.43.0


From 766b1628a207958a6f94b83d8bc1b49ff63e7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 45/51] fix: substituting matrices into polynomials referred to
 destroyed temporaries

---
 stator/symbolic/polynomial.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 16a8397..39561eb 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -271,7 +271,8 @@ namespace sym {
     struct PolySubWorker {
       template<size_t Order, class PolyVar, class Coeff_t, class X>
       static auto eval(const Polynomial<Order, Coeff_t, PolyVar>& f, const X& x) {
-	return f[Order - Stage] + x * PolySubWorker<Stage - 1>::eval(f, x);
+	//Matrix expressions refer to the temporary passed up from the lower stage, so they must be evaluated
+	return store(f[Order - Stage] + x * PolySubWorker<Stage - 1>::eval(f, x));
       }
     };
     
-- 
2.43.0


From 3a8a94ab9dab9e4ccc47d9d0a3c7fa6b4c7f07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:43 +0000
Subject: [PATCH 46/51] fix: derivatives of products of matrices referred to
 destroyed temporaries

---
 stator/symbolic/binary_ops.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 11ebc17..4a06eb1 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -374,21 +374,21 @@ namespace sym {
    */
   template<class Var, class LHS, class RHS>
   auto derivative(const AddOp<LHS, RHS>& f, const Var& v) {
-    return derivative(f._l, v) + derivative(f._r, v);
+    return store(derivative(f._l, v) + derivative(f._r, v));
   }
 
   /*! \brief Derivatives of SubtractOp operations.
    */
   template<class Var, class LHS, class RHS>
   auto derivative(const SubtractOp<LHS, RHS>& f, const Var& v) {
-    return derivative(f._l, v) - derivative(f._r, v);
+    return store(derivative(f._l, v) - derivative(f._r, v));
   }
 
   /*! \brief Derivatives of MultiplyOp operations.
    */
     template<class Var, class LHS, class RHS>
     auto derivative(const MultiplyOp<LHS, RHS>& f, const Var& v) {
-      return derivative(f._l, v) * f._r + f._l * derivative(f._r, v);
+      return store(derivative(f._l, v) * f._r + f._l * derivative(f._r, v));
     }
 
   /*! \brief Derivatives of DivideOp operations.
@@ -397,7 +397,7 @@ namespace sym {
    */
     template<class Var, class LHS, class RHS>
     auto derivative(const DivideOp<LHS, RHS>& f, const Var& v) {
-      return (derivative(f._l, v) * f._r - f._l * derivative(f._r, v)) / pow(f._r, C<2>());
+      return store((derivative(f._l, v) * f._r - f._l * derivative(f._r, v)) / pow(f._r, C<2>()));
     }
 
   /*! \brief Derivatives of PowerOp operation specialised for constant powers.
-- 
2.43.0


From e774c773db9dfd3c301e3c806a6399f0c8fc2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 47/51] fix: text of a matrix which is not square read outside
 of it

---
 stator/symbolic/runtime.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 78535af..bcb35b6 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1200,10 +1200,10 @@ namespace sym
     else
     {
       os << "{ ";
-      for (int i(0); i < val.cols(); ++i)
+      for (int i(0); i < val.rows(); ++i)
       {
         os << "{ ";
-        for (int j(0); j < val.rows(); ++j)
+        for (int j(0); j < val.cols(); ++j)
           os << repr<Config>(val(i, j)) << " ";
         os << "} ";
       }
-- 
2.43.0


From f91cc20caa7c2aab3c684e3711a2b1be40d5ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:20 +0000
Subject: [PATCH 48/51] fix: a refused array resize leaves the array as it was

---
 stator/symbolic/array.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index 42b4086..e70aff0 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -212,13 +212,17 @@ namespace sym
 
     void resize(const Coords &d)
     {
+      const Coords old_dimensions = _dimensions;
       _dimensions = d;
       if constexpr (StoreSize == -1u)
       {
         Base::_store.resize(store_size());
       }
       else if (store_size() > StoreSize)
+      {
+        _dimensions = old_dimensions; //A refused request leaves the array as it was
         stator_throw() << "StoreSize is too small for this dimensionality";
+      }
     }
 
     size_t size() const
-- 
2.43.0


From 7597d06a4bdc82ed887e32a0f14ce5f6ca09ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:43 +0000
Subject: [PATCH 49/51] fix: text streamed to a copied exception overwrote its
 message

---
 stator/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/exception.hpp b/stator/exception.hpp
index 0482918..19d7663 100644
--- a/stator/exception.hpp
+++ b/stator/exception.hpp
@@ -83,7 +83,7 @@ namespace stator {
       Please catch exceptions by reference, they should not be copied
       except at the throw site.
     */
-    Exception(const Exception& e) : message_(e.message_.str()), messageStr_() {
+    Exception(const Exception& e) : message_(e.message_.str(), std::ios_base::ate), messageStr_() {
     }
 
     inline ~Exception() throw() {}
-- 
2.43.0


From d5e412eaa371a8e415193dd5f5ebf7eb98aa3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:43 +0000
Subject: [PATCH 50/51] fix: an unrecognised token was reported with the text
 after it

---
 stator/symbolic/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index ac07540..16b983e 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -212,7 +212,7 @@ namespace sym
 
 
 
-				stator_throw() << "Unrecognised token \"" << _str.substr(_start, _end) << "\"\n"
+				stator_throw() << "Unrecognised token \"" << _str.substr(_start, _end - _start) << "\"\n"
 							   << parserLoc();
 			}
 
-- 
2.43.0


From dbf5486b8c1a7b4912cb7d1f9665a90925df4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:27 +0000
Subject: [PATCH 51/51] fix: simplifying a power of an expression with an
 arbitrary sign made its copies' signs independent

---
 stator/symbolic/simplify.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/simplify.hpp b/stator/symbolic/simplify.hpp
index efeb442..1de2f29 100644
--- a/stator/symbolic/simplify.hpp
+++ b/stator/symbolic/simplify.hpp
@@ -207,12 +207,25 @@ namespace sym {
 
   /////////////////// PowerOp OPERATORS /////////////////////////////
    
-  template<class Config, class Arg, std::intmax_t Power>
+  //Multiplying out a power repeats its argument, which would make the
+  //signs of each copy independent if it contains an arbitrary sign.
+  template<class T> struct ContainsArbsign : std::false_type {};
+  template<class Arg> struct ContainsArbsign<UnaryOp<Arg, detail::Arbsign> > : std::true_type {};
+  template<class Arg, class Op> struct ContainsArbsign<UnaryOp<Arg, Op> > : ContainsArbsign<Arg> {};
+  template<class LHS, class Op, class RHS> struct ContainsArbsign<BinaryOp<LHS, Op, RHS> >
+    : std::integral_constant<bool, ContainsArbsign<LHS>::value || ContainsArbsign<RHS>::value> {};
+
+  template<class Config, class Arg, std::intmax_t Power, typename std::enable_if<!ContainsArbsign<Arg>::value, int>::type = 0>
   auto simplify_powerop_impl(const PowerOp<Arg, C<Power,1> >& f, detail::choice<0>)
     -> decltype(try_simplify<Config>(PowerOpSub<Power>::eval(simplify<Config>(f._l))))
   { return try_simplify<Config>(PowerOpSub<Power>::eval(simplify<Config>(f._l))); }
+
+  template<class Config, class Arg, std::intmax_t Power, typename std::enable_if<ContainsArbsign<Arg>::value, int>::type = 0>
+  auto simplify_powerop_impl(const PowerOp<Arg, C<Power,1> >& f, detail::choice<0>)
+    -> decltype(try_simplify<Config>(sym::pow(simplify<Config>(f._l), C<Power,1>())))
+  { return try_simplify<Config>(sym::pow(simplify<Config>(f._l), C<Power,1>())); }
       
-  template<class Config, class Arg, std::intmax_t Power>
+  template<class Config, class Arg, std::intmax_t Power, typename std::enable_if<!ContainsArbsign<Arg>::value, int>::type = 0>
   auto simplify_powerop_impl(const PowerOp<Arg, C<Power,1> >& f, detail::choice<1>)
     -> decltype(simplify<Config>(PowerOpSub<Power>::eval(f._l)))
   { return simplify<Config>(PowerOpSub<Power>::eval(f._l)); }
-- 
2.43.0

