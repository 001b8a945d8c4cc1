From 88342e291a1aea2436ed93c6970c7119f016f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 01/26] fix: differentiating a dictionary, units or uncertainty
 recursed until the stack ran out

---
 stator/symbolic/runtime.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index c2d9263..1be7fb8 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -968,6 +968,24 @@ namespace sym
         return Expr(derivative(v, _var));
       }
 
+      // These have no derivative defined: without an explicit error
+      // they would be converted back to an Expr and visited again,
+      // recursing without end.
+      Expr apply(const DictRT &v)
+      {
+        stator_throw() << "Cannot take the derivative of the dictionary " << v;
+      }
+
+      Expr apply(const BinaryOp<Expr, detail::Units, Expr> &v)
+      {
+        stator_throw() << "Cannot take the derivative of a value with units, " << Expr(v);
+      }
+
+      Expr apply(const BinaryOp<Expr, detail::Uncertainty, Expr> &v)
+      {
+        stator_throw() << "Cannot take the derivative of a value with uncertainty, " << Expr(v);
+      }
+
       const VarRT &_var;
     };
   }
-- 
2.43.0


From 40253b8b87864c5d99d9741761aa51a3dda75ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 02/26] fix: reading the message of a caught exception
 allocated memory and modified the shared exception

---
 stator/exception.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/stator/exception.hpp b/stator/exception.hpp
index 0482918..c033e1d 100644
--- a/stator/exception.hpp
+++ b/stator/exception.hpp
@@ -74,8 +74,13 @@ namespace stator {
     Exception(int line, const char* file, const char* funcname) throw() :
       message_(), messageStr_() {
 
-      message_ << "Exception thrown in [" << funcname << "] (" << file <<
-         ":" << line << ")" << std::endl;
+      try {
+        message_ << "Exception thrown in [" << funcname << "] (" << file <<
+           ":" << line << ")" << std::endl;
+        messageStr_ = message_.str();
+      } catch (...) {
+        // Out of memory: report what could be stored of the message.
+      }
     }
 
     /*! \brief Copy constructor.
@@ -83,7 +88,7 @@ namespace stator {
       Please catch exceptions by reference, they should not be copied
       except at the throw site.
     */
-    Exception(const Exception& e) : message_(e.message_.str()), messageStr_() {
+    Exception(const Exception& e) : message_(e.message_.str()), messageStr_(e.messageStr_) {
     }
 
     inline ~Exception() throw() {}
@@ -93,6 +98,7 @@ namespace stator {
     template<class T>
     Exception& operator<<(const T& m) {
       message_ << m;
+      messageStr_ = message_.str();
       return *this;
     }
 
@@ -103,18 +109,18 @@ namespace stator {
       which it is obtained is destroyed or until a non-const member
       function of the exception object is called.
 
-      This is not reentrant and is annoyingly C-like, but it is in the
-      standard.
+      The message is kept up to date by operator<<, so this neither
+      allocates nor modifies anything and may be called by any number
+      of holders of the exception at once.
     */
     const char* what() const throw() {
-      messageStr_ = message_.str();
       return messageStr_.c_str();
     }
 
    private:
     //! \brief Stores the message of the exception.
     std::ostringstream message_;
-    //! \brief A temporary store of the what() message.
-    mutable std::string messageStr_;
+    //! \brief The text of message_, as returned by what().
+    std::string messageStr_;
   };
 } // namespace stator
-- 
2.43.0


From 64886aecc19108e8e5c677bb6e9192e4947c2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 03/26] fix: hashing a variable (noexcept) copied its name, so
 running out of memory terminated the process

---
 stator/symbolic/variable_rt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/symbolic/variable_rt.hpp b/stator/symbolic/variable_rt.hpp
index 43c2888..c754a57 100644
--- a/stator/symbolic/variable_rt.hpp
+++ b/stator/symbolic/variable_rt.hpp
@@ -59,7 +59,7 @@ namespace sym {
       return equality(lhs, rhs);
     }
     
-    inline std::string getName() const { return _name; }
+    inline const std::string& getName() const { return _name; }
     
     std::string _name;
   };
-- 
2.43.0


From 1e7be5f3d898b1681c190d5d257353ac7a9a023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 04/26] fix: running out of memory while parsing a number
 silently gave another number

---
 stator/symbolic/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index ac07540..9d16bd0 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -491,8 +491,9 @@ namespace sym
 				//Parse numbers
 				if (std::isdigit(token[0]))
 				{
-					std::stringstream ss;
-					ss << token;
+					std::istringstream ss(token);
+					//Running out of memory must not look like a different number
+					ss.exceptions(std::ios_base::badbit);
 					double val;
 					ss >> val;
 					return Expr(val);
-- 
2.43.0


From 7b281fe45c1a34045edec843da093a75e833fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 05/26] fix: the global locale changed the value of numbers in
 parsed expressions

---
 stator/symbolic/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index 9d16bd0..4960fcc 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -492,6 +492,7 @@ namespace sym
 				if (std::isdigit(token[0]))
 				{
 					std::istringstream ss(token);
+					ss.imbue(std::locale::classic());
 					//Running out of memory must not look like a different number
 					ss.exceptions(std::ios_base::badbit);
 					double val;
-- 
2.43.0


From ee51baaa3e36fc694a0994bbc5dbd13121afcad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 06/26] fix: running out of memory while printing a polynomial
 or matrix silently truncated the text

---
 stator/symbolic/polynomial.hpp | 2 ++
 stator/symbolic/runtime.hpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 837c3a6..3115bfb 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1906,6 +1906,8 @@ namespace sym {
   template<class Config = DefaultReprConfig, class Coeff_t, size_t N, class PolyVar>
   inline std::string repr(const sym::Polynomial<N, Coeff_t, PolyVar>& poly) {
     std::ostringstream oss;
+    //Running out of memory must not truncate the text
+    oss.exceptions(std::ios_base::badbit);
     size_t terms = 0;
     oss << "P(";
     for (size_t i(N); i != 0; --i) {
diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 1be7fb8..700327a 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1155,6 +1155,8 @@ namespace sym
   std::string repr(const T &val)
   {
     std::ostringstream os;
+    //Running out of memory must not truncate the text
+    os.exceptions(std::ios_base::badbit);
     if ((val.cols() == 1) && (val.rows() == 1))
       os << repr<Config>(val(0, 0));
     else if (val.cols() == 1)
-- 
2.43.0


From 0e8160f507df288b838d13f2a4c6f0479cb267f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 07/26] fix: printed numbers and error messages depended on the
 ambient locale

---
 stator/exception.hpp           |  1 +
 stator/repr.hpp                | 10 +++++++++-
 stator/symbolic/polynomial.hpp |  1 +
 stator/xml.hpp                 |  1 +
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/stator/exception.hpp b/stator/exception.hpp
index c033e1d..4e50f4c 100644
--- a/stator/exception.hpp
+++ b/stator/exception.hpp
@@ -75,6 +75,7 @@ namespace stator {
       message_(), messageStr_() {
 
       try {
+        message_.imbue(std::locale::classic());
         message_ << "Exception thrown in [" << funcname << "] (" << file <<
            ":" << line << ")" << std::endl;
         messageStr_ = message_.str();
diff --git a/stator/repr.hpp b/stator/repr.hpp
index 343e4e8..29eee08 100644
--- a/stator/repr.hpp
+++ b/stator/repr.hpp
@@ -22,6 +22,8 @@
 #include <stator/string.hpp>
 #include <stator/orphan/template_config.hpp>
 #include <limits>
+#include <locale>
+#include <sstream>
 #include <cstdio>
 
 namespace stator {  
@@ -57,7 +59,13 @@ namespace stator {
   inline
   typename std::enable_if<std::is_floating_point<Float>::value, std::string>::type
   repr(Float a) {
-    std::string basic_output = stator::string_format("%.*g", std::numeric_limits<Float>::max_digits10 - Config::Rounding_digits, a);
+    //Equivalent to printf's %.*g, but independent of the locale
+    std::ostringstream os;
+    os.exceptions(std::ios_base::badbit);
+    os.imbue(std::locale::classic());
+    os.precision(std::numeric_limits<Float>::max_digits10 - Config::Rounding_digits);
+    os << a;
+    std::string basic_output = os.str();
     if (Config::Latex_output) {
       //Strip the unneeded exponent leading plus sign if present
       auto fin = search_replace(basic_output, "e+", "\\times10^{");
diff --git a/stator/symbolic/polynomial.hpp b/stator/symbolic/polynomial.hpp
index 3115bfb..e73b148 100644
--- a/stator/symbolic/polynomial.hpp
+++ b/stator/symbolic/polynomial.hpp
@@ -1908,6 +1908,7 @@ namespace sym {
     std::ostringstream oss;
     //Running out of memory must not truncate the text
     oss.exceptions(std::ios_base::badbit);
+    oss.imbue(std::locale::classic());
     size_t terms = 0;
     oss << "P(";
     for (size_t i(N); i != 0; --i) {
diff --git a/stator/xml.hpp b/stator/xml.hpp
index c321704..d21d546 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -55,6 +55,7 @@ namespace stator {
 	  }
 	
 	std::ostringstream os;
+	os.imbue(std::locale::classic());
 	
 	for (std::vector<std::pair<std::string, int> >::const_reverse_iterator
 	       iPtr = pathTree.rbegin(); iPtr != pathTree.rend(); ++iPtr)
-- 
2.43.0


From ca89ea7b8f09a54b79cc14afebc964ceff1920cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 08/26] fix: equal dictionaries built in different orders
 hashed differently

---
 stator/symbolic/dict.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index aa79cb8..c574422 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -112,10 +112,15 @@ namespace std
     std::size_t operator()(sym::Dict<Key, Value> const& v) const noexcept
     {
       std::size_t seed = 16;
+      //The order of iteration depends on the history of the
+      //dictionary, so items must be combined independently of it.
+      std::size_t sum = v.size();
       for (const auto& item : v) {
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first));
-	stator::hash_combine(seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	std::size_t item_seed = std::hash<typename std::decay<decltype(item.first)>::type>{}(item.first);
+	stator::hash_combine(item_seed, std::hash<typename std::decay<decltype(item.second)>::type>{}(item.second));
+	sum += item_seed;
       }
+      stator::hash_combine(seed, sum);
       return seed;
     }
   };
-- 
2.43.0


From ae5b3dea527d54be6daed96aa24f9a93b7298fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 09/26] fix: printing an operation on a dictionary recursed
 until the stack ran out

---
 stator/symbolic/dict.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stator/symbolic/dict.hpp b/stator/symbolic/dict.hpp
index c574422..9100b6d 100644
--- a/stator/symbolic/dict.hpp
+++ b/stator/symbolic/dict.hpp
@@ -102,6 +102,12 @@ namespace sym {
     
     return out.substr(0, out.size() - 2) + end;
   }
+
+  /*! \brief Returns the binding powers for dictionaries, which are
+    wrapped and so cannot be split. */
+  template<typename Key, typename Value>
+  std::pair<int, int> BP(const Dict<Key, Value>& v)
+  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
 }
 
 
-- 
2.43.0


From 38fd08bef8d5220ee516224c597634ada20ce72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 10/26] fix: (x^y)^z was printed as x^y^z, which is x^(y^z)

---
 stator/symbolic/binary_ops.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/symbolic/binary_ops.hpp b/stator/symbolic/binary_ops.hpp
index 753e2d9..943aa12 100644
--- a/stator/symbolic/binary_ops.hpp
+++ b/stator/symbolic/binary_ops.hpp
@@ -452,7 +452,8 @@ namespace sym {
     const auto RHS_BP  = BP(op._r);
 
     std::string LHS_repr = repr<Config>(op._l);
-    if (LHS_BP.second < this_BP.first || Config::Force_parenthesis)
+    //For right-associative operators, the same operator on the left also needs wrapping
+    if (LHS_BP.second < this_BP.first + (Op::associativity == detail::Associativity::RIGHT) || Config::Force_parenthesis)
       LHS_repr = detail::paren_wrap<Config>(LHS_repr);
 
     std::string RHS_repr = repr<Config>(op._r);
-- 
2.43.0


From 787dd52380580c02ad5c5e6a332e68891b271118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 11/26] fix: negative numbers were printed without parentheses
 where they read back differently

---
 stator/symbolic/constants.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/constants.hpp b/stator/symbolic/constants.hpp
index ca8a954..bc699a1 100644
--- a/stator/symbolic/constants.hpp
+++ b/stator/symbolic/constants.hpp
@@ -232,9 +232,19 @@ namespace sym {
   /*! \brief Returns the binding powers for constants.
       
     Arguments that cannot be split, like constants have very high
-    binding powers internally as they cannot be split.
+    binding powers internally as they cannot be split. The exception
+    is the sign of negative numbers, which is read back as a negation.
   */
   template<class T, typename = typename std::enable_if<detail::IsConstant<T>::value>::type>
   std::pair<int, int> BP(const T& v)
-  { return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max()); }
+  {
+    bool negative = false;
+    if constexpr (std::is_floating_point<T>::value)
+      negative = std::signbit(v);
+    else if constexpr (std::is_integral<T>::value)
+      negative = v < T();
+    if (negative)
+      return std::make_pair(21, 21); //The same as detail::Negate::BP
+    return std::make_pair(std::numeric_limits<int>::max(), std::numeric_limits<int>::max());
+  }
 }
-- 
2.43.0


From 9a6b250cd9fc683c94bc38108aa62b197252420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 12/26] fix: root searches ran forever or reported NaN or
 infinite roots when the function was NaN or the bounds huge

---
 stator/symbolic/numeric.hpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/stator/symbolic/numeric.hpp b/stator/symbolic/numeric.hpp
index 3484956..64d05cf 100644
--- a/stator/symbolic/numeric.hpp
+++ b/stator/symbolic/numeric.hpp
@@ -37,15 +37,19 @@ namespace stator {
 	//std::cout << "new_x = " << new_x << std::endl;
 	//std::cout << "[" << low_bound << "," << high_bound << "]" << std::endl;
 
-	if ((new_x >= high_bound) || (new_x <= low_bound)) {
+	if (!((new_x < high_bound) && (new_x > low_bound))) {
 	  //std::cout << "Out of bounds" << std::endl;
-	  //Out of bounds step, failed!
+	  //Out of bounds (or not a number) step, failed!
 	  return 0;
 	}
 	
 	//Re evalulate the derivatives
 	auto new_state = f(new_x);
 
+	//The function is not defined here, method has failed
+	if (std::isnan(new_state[0]))
+	  return 0;
+
 	//Check for convergence
 	Real delta = new_x - x;
 
@@ -156,15 +160,21 @@ namespace stator {
       auto f_low = f(low_bound);
       auto f_high = f(high_bound);
       
-      if (std::signbit(f_low[0]) == std::signbit(f_high[0])) {
+      if (std::isnan(f_low[0]) || std::isnan(f_high[0])
+	  || (std::signbit(f_low[0]) == std::signbit(f_high[0]))) {
 	//std::cout << "No sign change!" << std::endl;
 	//No sign change in the interval
 	return 0;
       }
 
-      Real x_mid = (low_bound + high_bound) / 2;
+      //The sum of the bounds may overflow
+      Real x_mid = low_bound / 2 + high_bound / 2;
       auto new_state = f(x_mid);
 
+      //The function is not defined here, method has failed
+      if (std::isnan(new_state[0]))
+	return 0;
+
       //std::cout << "new_x = " << x_mid << std::endl;
 
       Real delta = x_mid - x;
@@ -285,7 +295,8 @@ namespace stator {
       auto f_low = f(low_bound);
       auto f_high = f(high_bound);
       
-      if (std::signbit(f_low) == std::signbit(f_high)) {
+      if (std::isnan(f_low) || std::isnan(f_high)
+	  || (std::signbit(f_low) == std::signbit(f_high))) {
 	//No sign change in the interval, no root found!
 	return false;
       }
@@ -296,8 +307,14 @@ namespace stator {
 	x = low_bound;
       
       while (--iterations) {
-	Real x_mid = (low_bound + high_bound) / 2;
+	//The sum of the bounds may overflow
+	Real x_mid = low_bound / 2 + high_bound / 2;
 	auto new_state = f(x_mid);
+
+	//The function is not defined here, method has failed
+	if (std::isnan(new_state))
+	  return false;
+
 	Real delta = x_mid - x;
 	if (
 	    //Check if the precision has been reached
-- 
2.43.0


From a8f8ae1e5caa5381b28cdb6257be60dc7c272598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 13/26] fix: simplifying one array raised to the power of
 another recursed until the stack ran out

---
 stator/symbolic/runtime.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 700327a..334cade 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -645,6 +645,13 @@ namespace sym
         return res2;
       }
 
+      //Arrays have no element-wise power, so the operation is left
+      //unevaluated (simplifying it again would never end)
+      Expr dd_visit(const ArrayRT &, const ArrayRT &, detail::Power)
+      {
+        return Expr();
+      }
+
       template <class T1, class T2>
       Expr dd_visit(const T1 &l, const T2 &r, detail::ArrayAccess)
       {
-- 
2.43.0


From cf73f2ccedfabb797ae0271d9805dd85c02cb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 14/26] fix: a failed resize, push_back or copy left an array
 with dimensions that did not match its elements

---
 stator/symbolic/array.hpp | 48 ++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/stator/symbolic/array.hpp b/stator/symbolic/array.hpp
index d07595b..fecfa61 100644
--- a/stator/symbolic/array.hpp
+++ b/stator/symbolic/array.hpp
@@ -120,8 +120,8 @@ namespace sym
     {
       if constexpr (StoreSize == -1u)
       {
-        _dimension = d;
         Base::_store.resize(d);
+        _dimension = d; //Only once the store is known to match
       }
       else
       {
@@ -135,8 +135,8 @@ namespace sym
     {
       if constexpr (StoreSize == -1u)
       {
-        ++_dimension;
         Base::_store.push_back(val);
+        ++_dimension;
       }
       else
       {
@@ -165,6 +165,17 @@ namespace sym
     Coords _dimensions;
 
     Addressing() : _dimensions() {} //This zero initialises the dimensions
+    Addressing(const Addressing &) = default;
+    Addressing(Addressing &&) = default;
+    Addressing &operator=(Addressing &&) = default;
+    Addressing &operator=(const Addressing &o)
+    {
+      Coords new_dimensions(o._dimensions); //All that may fail comes before the dimensions change
+      Base::operator=(o);
+      _dimensions.swap(new_dimensions);
+      return *this;
+    }
+
     Addressing(const Coords &d) { resize(d); }
 
     Addressing(const Coords &d, std::initializer_list<T> vals)
@@ -208,13 +219,14 @@ namespace sym
 
     void resize(const Coords &d)
     {
-      _dimensions = d;
+      Coords new_dimensions(d);
       if constexpr (StoreSize == -1u)
       {
-        Base::_store.resize(store_size());
+        Base::_store.resize(store_size(new_dimensions));
       }
-      else if (store_size() > StoreSize)
+      else if (store_size(new_dimensions) > StoreSize)
         stator_throw() << "StoreSize is too small for this dimensionality";
+      _dimensions.swap(new_dimensions); //Only once the store is known to match
     }
 
     size_t size() const
@@ -224,34 +236,34 @@ namespace sym
 
     bool empty() const { return store_size() == 0; }
 
-    size_t store_size() const
+    size_t store_size() const { return store_size(_dimensions); }
+
+    static size_t store_size(const Coords &d)
     {
-      size_t s = _dimensions.size() > 0;
-      for (size_t i(0); i < _dimensions.size(); ++i)
-        s *= _dimensions[i];
+      size_t s = d.size() > 0;
+      for (size_t i(0); i < d.size(); ++i)
+        s *= d[i];
       return s;
     }
 
     void push_back(const T &val)
     {
       if (_dimensions.size() == 0)
-        _dimensions.resize(1);
-
-      if (_dimensions.size() != 1)
+        _dimensions.reserve(1);
+      else if (_dimensions.size() != 1)
         stator_throw() << "Cannot push_back to non-linear arrays yet";
 
       if constexpr (StoreSize == -1u)
-      {
-        ++_dimensions[0];
         Base::_store.push_back(val);
-      }
       else
       {
-        if ((_dimensions[0] + 1) > Base::_store.size())
+        if ((size() + 1) > Base::_store.size())
           stator_throw() << "Fixed storage is too small!";
-        Base::_store[_dimensions[0]] = val;
-        ++(_dimensions[0]);
+        Base::_store[size()] = val;
       }
+      //The dimensions only change once the element is stored
+      _dimensions.resize(1);
+      ++_dimensions[0];
     }
 
     template <size_t Dim, class Array>
-- 
2.43.0


From 7ff64cac730268abbec56c7f094a94b082f4eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 15/26] fix: appending to a copied exception overwrote the
 start of its message and followed the global locale

---
 stator/exception.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stator/exception.hpp b/stator/exception.hpp
index 4e50f4c..d9caee6 100644
--- a/stator/exception.hpp
+++ b/stator/exception.hpp
@@ -89,7 +89,8 @@ namespace stator {
       Please catch exceptions by reference, they should not be copied
       except at the throw site.
     */
-    Exception(const Exception& e) : message_(e.message_.str()), messageStr_(e.messageStr_) {
+    Exception(const Exception& e) : message_(e.message_.str(), std::ios_base::ate), messageStr_(e.messageStr_) {
+      message_.imbue(std::locale::classic());
     }
 
     inline ~Exception() throw() {}
-- 
2.43.0


From 6dff47a729dba03655f1023da67ac7cc57715759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 16/26] fix: a parse error at the end of a line of an XML file
 was lost or misplaced

---
 stator/xml.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index d21d546..5a9284f 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -444,11 +444,8 @@ namespace stator {
 
 	    //Determine the start of the error line
 	    const char* error_line_start = error_loc_ptr;
-	    while ((*error_line_start != '\n') && (error_line_start != _data.data()))
+	    while ((error_line_start != _data.data()) && (*(error_line_start - 1) != '\n'))
 	      --error_line_start;
-	    //Move past the newline
-	    if (error_line_start != _data.data())
-		++error_line_start;
 	    //Determine the end of the error line
 	    const char* error_line_end = error_loc_ptr;
 	    while ((*error_line_end != '\n') && (error_line_end != (_data.data()+_data.size())))
-- 
2.43.0


From 4d04453aadc37cd6a3c7dc5189c0e1e67b19993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 17/26] fix: XML paths in error messages counted siblings of
 other names

---
 stator/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 5a9284f..3582ccd 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -44,7 +44,7 @@ namespace stator {
 	    if (_node->parent())
 	      {
 		rapidxml::xml_node<>* sibling = _node->previous_sibling(_node->name(), _node->name_size());
-		while (sibling) { sibling = sibling->previous_sibling(); ++index; }
+		while (sibling) { sibling = sibling->previous_sibling(_node->name(), _node->name_size()); ++index; }
 		//Set the index to -1 if this is the only node with its name (it has no siblings)
 		if ((index == 0) && !(_node->next_sibling(_node->name(), _node->name_size())))
 		  index = -1;
-- 
2.43.0


From bf72a1bd3193d82e9e7cd9b58205db12e63be2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 18/26] fix: appending to the value of a parsed XML node copied
 the rest of the file into it

---
 stator/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 3582ccd..83dddbe 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -337,7 +337,7 @@ namespace stator {
 	if (_node->value_size() == 0)
 	  return *this = value;
 	
-	value = _node->value() + value;
+	value = std::string(_node->value(), _node->value_size()) + value;
 	char* value_str = _node->document()->allocate_string(value.c_str());
 	_node->value(value_str);
 	return *this;
-- 
2.43.0


From 70fdfbf6e745bc645fcf20e66184a536cdd914dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 19/26] fix: a new value given to a parsed XML node was not
 printed

---
 stator/xml.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 83dddbe..4ec0142 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -330,6 +330,12 @@ namespace stator {
       inline Node operator=(const std::string value) {
 	char* value_str = _node->document()->allocate_string(value.c_str());
 	_node->value(value_str);
+	//The text of a parsed node is also held by its first data node, which is what is printed
+	for (rapidxml::xml_node<>* child = _node->first_node(); child; child = child->next_sibling())
+	  if (child->type() == rapidxml::node_data) {
+	    child->value(value_str);
+	    break;
+	  }
 	return *this;
       }
 
@@ -338,9 +344,7 @@ namespace stator {
 	  return *this = value;
 	
 	value = std::string(_node->value(), _node->value_size()) + value;
-	char* value_str = _node->document()->allocate_string(value.c_str());
-	_node->value(value_str);
-	return *this;
+	return *this = value;
       }
       
       void print(std::ostream& os) const {
-- 
2.43.0


From 39b37323d530309b61358098b54be833aea209bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 20/26] fix: naming, printing or editing a missing XML node or
 attribute crashed

---
 stator/xml.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 4ec0142..2a425bb 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -115,7 +115,12 @@ namespace stator {
 	return detail::getPath(_parent) + std::string("/@") + std::string(_attr->name(), _attr->name() + _attr->name_size()); 
       }
 
-      inline std::string getName() const { return std::string(_attr->name(), _attr->name() + _attr->name_size()); }
+      inline std::string getName() const {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot get name of invalid attribute\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
+	return std::string(_attr->name(), _attr->name() + _attr->name_size());
+      }
 
       template<class T>
       T match(const std::map<std::string, T>& vals) const {
@@ -257,6 +262,9 @@ namespace stator {
       }
 
       std::string print() const {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot print an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	std::string s;
 	rapidxml::print(std::back_inserter(s), *_node, 0);
 	return s;
@@ -297,9 +305,17 @@ namespace stator {
 	return detail::getPath(_node); 
       }
 
-      inline std::string getName() const { return std::string(_node->name(), _node->name() + _node->name_size()); }
+      inline std::string getName() const {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot get the name of an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
+	return std::string(_node->name(), _node->name() + _node->name_size());
+      }
 
       inline Node add_node(const std::string name) {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot add a node to an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	char* node_name = _node->document()->allocate_string(name.c_str());
 	rapidxml::xml_node<>* node = _node->document()->allocate_node(rapidxml::node_element, node_name);
 	_node->append_node(node);
@@ -307,6 +323,9 @@ namespace stator {
       }
 
       inline Node add_attribute(const std::string name, const std::string value) {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot add an attribute to an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	char* attr_name = _node->document()->allocate_string(name.c_str());
 	char* attr_value = _node->document()->allocate_string(value.c_str());
 	rapidxml::xml_attribute<>* attr = _node->document()->allocate_attribute(attr_name, attr_value);
@@ -328,6 +347,9 @@ namespace stator {
       }
       
       inline Node operator=(const std::string value) {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot set the value of an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	char* value_str = _node->document()->allocate_string(value.c_str());
 	_node->value(value_str);
 	//The text of a parsed node is also held by its first data node, which is what is printed
@@ -340,6 +362,9 @@ namespace stator {
       }
 
       inline Node operator+=(std::string value) {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot append to the value of an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	if (_node->value_size() == 0)
 	  return *this = value;
 	
@@ -348,6 +373,9 @@ namespace stator {
       }
       
       void print(std::ostream& os) const {
+	if (!valid()) 
+	  stator_throw() << (std::string("XML error: Cannot print an invalid node\nXML Path: ")
+			     + detail::getPath(_parent) + "/INVALID");
 	rapidxml::print(os, *_node, 0);
       }
       
-- 
2.43.0


From 98dd041477ac9ec54aee0bf061b37308a34e5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 21/26] fix: running out of memory while naming an XML node
 gave part of its path

---
 stator/xml.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index 2a425bb..e759b1e 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -54,18 +54,18 @@ namespace stator {
 	    _node = _node->parent();
 	  }
 	
-	std::ostringstream os;
-	os.imbue(std::locale::classic());
+	//A string, as a stream would swallow a failed allocation and return part of the path
+	std::string path;
 	
 	for (std::vector<std::pair<std::string, int> >::const_reverse_iterator
 	       iPtr = pathTree.rbegin(); iPtr != pathTree.rend(); ++iPtr)
 	  {
-	    os << "/" << iPtr->first;
+	    path += "/" + iPtr->first;
 	    //Only output the index of the node if it has no siblings
 	    if (iPtr->second >= 0)
-	      os << "[" << iPtr->second << "]";
+	      path += "[" + std::to_string(iPtr->second) + "]";
 	  }
-	return os.str();
+	return path;
       }
     }
 
-- 
2.43.0


From c6e4fa0be885b3382125a0663a109d562a49c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 22/26] fix: number - expression and number / expression had
 their operands swapped in Python

---
 pysrc/stator/core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index c2a9a35..40276a0 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -77,13 +77,13 @@ PYBIND11_MODULE(core, m)
     .def("__add__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__radd__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l+r); })
     .def("__sub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
-    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l-r); })
+    .def("__rsub__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r-l); })
     .def("__mul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__rmul__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l*r); })
     .def("__div__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rdiv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__truediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
-    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(l/r); })
+    .def("__rtruediv__", +[](const sym::Expr& l, const sym::Expr& r) { return to_python(r/l); })
     .def("__eq__", +[](const sym::Expr& l, const sym::Expr& r) { return l == r; })
     .def(py::hash(py::self))
     .def("equal", +[](const sym::Expr& l, const sym::Expr& r) { return equality(l, r); })
-- 
2.43.0


From 179d4b4d482cecd2e9d8307f9a94719d6cfb3d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 23/26] fix: Python lists and dictionaries changed during their
 conversion were used after being freed

---
 pysrc/stator/core.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/stator/core.cpp b/pysrc/stator/core.cpp
index 40276a0..7b63ee4 100644
--- a/pysrc/stator/core.cpp
+++ b/pysrc/stator/core.cpp
@@ -45,7 +45,11 @@ py::object to_python(const sym::Expr& b) {
 sym::Expr make_Expr(const py::dict& d) {
   auto out_ptr = sym::DictRT::create();
   auto& out = *out_ptr;
-  for (const auto& item : d) {
+  // Converting an item may run Python code which changes the original, so iterate a copy
+  const py::dict items = py::reinterpret_steal<py::dict>(PyDict_Copy(d.ptr()));
+  if (!items)
+    throw py::error_already_set();
+  for (const auto& item : items) {
     sym::Expr key = py::cast<sym::Expr>(item.first);
     sym::Expr value = py::cast<sym::Expr>(item.second);
     out[key] = value;
@@ -56,7 +60,9 @@ sym::Expr make_Expr(const py::dict& d) {
 sym::Expr make_Expr(const py::list& l) {
   auto out_ptr = sym::ArrayRT::create();
   auto& out = *out_ptr;
-  for (const auto& item : l)
+  // Converting an item may run Python code which changes the original, so iterate a copy
+  const py::tuple items(l);
+  for (const auto& item : items)
     out.push_back(py::cast<sym::Expr>(item));
   return out;
 }
-- 
2.43.0


From 5149cbadf5ff7940b0259e6958cae16288a87361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 24/26] fix: expressions were not parsed correctly under some C
 locales

---
 stator/symbolic/parser.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/stator/symbolic/parser.hpp b/stator/symbolic/parser.hpp
index 4960fcc..4c16319 100644
--- a/stator/symbolic/parser.hpp
+++ b/stator/symbolic/parser.hpp
@@ -23,7 +23,6 @@
 #include <stator/exception.hpp>
 #include <algorithm>
 #include <iostream>
-#include <cctype>
 #include <map>
 #include <sstream>
 
@@ -182,16 +181,16 @@ namespace sym
 				//Parse numbers with decimal points and (possible signed)
 				//exponents. Signs at the front of numbers are parsed as unary
 				//operators.
-				if (std::isdigit(_str[_start]))
+				if (isDigit(_str[_start]))
 				{
 					consumeFloat();
 					return;
 				}
 
 				//Parsing a string, we consume the whole thing before parsing
-				if (std::isalpha(_str[_start]))
+				if (isAlpha(_str[_start]))
 				{
-					while ((_end < _str.size()) && std::isalpha(_str[_end]))
+					while ((_end < _str.size()) && isAlpha(_str[_end]))
 						++_end;
 					return;
 				}
@@ -258,7 +257,7 @@ namespace sym
 								stator_throw() << "String ended during parsing of exponent\n"
 											   << parserLoc();
 
-							if (!std::isdigit(_str[_end]))
+							if (!isDigit(_str[_end]))
 								stator_throw() << "Malformed exponent?\n"
 											   << parserLoc();
 
@@ -269,7 +268,7 @@ namespace sym
 										   << parserLoc();
 					}
 
-					if (std::isdigit(_str[_end]))
+					if (isDigit(_str[_end]))
 					{
 						++_end;
 						continue;
@@ -284,6 +283,12 @@ namespace sym
 				return _str + "\n" + std::string(_start, ' ') + std::string((_start < _end) ? _end - _start - 1 : 0, '-') + "^";
 			}
 
+			//The syntax is ASCII, so characters must not be classified using
+			//the ambient C locale (where the bytes of UTF-8 symbols may be
+			//letters) as done by the functions of <cctype>.
+			static bool isDigit(char c) { return (c >= '0') && (c <= '9'); }
+			static bool isAlpha(char c) { return ((c >= 'a') && (c <= 'z')) || ((c >= 'A') && (c <= 'Z')); }
+
 			struct RightOperatorBase
 			{
 				virtual ~RightOperatorBase() {}
@@ -489,7 +494,7 @@ namespace sym
 								   << parserLoc();
 
 				//Parse numbers
-				if (std::isdigit(token[0]))
+				if (isDigit(token[0]))
 				{
 					std::istringstream ss(token);
 					ss.imbue(std::locale::classic());
@@ -511,7 +516,7 @@ namespace sym
 				//alpha character, then assume its a variable!
 
 				for (const char &c : token)
-					if (!std::isalpha(c))
+					if (!isAlpha(c))
 						stator_throw() << "Could not parse \"" + token + "\" as a valid token?\n"
 									   << parserLoc();
 
-- 
2.43.0


From 049a988e6c9e12816c2527c415ade10892662051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 25/26] fix: numbers in XML attributes depended on the locale
 set by the application

---
 stator/xml.hpp | 55 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/stator/xml.hpp b/stator/xml.hpp
index e759b1e..0032947 100644
--- a/stator/xml.hpp
+++ b/stator/xml.hpp
@@ -26,6 +26,11 @@
 #include <vector>
 #include <map>
 #include <fstream>
+#include <limits>
+#include <locale>
+#include <sstream>
+#include <type_traits>
+#include <typeinfo>
 
 namespace stator {
   //! Namespace enclosing the XML tools included in stator.
@@ -67,6 +72,52 @@ namespace stator {
 	  }
 	return path;
       }
+
+      /*! \brief If true, boost::lexical_cast formats T as a number
+	using the ambient locale.
+      */
+      template<class T>
+      constexpr bool isNumber() {
+	return std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !(std::is_integral<T>::value && (sizeof(T) == 1))
+	  && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value;
+      }
+
+      /*! \brief A boost::lexical_cast from text which does not depend on
+	the locale set by the application.
+      */
+      template<class T>
+      T fromText(const std::string& text) {
+	//Infinities and not-a-numbers are not supported by streams
+	if constexpr (isNumber<T>())
+	  if (!std::is_floating_point<T>::value || (text.find_first_of("nN") == std::string::npos)) {
+	    std::istringstream is(text);
+	    is.imbue(std::locale::classic());
+	    //Running out of memory must not look like a bad value
+	    is.exceptions(std::ios_base::badbit);
+	    T value;
+	    if (!(is >> std::noskipws >> value) || (is.peek() != std::istringstream::traits_type::eof()))
+	      throw boost::bad_lexical_cast(typeid(std::string), typeid(T));
+	    return value;
+	  }
+	return boost::lexical_cast<T>(text);
+      }
+
+      /*! \brief A boost::lexical_cast to text which does not depend on
+	the locale set by the application.
+      */
+      template<class T>
+      std::string toText(const T& value) {
+	if constexpr (isNumber<T>()) {
+	  std::ostringstream os;
+	  os.imbue(std::locale::classic());
+	  //Running out of memory must not truncate the text
+	  os.exceptions(std::ios_base::badbit);
+	  os.precision(std::numeric_limits<T>::max_digits10);
+	  os << value;
+	  return os.str();
+	} else
+	  return boost::lexical_cast<std::string>(value);
+      }
     }
 
     /*! \brief Represents an Attribute of an XML Document.
@@ -77,7 +128,7 @@ namespace stator {
       template<class T> inline T as() const 
       { 
 	try {
-	  return boost::lexical_cast<T>(getValue());
+	  return detail::fromText<T>(getValue());
 	} catch (boost::bad_lexical_cast&)
 	  {
 	    stator_throw() << "The value \"" << getValue() << "\" will not cast to the correct type. Please check the attribute at the following XMLPath: " << getPath();
@@ -343,7 +394,7 @@ namespace stator {
 
       template<class T>
       inline Node add_attribute(const std::string name, const T& value) {
-	return add_attribute(name, boost::lexical_cast<std::string>(value));
+	return add_attribute(name, detail::toText(value));
       }
       
       inline Node operator=(const std::string value) {
-- 
2.43.0


From 71a0683a3df6cdb1df9b14fefc86ee6685c6d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 26/26] fix: printing a non-square Eigen matrix read outside of
 it

---
 stator/symbolic/runtime.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stator/symbolic/runtime.hpp b/stator/symbolic/runtime.hpp
index 334cade..5f637e6 100644
--- a/stator/symbolic/runtime.hpp
+++ b/stator/symbolic/runtime.hpp
@@ -1176,10 +1176,10 @@ namespace sym
     else
     {
       os << "{ ";
-      for (int i(0); i < val.cols(); ++i)
+      for (int i(0); i < val.rows(); ++i)
       {
         os << "{ ";
-        for (int j(0); j < val.rows(); ++j)
+        for (int j(0); j < val.cols(); ++j)
           os << repr<Config>(val(i, j)) << " ";
         os << "} ";
       }
-- 
2.43.0

