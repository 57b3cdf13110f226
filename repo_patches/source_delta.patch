From 8bbbf86d5392f7e1a3c9fcdc0809da6154a78508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 01/67] fix: Convert negative 32-bit integers to Integer with
 their sign

---
 source/numeric/integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..971ceaa 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -55,7 +55,7 @@ Integer::Integer(Nat32 m) {
 
 Integer::Integer(Int32 n) {
     mpz_init(_mpz);
-    mpz_set_ui(_mpz,static_cast<long unsigned int>(n.get_si()));
+    mpz_set_si(_mpz,n.get_si());
 }
 
 Integer::Integer(Nat64 m) {
-- 
2.43.0


From 8386780a9960e1c6d3fbeb5f7ec145909f756359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 02/67] fix: Convert 64-bit integers of absolute value 2^63 and
 above to Integer exactly

---
 source/numeric/integer.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 971ceaa..261a8ee 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -67,18 +67,17 @@ Integer::Integer(Nat64 m) {
     unsigned long long int lquot = larg / lmax;
     unsigned long long int lrem = larg % lmax;
     unsigned int rem = static_cast<unsigned int>(lrem);
-    unsigned int quot = static_cast<unsigned int>(lquot);
     ARIADNE_ASSERT(larg==lquot*lmax+lrem);
     mpz_set_ui(_mpz,rem);
     if(lquot!=0) {
-        *this += Integer(quot)*zmax;
+        *this += Integer(Nat64(lquot))*zmax; // The quotient may need more than 32 bits
     }
 }
 
 Integer::Integer(Int64 n) {
     mpz_init(_mpz);
     if(n.get_si()<0) {
-        *this = -Integer(Nat64(-n.get_si()));
+        *this = -Integer(Nat64(-static_cast<uint64_t>(n.get_si()))); // Negate as unsigned, since the negative of the least value overflows
     } else {
         *this = Integer(Nat64(n.get_si()));
     }
-- 
2.43.0


From afdafe47e5726785f3dbd65e60106a07135dff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 03/67] fix: Make the integer remainder consistent with the
 quotient

---
 source/numeric/integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 261a8ee..6a97b77 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -198,7 +198,7 @@ Integer quot(Integer const& z1, Integer const& z2) {
 
 Integer rem(Integer const& z1, Integer const& z2) {
     Integer r;
-    mpz_cdiv_r(r._mpz,z1._mpz,z2._mpz);
+    mpz_fdiv_r(r._mpz,z1._mpz,z2._mpz); // Consistent with mpz_div, which rounds down
     return r;
 }
 
-- 
2.43.0


From 272d53ec12d839220eefac4437eedbdea6e22373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 04/67] fix: Keep the full precision of a moved-from Dyadic

---
 source/numeric/dyadic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..74e99c1 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -175,7 +175,7 @@ Dyadic::Dyadic(const Dyadic& x) {
 }
 
 Dyadic::Dyadic(Dyadic&& x) {
-    mpf_init(_mpf);
+    mpf_init2(_mpf,maximum_precision); // The moved-from object must keep full precision
     mpf_swap(_mpf,x._mpf);
 }
 
-- 
2.43.0


From 355fd73bdb8a4b8b1e93fed8466e9d7a8b4e818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 05/67] fix: Only return the defined values when comparing
 Rationals

---
 source/numeric/rational.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..5faf13d 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -100,7 +100,7 @@ template<> class FiniteOperations<Rational> {
         if(mpq_cmp(q1._mpq,q2._mpq)<=0) { mpq_set(r._mpq,q1._mpq); } else { mpq_set(r._mpq,q2._mpq); } }
     static Void abs(Rational& r, Rational const& q) { mpq_abs(r._mpq,q._mpq); }
 
-    static Comparison cmp(Rational const& q1, Rational const& q2) { return static_cast<Comparison>(mpq_cmp(q1._mpq,q2._mpq)); }
+    static Comparison cmp(Rational const& q1, Rational const& q2) { int c=mpq_cmp(q1._mpq,q2._mpq); return c==0 ? Comparison::EQUAL : (c>0?Comparison::GREATER:Comparison::LESS); }
     static Boolean eq(Rational const& q1, Rational const& q2) { return mpq_equal(q1._mpq,q2._mpq); }
 };
 
@@ -463,7 +463,7 @@ Comparison cmp(ExactDouble const& x1, Rational const& q2) {
 }
 
 Comparison cmp(Rational const& q1, Int const& n2) {
-    return Comparison(mpq_cmp_si(q1._mpq,n2,1));
+    return cmp(q1,Rational(n2));
 }
 
 Comparison cmp(Int const& n1, Rational const& q2) {
-- 
2.43.0


From d83fdb86d9a6553c55d62f567513c26380dba014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 06/67] fix: Compare Decimals in the right order in <= and >

---
 source/numeric/decimal.hpp | 334 ++++++++++++++++++-------------------
 1 file changed, 167 insertions(+), 167 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 73de284..5ade4a1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -1,167 +1,167 @@
-/***************************************************************************
- *            numeric/decimal.hpp
- *
- *  Copyright  2014-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/decimal.hpp
- *  \brief ExactTag decimal numbers, useful for user input.
- */
-
-#ifndef ARIADNE_DECIMAL_HPP
-#define ARIADNE_DECIMAL_HPP
-
-#include <string>
-#include <iostream>
-#include "utility/typedefs.hpp"
-#include "numeric/number.decl.hpp"
-#include "numeric/integer.hpp"
-
-namespace Ariadne {
-
-//! \ingroup NumericModule
-//! \brief A decimal number.
-//! \sa Integer, Dyadic, Rational, Real
-class Decimal
-{
-  public:
-    static const Integer _ten;
-    Integer _p; Nat _q;
-  public:
-    typedef ExactTag Paradigm;
-    //! \brief Default constructor creates the number 0 (zero).
-    Decimal();
-    //! \brief Construct the number p/10^q.
-    explicit Decimal(Integer p, Nat q);
-    explicit Decimal(Integer p, Int q) = delete;
-    //! \brief Construct from a builtin integral type.
-    template<BuiltinIntegral N> Decimal(N n);
-    //! \brief Construct from a double-precision floating-point number representation.
-    explicit Decimal(double d);
-    //! \brief Construct from a string representation.
-    explicit Decimal(String const&);
-    //! \brief Convert from a dyadic.
-    Decimal(Dyadic const&);
-    //! \brief Convert to a rational number.
-    operator Rational () const;
-    //! \brief Convert to an generic number.
-    operator ExactNumber () const;
-    //! \brief A string literal
-    String literal() const;
-
-    //! \name Arithmetic operators
-    //!@{
-    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
-    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
-    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
-    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
-    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
-    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
-    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)!=Comparison::GREATER; } //!< <p/>
-    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
-    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)==Comparison::GREATER; } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
-    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
-    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
-    //!@}
-
-    //!@{
-    //! \name Lattice operations
-    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
-    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
-    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
-    //!@}
-
-    //! \brief Write to an output stream.
-    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
-    //! \brief Construct from an integer literal.
-    friend Decimal operator"" _decimal (unsigned long long int n);
-    //! \brief Construct from a floating-point literal.
-    friend Decimal operator"" _decimal (long double dbl);
-    //! \brief Construct from a string literal.
-    friend Decimal operator"" _decimal (const char* str, std::size_t);
-
-    //! \brief Shorthand for operator""_decimal.
-    friend Decimal operator"" _dec (long double dbl);
-
-    //! \brief Alternative for operator""_decimal for use in Python interface.
-    friend Decimal dec_(long double dbl);
-
-    void canonicalize();
-};
-Decimal operator"" _dec (unsigned long long int n);
-Decimal operator"" _dec (long double dbl);
-Decimal operator"" _dec (const char* str, std::size_t);
-Decimal operator"" _decimal (unsigned long long int n);
-Decimal operator"" _decimal (long double dbl);
-Decimal operator"" _decimal (const char* str, std::size_t);
-
-template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
-
-
-template<> class Positive<Decimal> : public Decimal {
-  public:
-    Positive() : Decimal() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
-using PositiveDecimal = Positive<Decimal>;
-
-template<> class Bounds<Decimal> {
-    Decimal _l, _u;
-  public:
-    Bounds(Decimal w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
-        : Bounds(Decimal(x)) { }
-    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
-        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Decimal lower() const { return _l; }
-    Decimal upper() const { return _u; }
-    Decimal lower_raw() const { return _l; }
-    Decimal upper_raw() const { return _u; }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/decimal.hpp
+ *
+ *  Copyright  2014-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/decimal.hpp
+ *  \brief ExactTag decimal numbers, useful for user input.
+ */
+
+#ifndef ARIADNE_DECIMAL_HPP
+#define ARIADNE_DECIMAL_HPP
+
+#include <string>
+#include <iostream>
+#include "utility/typedefs.hpp"
+#include "numeric/number.decl.hpp"
+#include "numeric/integer.hpp"
+
+namespace Ariadne {
+
+//! \ingroup NumericModule
+//! \brief A decimal number.
+//! \sa Integer, Dyadic, Rational, Real
+class Decimal
+{
+  public:
+    static const Integer _ten;
+    Integer _p; Nat _q;
+  public:
+    typedef ExactTag Paradigm;
+    //! \brief Default constructor creates the number 0 (zero).
+    Decimal();
+    //! \brief Construct the number p/10^q.
+    explicit Decimal(Integer p, Nat q);
+    explicit Decimal(Integer p, Int q) = delete;
+    //! \brief Construct from a builtin integral type.
+    template<BuiltinIntegral N> Decimal(N n);
+    //! \brief Construct from a double-precision floating-point number representation.
+    explicit Decimal(double d);
+    //! \brief Construct from a string representation.
+    explicit Decimal(String const&);
+    //! \brief Convert from a dyadic.
+    Decimal(Dyadic const&);
+    //! \brief Convert to a rational number.
+    operator Rational () const;
+    //! \brief Convert to an generic number.
+    operator ExactNumber () const;
+    //! \brief A string literal
+    String literal() const;
+
+    //! \name Arithmetic operators
+    //!@{
+    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
+    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
+    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
+    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
+    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
+    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
+    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
+    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
+    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
+    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
+    //!@}
+
+    //!@{
+    //! \name Lattice operations
+    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
+    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
+    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
+    //!@}
+
+    //! \brief Write to an output stream.
+    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
+    //! \brief Construct from an integer literal.
+    friend Decimal operator"" _decimal (unsigned long long int n);
+    //! \brief Construct from a floating-point literal.
+    friend Decimal operator"" _decimal (long double dbl);
+    //! \brief Construct from a string literal.
+    friend Decimal operator"" _decimal (const char* str, std::size_t);
+
+    //! \brief Shorthand for operator""_decimal.
+    friend Decimal operator"" _dec (long double dbl);
+
+    //! \brief Alternative for operator""_decimal for use in Python interface.
+    friend Decimal dec_(long double dbl);
+
+    void canonicalize();
+};
+Decimal operator"" _dec (unsigned long long int n);
+Decimal operator"" _dec (long double dbl);
+Decimal operator"" _dec (const char* str, std::size_t);
+Decimal operator"" _decimal (unsigned long long int n);
+Decimal operator"" _decimal (long double dbl);
+Decimal operator"" _decimal (const char* str, std::size_t);
+
+template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
+
+
+template<> class Positive<Decimal> : public Decimal {
+  public:
+    Positive() : Decimal() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
+using PositiveDecimal = Positive<Decimal>;
+
+template<> class Bounds<Decimal> {
+    Decimal _l, _u;
+  public:
+    Bounds(Decimal w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
+        : Bounds(Decimal(x)) { }
+    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
+        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Decimal lower() const { return _l; }
+    Decimal upper() const { return _u; }
+    Decimal lower_raw() const { return _l; }
+    Decimal upper_raw() const { return _u; }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From b91623d5b188f05c761d0e6fce17df306b6c38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:13 +0000
Subject: [PATCH 07/67] fix: Convert builtin unsigned integers of 2^63 and
 above to Rational

---
 source/numeric/rational.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/rational.hpp b/source/numeric/rational.hpp
index b49290f..a8a1017 100644
--- a/source/numeric/rational.hpp
+++ b/source/numeric/rational.hpp
@@ -197,7 +197,7 @@ template<> struct IsNumber<Rational> : True { };
 Rational operator"" _q(unsigned long long int n);
 Rational operator"" _q(long double x);
 
-template<BuiltinIntegral N> inline Rational::Rational(N n) : Rational(Int64(n)) { }
+template<BuiltinIntegral N> inline Rational::Rational(N n) : Rational(Integer(n)) { }
 
 OutputStream& write(OutputStream& os, mpz_t const z);
 InputStream& operator>>(InputStream& is, Rational& q1);
-- 
2.43.0


From a69f79c3ee9d10b9102829dc4a7cbf19f5b517e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:24 +0000
Subject: [PATCH 08/67] fix: Round double-precision elementary functions in the
 requested direction

sqrt did not terminate for some arguments when rounding upwards; cos and tan
returned values on the wrong side of the exact one; exp, sin, asin and acos
failed an assertion or lost most digits for large arguments or arguments near
multiples of pi/2, and log(0) was +inf. Use MPFR, which is correctly rounded.
---
 source/numeric/double.cpp           | 371 ++--------------------------
 source/numeric/float_bounds.tpl.hpp |   4 +
 2 files changed, 29 insertions(+), 346 deletions(-)

diff --git a/source/numeric/double.cpp b/source/numeric/double.cpp
index b45cc4a..2cee02a 100644
--- a/source/numeric/double.cpp
+++ b/source/numeric/double.cpp
@@ -54,9 +54,7 @@ Void set_default_builtin_rounding() { set_builtin_rounding_upward(); }
 static const double _pi_up=3.1415926535897936;
 static const double _pi_down=3.1415926535897931;
 
-static const double _quarter_pi_approx=0.78539816339744828;
 static const double _pi_approx=3.1415926535897931;
-static const double _two_pi_approx=6.2831853071795862;
 static const double _sqrt2_approx=0.70710678118654757;
 static const double _log2_approx=0.6931471805599453094;
 
@@ -121,90 +119,34 @@ double pow_rnd(double x, Int n)
     else { volatile double r=-1.0/x; return pow_rnd(r,Nat(-n)); }
 }
 
-double sqrt_rnd(double x)
+// Compute an elementary function in the current rounding mode.
+static double apply_rnd(int (*fn)(mpfr_ptr,mpfr_srcptr,mpfr_rnd_t), double x)
 {
-    // long int c[]={ 0, 6, -360, 15120, -604800, 23950080, -946218790, 37362124800 };
-    ARIADNE_ASSERT_MSG(x>=0, " x = "<<x);
-
-    if(x==0.0) { return 0.0; }
-    Int n; volatile double y,a,b;
-    y=frexp(x,&n);
-    if(n%2) { y=y*2; n-=1; }
-    assert(y>=0.5 && y<=2.0);
-
-    a=0.0; b=y;
-    while(a!=b) {
-        a=b;
-        b=(a+y/a)/2;
+    mpfr_rnd_t rnd;
+    switch(get_builtin_rounding_mode()) {
+        case ROUND_DOWNWARD: rnd=MPFR_RNDD; break;
+        case ROUND_UPWARD: rnd=MPFR_RNDU; break;
+        case ROUND_TOWARD_ZERO: rnd=MPFR_RNDZ; break;
+        default: rnd=MPFR_RNDN;
     }
-
-    return ldexp(b,n/2);
+    mpfr_t r; mpfr_init2(r,std::numeric_limits<double>::digits);
+    mpfr_set_d(r,x,MPFR_RNDN);
+    fn(r,r,rnd);
+    double y=mpfr_get_d(r,rnd);
+    mpfr_clear(r);
+    return y;
 }
 
-
-double pos_sin_rnd_series(double x);
-double neg_sin_rnd_series(double x);
-double pos_cos_rnd_series(double x);
-double neg_cos_rnd_series(double x);
-double tan_rnd_series(double x);
-
-
-double texp(double x) {
-    double r=1.0; double t=1.0;
-    for(Nat i=1; i!=20; ++i) {
-        t*=x; t/=i; r+=t;
-    }
-    return r;
+double sqrt_rnd(double x)
+{
+    ARIADNE_ASSERT_MSG(x>=0, " x = "<<x);
+    return apply_rnd(&mpfr_sqrt,x);
 }
 
 // Correctly rounded exponential function
 double exp_rnd(double x)
 {
-    static const long long int c[7]={ 1LL, 6LL, -360LL, 15120LL, -604800LL, 23950080LL, -946218790LL };
-
-    // Set w=r(exp(r)+1)/(exp(r)-1).
-    // Then w=2 + s/c1 + s^2/c2 + ...
-    // where s=r^2, and
-    // and exp(r) = y = (w+r)/(w-r)
-    // The first six terms are sufficient to compute w
-    // Note that we always have w>0 and y>0
-
-    // Note that dy/dr = 2w/(w-e)^2 > 0
-    // and dy/dw = -2r/(w-r)^2, so if r<0 we need to under-approximate w
-
-    if(x==0.0) { return 1.0; }
-    double n=std::floor(x/_log2_approx+0.5);
-    volatile double r,s,t,w,y;
-    volatile double log2;
-    log2=(n>0.0) ? next_opp(_log2_approx) : next_rnd(_log2_approx);
-    r=x+(-n)*log2;
-
-    ARIADNE_ASSERT_MSG(r>=-0.4, " r = "<<r<<", x = "<<x);
-    ARIADNE_ASSERT_MSG(r<=+0.4, " r = "<<r<<", x = "<<x);
-
-    if(r<0) {
-        // Compute w by standard Horner's rule gives correct rounding since w is monotone increasing in s
-        s = r*r;
-        w = 1+horner_rnd(6,s,c);
-        //c[0] + s * (1./c[1] + s * (1./c[2] + s * (1./c[3] + s * (1./c[4] + s * (1./c[5] + s * (1./c[6]) ) ) ) ) );
-    } else {
-        // Compute -w by standard Horner's rule gives opposite rounding since w is monotone increasing in s
-        s = (-r)*r; s=-s;
-        w = horner_opp(6,s,c);
-        w = -1-w; w=-w;
-        //w = -c[0] + s * (-1./c[1] + s * (-1./c[2] + s * (-1./c[3] + s * (-1./c[4] + s * (-1./c[5] + s * (-1./c[6]) ) ) ) ) );
-        //w=-w;
-    }
-
-    t=r-w;
-    y=(w+r)/(-t);
-
-
-    long int m=static_cast<long int>(n);
-    Int e;
-    volatile double z=frexp(y,&e);
-    z=ldexp(z,m+e);
-    return z;
+    return apply_rnd(&mpfr_exp,x);
 }
 
 
@@ -225,7 +167,7 @@ double log_rnd(double x) {
     // Note that if z<0 (corresponding to y<1) then we need to use
     // opposite rounding to compute s and w.
 
-    if(x==0.0) { return std::numeric_limits<double>::infinity(); }
+    if(x==0.0) { return -std::numeric_limits<double>::infinity(); }
     if(x==1.0) { return 0.0; }
 
     Int n;
@@ -272,42 +214,7 @@ double pi_opp() {
 }
 
 double sin_rnd(double x) {
-    volatile double two_pi_rnd=2*pi_rnd();
-    volatile double two_pi_opp=2*pi_opp();
-
-    volatile double half_pi_rnd=two_pi_rnd/4;
-    volatile double half_pi_opp=two_pi_opp/4;
-
-    Int q = (long int)(std::floor(x/_quarter_pi_approx)) % 8;
-    if(q<-4) { q+=8; } if(q>=4) { q-=8; }
-    volatile double n=-std::floor(x/_two_pi_approx+0.5);
-
-    volatile double y,w,s;
-
-    // Set to true if sin is decreasing so we want opposite rounding
-    Bool want_opposite=(q<-2||q>=2);
-    // if n is negative then we need to switch rounding of two_pi
-    volatile double two_pi_corr=((n>=0.0) ^ want_opposite) ? two_pi_rnd : two_pi_opp;
-
-    // Scale onto interval from -pi to pi
-    if(want_opposite) { y=-x+(-n)*(two_pi_corr); y=-y; } else { y=x+n*two_pi_corr; }
-
-    assert(-_two_pi_approx<=y && y<=_two_pi_approx);
-
-
-    switch(q) {
-    case -4: { w = -y - 2*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case -3: { w = -y - 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case +0: { w = +y + 0*half_pi_opp; w=+w; s=pos_sin_rnd_series(w); break; }
-    case +1: { w = +y - 1*half_pi_opp; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; s=pos_sin_rnd_series(w); break; }
-    default: { s=0; assert(false); }
-    }
-
-    return s;
+    return apply_rnd(&mpfr_sin,x);
 }
 
 inline double max(double x1, double x2) { return std::max(x1,x2); }
@@ -337,222 +244,11 @@ double neg_rec_opp(double x) { volatile double t=1.0/x; return -t; }
 
 
 double cos_rnd(double x) {
-    const double pi_rnd=Ariadne::pi_rnd();
-    const double pi_opp=Ariadne::pi_opp();
-    const double half_pi_rnd=pi_rnd/2;
-
-    if(x==0.0) { return 1.0; }
-
-    // Compute a constant n such that n*pi<x<(n+1)*pi
-    long int n_rnd=(long int)(std::floor(div_rnd(x,pi_opp)));
-    long int n_opp=(long int)(std::floor(div_opp(x,pi_rnd)));
-
-    if(n_rnd!=n_opp) {
-        if(n_rnd>n_opp) {
-            // Rounding upwards
-            if(n_rnd%2==0) { return 1.0; }
-            volatile double y1=sub_rnd(pi_rnd*n_rnd,x);
-            volatile double y2=sub_rnd(x,pi_opp*n_rnd);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return neg_cos_rnd_series(w);
-        } else {
-            // Rounding downwards
-            if(n_rnd%2==0) { return -1.0; }
-            volatile double y1=sub_opp(pi_opp*n_opp,x);
-            volatile double y2=sub_opp(x,pi_rnd*n_opp);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return pos_cos_rnd_series(w);
-        }
-    }
-
-
-    // Set y=x-n*pi (with opposite rounding) if n is even
-    // and to (n+1)*pi-x (with opposite rounding) if n is odd
-    volatile double y;
-    if(n_rnd%2==0) {
-        y=sub_opp(x,mul_rnd(n_rnd,pi_rnd));
-    } else {
-        y=sub_opp(mul_opp(n_rnd+1,pi_opp),x);
-    }
-
-    Int q = (long int)(std::floor(y/_quarter_pi_approx)) % 8;
-    assert(q<=4);
-
-    volatile double w,c;
-    if(q==0) {
-        w=y;
-        c=pos_cos_rnd_series(w);
-    } else if(q==1 || q==2) {
-        w=sub_rnd(pi_rnd/2,y);
-        if(w>=0.0) { c=pos_sin_rnd_series(w); }
-        else { c=neg_sin_rnd_series(-w); }
-    } else if(q==3 || q==4) {
-        w=sub_opp(pi_opp,y);
-        c=neg_cos_rnd_series(w);
-    } else {
-        w=0;c=0;
-        assert(false);
-    }
-
-    return c;
-
-
-
-    volatile double z=0.0;
-
-    ARIADNE_ASSERT(-_two_pi_approx<=y && y<=_two_pi_approx);
-    switch(q) {
-    case -4: { w = +y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    case -3: { w = +y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +0: { w = -y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +1: { w = -y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    default: { assert(false); }
-    }
-
-    return c;
-}
-
-
-double pos_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=x*x; w=horner_rnd(8,s,c); y=x*w;
-
-
-    return y;
-}
-
-double neg_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=(-x)*x; s=-s; w=horner_opp(8,s,c); y=x*(-w);
-
-
-    return y;
-}
-
-
-double pos_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-
-    // Compute cos(x) by Taylor series. Since cos(x) is decreasing in x^2,
-    // we need to use opposite rounding for the computation of x^2
-
-    volatile double s,y;
-    s=(-x)*x;
-    s=-s;
-    y=0.0;
-    y=horner_rnd(8,s,c);
-    return y;
-}
-
-double neg_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-    volatile double s,y;
-    s=x*x;
-    y=0.0;
-    y=horner_opp(8,s,c);
-    return -y;
+    return apply_rnd(&mpfr_cos,x);
 }
 
 double tan_rnd(double x) {
-
-    volatile double y,q,r,s,t,u,v;
-
-    double n=std::floor(x/_pi_approx+0.5);
-
-    volatile double pi_corr=(n>=0) ? next_opp(_pi_approx) : next_rnd(_pi_approx);
-    y=x-n*pi_corr;
-
-
-    ARIADNE_ASSERT(y>=-_pi_up/2);
-    ARIADNE_ASSERT(y<=+_pi_up/2);
-
-    // Use the double-angle formula tan(2x) = tan(x)/(1-tan^2(x))
-    // Note that the function y/(1-y^2) is monotone increasing for |y|<1
-    // To get enough accuracy, we use the double angle formula twice,
-    // ensuring that |x|<=pi/8.
-
-    q=y/4;
-    r=tan_rnd_series(q);
-    if(y>=0) {
-        u=r*r-1;
-        s=(2*r)/(-u);
-        v=s*s-1;
-        t=(2*s)/(-v);
-    } else {
-        u=(-r)*r;
-        u=1+u;
-        s=(2*r)/u;
-        v=(-s)*s;
-        v=1+v;
-        t=(2*s)/v;
-    }
-    return t;
-}
-
-double tan_rnd_series(double x) {
-    // Need |x|<=pi/8
-    ARIADNE_ASSERT(x>=-_pi_up/8);
-    ARIADNE_ASSERT(x<=+_pi_up/8);
-
-    // Numerators of Taylor coefficients
-    static const int64_t cn[13]={
-        1LL, 1LL, 2LL, 17LL, 62LL, 1382LL, 21844LL, 929569LL, 6404582LL, 443861162LL,
-        18888466084LL, 113927491862LL, 58870668456604LL };
-
-    // Denominators of Taylor coefficients
-    static const int64_t cd[13]={
-        1LL, 3LL, 15LL, 315LL, 2835LL, 155925LL, 6081075LL, 638512875LL, 10854718875LL, 1856156927625LL,
-        194896477400625LL, 2900518163668125LL, 3698160658676859375LL };
-
-
-    // To get enough accuracy, we need |x|<pi/8
-    // since we can't store the rational coefficients exactly.
-    // Note that we could in principle use approximations to the
-    // coesfficients, but this goes against the "spirit" of the code.
-
-    volatile double c,s,w,r;
-    if(x>=0) {
-        s=x*x;
-        w=double(cn[12])/cd[12];
-        for(Int i=11; i>=0; --i) {
-            c=double(cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*w;
-    } else {
-        s=(-x)*x; s=-s;
-        w=double(-cn[12])/cd[12];
-        for(Int i=12; i>=0; --i) {
-            c=double(-cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*(-w);
-    }
-    return r;
+    return apply_rnd(&mpfr_tan,x);
 }
 
 double atan_rnd_series(double x) {
@@ -615,28 +311,11 @@ double atan_rnd(double x) {
 }
 
 double asin_rnd(double x) {
-    // WARNING: Correctness of rounding has not been properly checked
-    // asin(x)=atan(x/sqrt(1-x*x))=atan(x*sqrt(1/(1-x*x)))
-    if (x>=0) {
-        // y=atan(x*sqrt(v)), w=sqrt(v), v=-1/u, u=x^2-1
-        volatile double u=x*x-1.0;
-        volatile double v=(-1.0)/u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x*w);
-    } else {
-        // y=atan(x/w), w=sqrt(v), v=1+x*u, u=-x
-        volatile double u=-x;
-        volatile double v=1.0+x*u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x/w);
-    }
-    // Alternatively, use Newton iteration
-    // y=asin(x), sin(y)-x=0, y' = y-(sin(y)-x)/cos(y)=y+(sin(y)-x)/-cos(y)
-    // For x>0, starting with y=x gives increasing sequence
+    return apply_rnd(&mpfr_asin,x);
 }
 
 double acos_rnd(double x) {
-    return pi_rnd()/2.0+asin_rnd(-x);
+    return apply_rnd(&mpfr_acos,x);
 }
 
 } // namespace Ariadne
diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 4cfdb97..a564fd0 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -72,6 +72,10 @@ template<class F> auto Operations<Bounds<F>>::_pi(PR pr) -> Bounds<F> {
 }
 
 template<class F> auto Operations<Bounds<F>>::_sin(Bounds<F> const& x) -> Bounds<F> {
+    // If the cosine has constant sign, then the sine is monotone, and attains its bounds at the endpoints
+    Bounds<F> c=cos(x);
+    if(c.lower_raw()>0.0_x) { return Bounds<F>(sin(down,x._l),sin(up,x._u)); }
+    if(c.upper_raw()<0.0_x) { return Bounds<F>(sin(down,x._u),sin(up,x._l)); }
     return cos(x-hlf(_pi(x.precision())));
 }
 
-- 
2.43.0


From 3f129fa9849906caa7eccb2613e8622396008ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:57 +0000
Subject: [PATCH 09/67] fix: Do not silently round builtin integers converted
 to floats

A 64-bit integer not exactly representable as a double was converted with
the current rounding mode by ExactDouble(n), FloatDP(n,pr) and Float(n,rnd,pr).
---
 source/numeric/builtin.hpp | 3 ++-
 source/numeric/floatdp.hpp | 4 ++--
 source/numeric/floatmp.hpp | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/numeric/builtin.hpp b/source/numeric/builtin.hpp
index 6e88b00..e4788ca 100644
--- a/source/numeric/builtin.hpp
+++ b/source/numeric/builtin.hpp
@@ -119,7 +119,8 @@ class ExactDouble {
     typedef ExactTag Paradigm;
     double get_d() const { return this->_d; }
     ExactDouble() : _d() { }
-    template<BuiltinIntegral N> ExactDouble(N n) : _d(n) { assert(_d==n); }
+    template<BuiltinIntegral N> ExactDouble(N n) : _d(n) {
+        ARIADNE_ASSERT_MSG(static_cast<long double>(_d)==static_cast<long double>(n),"The value "<<n<<" should be exactly representable as a double."); }
     template<BuiltinFloatingPoint X> explicit ExactDouble(X const& x) : _d(x) { assert(std::isnan(_d) || (_d==x)); }
     static ExactDouble infinity() { return ExactDouble(std::numeric_limits<double>::infinity()); }
     operator ExactNumber() const;
diff --git a/source/numeric/floatdp.hpp b/source/numeric/floatdp.hpp
index 6020dea..a67dfd0 100644
--- a/source/numeric/floatdp.hpp
+++ b/source/numeric/floatdp.hpp
@@ -158,7 +158,7 @@ template<> class Float<DP>
     //! \brief Convert from a built-in double-precision floating-point number.
 //    explicit Float(ExactDouble const& x);
 //    explicit Float(double x, DoublePrecision) : dbl(x) { }
-    template<BuiltinIntegral N> Float(N n, DoublePrecision) : dbl(n) { }
+    template<BuiltinIntegral N> Float(N n, DoublePrecision) : dbl(ExactDouble(n).get_d()) { }
     Float(ExactDouble const& x, DoublePrecision);
     Float(TwoExp const& x, DoublePrecision);
     Float(Dyadic const& w, DoublePrecision);
@@ -179,7 +179,7 @@ template<> class Float<DP>
     explicit Float(FloatDP const& d, RoundingModeType rnd, PrecisionType pr);
     //! \brief Construct from an integer using given rounding
     template<BuiltinIntegral N> explicit Float(N n, RoundingModeType rnd, PrecisionType pr)
-        : Float(ExactDouble(n),rnd,pr) { }
+        : Float(Integer(n),rnd,pr) { }
     //! \brief Construct from an integer using given rounding
     explicit Float(ExactDouble x, RoundingModeType rnd, PrecisionType pr)
         : Float(x.get_d()) { }
diff --git a/source/numeric/floatmp.hpp b/source/numeric/floatmp.hpp
index c747110..c8dc34b 100644
--- a/source/numeric/floatmp.hpp
+++ b/source/numeric/floatmp.hpp
@@ -171,7 +171,7 @@ template<> class Float<MP>
     FloatMP& operator=(FloatMP&& x); //!< <p/>
 
     template<BuiltinIntegral N> Float(N n, RoundingModeType rnd, PrecisionType pr)
-        : FloatMP(ExactDouble(n),rnd,pr) { } //!< <p/>
+        : FloatMP(Integer(n),rnd,pr) { } //!< <p/>
     Float(ExactDouble, RoundingModeType, PrecisionType); //!< <p/>
     Float(FloatDP const&, RoundingModeType, PrecisionType); //!< <p/>
 
-- 
2.43.0


From 080ee0e51087be4c7b6d1b887a0bbf4f804b63b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:57 +0000
Subject: [PATCH 10/67] fix: Round Dyadic and Rational values to FloatDP in the
 requested direction

The conversion stepped one ulp at a time until on the right side, which did
not terminate for large and tiny values, and was not correctly rounded.
---
 source/numeric/floatdp.cpp | 47 +++++++++-----------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/source/numeric/floatdp.cpp b/source/numeric/floatdp.cpp
index b3062db..9105e43 100644
--- a/source/numeric/floatdp.cpp
+++ b/source/numeric/floatdp.cpp
@@ -58,6 +58,15 @@ int abslog10floor(double x);
 
 static_assert(not GenericNumber<FloatDP>);
 
+static MPFRRoundingModeType to_mpfr_rounding_mode(BuiltinRoundingModeType rnd) {
+    switch(rnd) {
+        case FloatDP::ROUND_DOWNWARD: return FloatMP::ROUND_DOWNWARD;
+        case FloatDP::ROUND_UPWARD: return FloatMP::ROUND_UPWARD;
+        case FloatDP::ROUND_TOWARD_ZERO: return FloatMP::ROUND_TOWARD_ZERO;
+        default: return FloatMP::ROUND_TO_NEAREST;
+    }
+}
+
 FloatDP::Float(ExactDouble const& d, PrecisionType)
     : FloatDP(d.get_d())
 {
@@ -89,21 +98,8 @@ FloatDP::Float(Integer const& x, RoundingModeType rnd, PrecisionType pr)
 }
 
 FloatDP::Float(Dyadic const& w, RoundingModeType rnd, PrecisionType pr)
-    : FloatDP(w.get_d())
+    : FloatDP(FloatMP(w,to_mpfr_rounding_mode(rnd),MultiplePrecision(pr)),rnd,pr)
 {
-    if (is_finite(w)) {
-         RoundingModeType old_rnd=get_rounding_mode();
-         if(rnd==ROUND_UPWARD) {
-             set_rounding_upward();
-             while (Dyadic(dbl)<w) { dbl=dbl+std::numeric_limits<double>::min(); }
-             set_rounding_mode(old_rnd);
-         }
-         if(rnd==ROUND_DOWNWARD) {
-             set_rounding_downward();
-             while (Dyadic(dbl)>w) { dbl=dbl-std::numeric_limits<double>::min(); }
-             set_rounding_mode(old_rnd);
-         }
-     }
 }
 
 FloatDP::Float(Decimal const& dec, RoundingModeType rnd, PrecisionType pr)
@@ -111,24 +107,9 @@ FloatDP::Float(Decimal const& dec, RoundingModeType rnd, PrecisionType pr)
 {
 }
 
-inline Rational cast_rational(double d) { return Rational(ExactDouble(d)); }
-
 FloatDP::Float(Rational const& q, RoundingModeType rnd, PrecisionType pr)
-    : FloatDP(q.get_d())
+    : FloatDP(FloatMP(q,to_mpfr_rounding_mode(rnd),MultiplePrecision(pr)),rnd,pr)
 {
-    if (is_finite(q)) {
-        RoundingModeType old_rnd=get_rounding_mode();
-        if(rnd==ROUND_UPWARD) {
-            set_rounding_upward();
-            while (cast_rational(dbl)<q) { dbl=dbl+std::numeric_limits<double>::min(); }
-            set_rounding_mode(old_rnd);
-        }
-        if(rnd==ROUND_DOWNWARD) {
-            set_rounding_downward();
-            while (cast_rational(dbl)>q) { dbl=dbl-std::numeric_limits<double>::min(); }
-            set_rounding_mode(old_rnd);
-        }
-    }
 }
 
 FloatDP::Float(FloatDP const& x, RoundingModeType rnd, PrecisionType)
@@ -276,12 +257,6 @@ OutputStream& write(OutputStream& os, FloatDP const& x, Nat bits, BuiltinRoundin
 OutputStream& write(OutputStream& os, FloatMP const& x, DecimalPlaces plcs, MPFRRoundingModeType rnd);
 OutputStream& write(OutputStream& os, FloatMP const& x, DecimalPrecision figs, MPFRRoundingModeType rnd);
 
-MPFRRoundingModeType to_mpfr_rounding_mode(BuiltinRoundingModeType rnd) {
-    assert(rnd==ROUND_TO_NEAREST || rnd==ROUND_UPWARD || rnd==ROUND_DOWNWARD);
-    return (rnd==FloatDP::ROUND_TO_NEAREST) ? FloatMP::ROUND_TO_NEAREST
-               : (rnd==FloatDP::ROUND_DOWNWARD) ? FloatMP::ROUND_DOWNWARD : FloatMP::ROUND_UPWARD;
-}
-
 String FloatDP::literal() const {
     StringStream ss;
     write(ss,*this,DecimalPrecision(53),near);
-- 
2.43.0


From 532601a02278df7cf969fcb0cb4166030ec7cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:57 +0000
Subject: [PATCH 11/67] fix: Round outward when converting a double or integer
 to validated floats

LowerBound, UpperBound, Bounds and Error of low precision constructed from a
double or integer were not rounded in the right direction, and Ball ignored the rounding error.
---
 source/numeric/float_ball.tpl.hpp    | 2 +-
 source/numeric/float_bounds.hpp      | 6 +++---
 source/numeric/float_error.hpp       | 2 +-
 source/numeric/float_lower_bound.hpp | 2 +-
 source/numeric/float_upper_bound.hpp | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index 5bb60be..ab386d0 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -66,7 +66,7 @@ template<class F, class FE> Ball<F,FE>::Ball(Ball<F,FE> const& x, PR pr)
     F d = (this->_v>=x._v) ? sub(up,this->_v,x._v) : sub(up,x._v,this->_v); _e=add(up,_e,_make_error<FE>(d));
 }
 
-template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : _v(d,pr), _e(0,_error_precision<PRE>(pr)) {}
+template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : _v(d,near,pr), _e(abs(Dyadic(_v)-Dyadic(d)),up,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(TwoExp const& t, PR pr) : _v(t,pr), _e(0u,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Integer const& z, PR pr) : _v(z,near,pr), _e(abs(Dyadic(_v)-z),up,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Dyadic const& w, PR pr) : _v(w,near,pr), _e(abs(Dyadic(_v)-w),up,_error_precision<PRE>(pr)) {}
diff --git a/source/numeric/float_bounds.hpp b/source/numeric/float_bounds.hpp
index d57ce50..466c525 100644
--- a/source/numeric/float_bounds.hpp
+++ b/source/numeric/float_bounds.hpp
@@ -107,8 +107,8 @@ template<class F> class Bounds
     Bounds(ValidatedLowerNumber const& lower, UpperBound<F> const& upper);
     //! Construct from a lower bound \a lower and an upper bound \a upper, using precsion \a pr.
     Bounds(ValidatedLowerNumber const& lower, ValidatedUpperNumber const& upper, PR pr);
-    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,pr), _u(n2,pr) { }
-    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,pr), _u(du,pr) { }
+    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,down,pr), _u(n2,up,pr) { }
+    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Dyadic const& wl, Dyadic const& wu, PrecisionType pr) : _l(wl,down,pr), _u(wu,up,pr) { }
     Bounds(Decimal const& dl, Decimal const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Rational const& ql, Rational const& qu, PrecisionType pr) : _l(ql,down,pr), _u(qu,up,pr) { }
@@ -118,7 +118,7 @@ template<class F> class Bounds
     Bounds(const Bounds<F>& x, PR pr) : _l(x._l,down,pr), _u(x._u,up,pr) { }
 
     template<BuiltinIntegral N> Bounds(N n, PR pr) : _l(n,down,pr), _u(n,up,pr) { }
-    Bounds(ExactDouble const& d, PR pr) : _l(d,pr), _u(d,pr) { }
+    Bounds(ExactDouble const& d, PR pr) : _l(d,down,pr), _u(d,up,pr) { }
         Bounds(TwoExp const& t, PR pr) : _l(t,pr), _u(t,pr) { }
         Bounds(const Integer& z, PR pr) : _l(z,down,pr), _u(z,up,pr) { }
         Bounds(const Dyadic& w, PR pr) : _l(w,down,pr), _u(w,up,pr) { }
diff --git a/source/numeric/float_error.hpp b/source/numeric/float_error.hpp
index 9dcc7c5..1093bd6 100644
--- a/source/numeric/float_error.hpp
+++ b/source/numeric/float_error.hpp
@@ -77,7 +77,7 @@ template<class F> class Error
     //! \todo Check error not being negative to allow for NaN as a valid input.
     explicit Error(F const& e) : _e(e) { ARIADNE_PRECONDITION_MSG(!(this->_e<0),"e="<<*this); }
     //! Treat the natural number \a m as an upper-bound for an error, represented with precision \a pr.
-    template<BuiltinUnsignedIntegral M> Error(M m, PR pr) : _e(m,pr) { }
+    template<BuiltinUnsignedIntegral M> Error(M m, PR pr) : _e(m,up,pr) { }
     explicit Error(UpperBound<F> const& x) : Error(x._u) { }
     //! Treat \a y as an upper-bound for an error, represented with precision \a pr.
     //! \pre Requires that \a y is not definitely strictly negative.
diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 0249204..c9ec3a2 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class LowerBound
     LowerBound(RawType const& l) : _l(l) { }
 
     template<BuiltinIntegral N> LowerBound(N n, PR pr) : LowerBound(ExactDouble(n),pr) { }
-    LowerBound(const ExactDouble& d, PR pr) : _l(d,pr) { }
+    LowerBound(const ExactDouble& d, PR pr) : _l(d,down,pr) { }
         LowerBound(const TwoExp& t, PR pr) : _l(t,pr) { }
         LowerBound(const Integer& z, PR pr) : _l(z,down,pr) { }
         LowerBound(const Dyadic& w, PR pr) : _l(w,down,pr) { }
diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 1180d6f..76132e8 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class UpperBound
     UpperBound(RawType const& u) : _u(u) { }
 
     template<BuiltinIntegral N> UpperBound(N n, PR pr) : UpperBound(ExactDouble(n),pr) { }
-    UpperBound(const ExactDouble& d, PR pr) : _u(d,pr) { }
+    UpperBound(const ExactDouble& d, PR pr) : _u(d,up,pr) { }
         UpperBound(const TwoExp& t, PR pr) : _u(t,pr) { }
         UpperBound(const Integer& z, PR pr) : _u(z,up,pr) { }
         UpperBound(const Dyadic& w, PR pr) : _u(w,up,pr) { }
-- 
2.43.0


From 4ac9ac99f4ef200e06c58cefa4021f707332b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:07 +0000
Subject: [PATCH 12/67] fix: Restore the line ends of decimal.hpp

---
 source/numeric/decimal.hpp | 334 ++++++++++++++++++-------------------
 1 file changed, 167 insertions(+), 167 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 5ade4a1..8c465b1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -1,167 +1,167 @@
-/***************************************************************************
- *            numeric/decimal.hpp
- *
- *  Copyright  2014-20  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/decimal.hpp
- *  \brief ExactTag decimal numbers, useful for user input.
- */
-
-#ifndef ARIADNE_DECIMAL_HPP
-#define ARIADNE_DECIMAL_HPP
-
-#include <string>
-#include <iostream>
-#include "utility/typedefs.hpp"
-#include "numeric/number.decl.hpp"
-#include "numeric/integer.hpp"
-
-namespace Ariadne {
-
-//! \ingroup NumericModule
-//! \brief A decimal number.
-//! \sa Integer, Dyadic, Rational, Real
-class Decimal
-{
-  public:
-    static const Integer _ten;
-    Integer _p; Nat _q;
-  public:
-    typedef ExactTag Paradigm;
-    //! \brief Default constructor creates the number 0 (zero).
-    Decimal();
-    //! \brief Construct the number p/10^q.
-    explicit Decimal(Integer p, Nat q);
-    explicit Decimal(Integer p, Int q) = delete;
-    //! \brief Construct from a builtin integral type.
-    template<BuiltinIntegral N> Decimal(N n);
-    //! \brief Construct from a double-precision floating-point number representation.
-    explicit Decimal(double d);
-    //! \brief Construct from a string representation.
-    explicit Decimal(String const&);
-    //! \brief Convert from a dyadic.
-    Decimal(Dyadic const&);
-    //! \brief Convert to a rational number.
-    operator Rational () const;
-    //! \brief Convert to an generic number.
-    operator ExactNumber () const;
-    //! \brief A string literal
-    String literal() const;
-
-    //! \name Arithmetic operators
-    //!@{
-    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
-    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
-    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
-    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
-    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
-    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
-    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
-    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
-    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Arithmetic operations
-    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
-    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
-    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
-    //!@}
-
-    //!@{
-    //! \name Lattice operations
-    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
-    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
-    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
-    //!@}
-
-    //!@{
-    //! \name Comparison operations
-    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
-    //!@}
-
-    //! \brief Write to an output stream.
-    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
-    //! \brief Construct from an integer literal.
-    friend Decimal operator"" _decimal (unsigned long long int n);
-    //! \brief Construct from a floating-point literal.
-    friend Decimal operator"" _decimal (long double dbl);
-    //! \brief Construct from a string literal.
-    friend Decimal operator"" _decimal (const char* str, std::size_t);
-
-    //! \brief Shorthand for operator""_decimal.
-    friend Decimal operator"" _dec (long double dbl);
-
-    //! \brief Alternative for operator""_decimal for use in Python interface.
-    friend Decimal dec_(long double dbl);
-
-    void canonicalize();
-};
-Decimal operator"" _dec (unsigned long long int n);
-Decimal operator"" _dec (long double dbl);
-Decimal operator"" _dec (const char* str, std::size_t);
-Decimal operator"" _decimal (unsigned long long int n);
-Decimal operator"" _decimal (long double dbl);
-Decimal operator"" _decimal (const char* str, std::size_t);
-
-template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
-
-
-template<> class Positive<Decimal> : public Decimal {
-  public:
-    Positive() : Decimal() { }
-    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
-    Positive(int n) = delete;
-    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
-};
-inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
-using PositiveDecimal = Positive<Decimal>;
-
-template<> class Bounds<Decimal> {
-    Decimal _l, _u;
-  public:
-    Bounds(Decimal w) : _l(w), _u(w) { }
-    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
-        : Bounds(Decimal(x)) { }
-    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
-    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
-        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
-    operator ValidatedNumber() const;
-    Decimal lower() const { return _l; }
-    Decimal upper() const { return _u; }
-    Decimal lower_raw() const { return _l; }
-    Decimal upper_raw() const { return _u; }
-    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
-};
-
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/decimal.hpp
+ *
+ *  Copyright  2014-20  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/decimal.hpp
+ *  \brief ExactTag decimal numbers, useful for user input.
+ */
+
+#ifndef ARIADNE_DECIMAL_HPP
+#define ARIADNE_DECIMAL_HPP
+
+#include <string>
+#include <iostream>
+#include "utility/typedefs.hpp"
+#include "numeric/number.decl.hpp"
+#include "numeric/integer.hpp"
+
+namespace Ariadne {
+
+//! \ingroup NumericModule
+//! \brief A decimal number.
+//! \sa Integer, Dyadic, Rational, Real
+class Decimal
+{
+  public:
+    static const Integer _ten;
+    Integer _p; Nat _q;
+  public:
+    typedef ExactTag Paradigm;
+    //! \brief Default constructor creates the number 0 (zero).
+    Decimal();
+    //! \brief Construct the number p/10^q.
+    explicit Decimal(Integer p, Nat q);
+    explicit Decimal(Integer p, Int q) = delete;
+    //! \brief Construct from a builtin integral type.
+    template<BuiltinIntegral N> Decimal(N n);
+    //! \brief Construct from a double-precision floating-point number representation.
+    explicit Decimal(double d);
+    //! \brief Construct from a string representation.
+    explicit Decimal(String const&);
+    //! \brief Convert from a dyadic.
+    Decimal(Dyadic const&);
+    //! \brief Convert to a rational number.
+    operator Rational () const;
+    //! \brief Convert to an generic number.
+    operator ExactNumber () const;
+    //! \brief A string literal
+    String literal() const;
+
+    //! \name Arithmetic operators
+    //!@{
+    friend Decimal operator+(Decimal const& d); //!< Unary plus \a +d.
+    friend Decimal operator-(Decimal const& d); //!< Unary minus \a -d.
+    friend Decimal operator+(Decimal const& d1, Decimal const& d2); //!< Plus \a d1+d2.
+    friend Decimal operator-(Decimal const& d1, Decimal const& d2); //!< Minus \a d1-d2.
+    friend Decimal operator*(Decimal const& d1, Decimal const& d2); //!< Times \a d1*d2.
+    friend Rational operator/(Decimal const& d1, Decimal const& d2); //!< Divides \a d1/d2, yielding a rational.
+    friend Decimal& operator+=(Decimal& d1, Decimal const& d2); //!< Inplace plus \a d1:=d1+d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
+    friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Arithmetic operations
+    friend Decimal nul(Decimal const& d); //!< Zero \a 0.
+    friend Decimal sqr(Decimal const& d); //!< Square \a d<sup>2</sup>.
+    friend Decimal hlf(Decimal const& d); //!< Half \a d/2.
+    //!@}
+
+    //!@{
+    //! \name Lattice operations
+    friend Decimal abs(Decimal const& d); //!< Absolute value \a |d|.
+    friend Decimal min(Decimal const& d1, Decimal const& d2); //!< Minimum \a d1∧d2.
+    friend Decimal max(Decimal const& d1, Decimal const& d2); //!< Maximum \a d1∨d2.
+    //!@}
+
+    //!@{
+    //! \name Comparison operations
+    friend Comparison cmp(Decimal const& d1, Decimal const& d2); //!< Comparison of two decimal values.
+    //!@}
+
+    //! \brief Write to an output stream.
+    friend OutputStream& operator<<(OutputStream& os, Decimal const& d);
+    //! \brief Construct from an integer literal.
+    friend Decimal operator"" _decimal (unsigned long long int n);
+    //! \brief Construct from a floating-point literal.
+    friend Decimal operator"" _decimal (long double dbl);
+    //! \brief Construct from a string literal.
+    friend Decimal operator"" _decimal (const char* str, std::size_t);
+
+    //! \brief Shorthand for operator""_decimal.
+    friend Decimal operator"" _dec (long double dbl);
+
+    //! \brief Alternative for operator""_decimal for use in Python interface.
+    friend Decimal dec_(long double dbl);
+
+    void canonicalize();
+};
+Decimal operator"" _dec (unsigned long long int n);
+Decimal operator"" _dec (long double dbl);
+Decimal operator"" _dec (const char* str, std::size_t);
+Decimal operator"" _decimal (unsigned long long int n);
+Decimal operator"" _decimal (long double dbl);
+Decimal operator"" _decimal (const char* str, std::size_t);
+
+template<BuiltinIntegral N> inline Decimal::Decimal(N n) : Decimal(n,0u) { }
+
+
+template<> class Positive<Decimal> : public Decimal {
+  public:
+    Positive() : Decimal() { }
+    template<BuiltinUnsignedIntegral M> Positive(M m) : Decimal(m) { }
+    Positive(int n) = delete;
+    explicit Positive(Decimal const& w) : Decimal(w) { ARIADNE_ASSERT(w>=0); }
+};
+inline Positive<Decimal> cast_positive(Decimal const& w) { return Positive<Decimal>(w); }
+using PositiveDecimal = Positive<Decimal>;
+
+template<> class Bounds<Decimal> {
+    Decimal _l, _u;
+  public:
+    Bounds(Decimal w) : _l(w), _u(w) { }
+    template<ConvertibleTo<Decimal> X> Bounds(X const& x)
+        : Bounds(Decimal(x)) { }
+    Bounds(Decimal l, Decimal u) : _l(l), _u(u) { }
+    template<class X> requires Constructible<Decimal,X> Bounds(Bounds<X> const& x)
+        : Bounds(Decimal(x.lower_raw()),Decimal(x.upper_raw())) { }
+    operator ValidatedNumber() const;
+    Decimal lower() const { return _l; }
+    Decimal upper() const { return _u; }
+    Decimal lower_raw() const { return _l; }
+    Decimal upper_raw() const { return _u; }
+    friend OutputStream& operator<<(OutputStream& os, Bounds<Decimal> y) { return os << "[" << y._l << ":" << y._u << "]"; }
+};
+
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From 9727df13d43d3ba41900d7c15c137f94cb527c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 13/67] fix: Order the endpoints of negated, halved and powered
 exact bounds

neg(DyadicBounds) and hlf(RationalBounds) swapped the endpoints; pow(RationalBounds,Nat)
ignored that even powers of an interval over zero have minimum zero.
---
 source/numeric/dyadic.hpp   | 4 ++--
 source/numeric/rational.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index 5c73f2a..4b7d779 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -305,14 +305,14 @@ template<> class Bounds<Dyadic> {
     friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
         return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
     friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._l),neg(w._u)); }
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
     friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
         if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
         else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
         else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
     friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
     friend Bounds<Rational> rec(Bounds<Rational> const& w);
-    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
+    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(max(w._l,-w._u),0),max(-w._l,w._u)); }
     friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
     friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
 
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 5faf13d..fd7e73d 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -663,7 +663,7 @@ RationalBounds pos(RationalBounds const& q) {
 RationalBounds neg(RationalBounds const& q) {
     return RationalBounds(neg(q._u),neg(q._l)); }
 RationalBounds hlf(RationalBounds const& q) {
-    return RationalBounds(hlf(q._u),hlf(q._l)); }
+    return RationalBounds(hlf(q._l),hlf(q._u)); }
 RationalBounds sqr(RationalBounds const& q) {
     return _sqr(RoundExact(),q); }
 RationalBounds rec(RationalBounds const& q) {
@@ -678,13 +678,13 @@ RationalBounds mul(RationalBounds const& q1, RationalBounds const& q2) {
 RationalBounds div(RationalBounds const& q1, RationalBounds const& q2) {
     return _div(RoundExact(),q1,q2); }
 RationalBounds pow(RationalBounds const& q, Nat m) {
-    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(q._l,n),pow(q._u,n)); }
+    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(r._l,n),pow(r._u,n)); }
 RationalBounds pow(RationalBounds const& q, Int n) {
     if(n<0) { return pow(rec(q),Nat(-n)); } else return pow(q,Nat(n));}
 
 static_assert(not Convertible<Int,PositiveRational>);
 RationalBounds abs(RationalBounds const& q) {
-    return RationalBounds(max(min(q._l,-q._u),0),max(-q._l,q._u)); }
+    return RationalBounds(max(max(q._l,-q._u),0),max(-q._l,q._u)); }
 RationalBounds max(RationalBounds const& q1, RationalBounds const& q2) {
     return RationalBounds(max(q1._l,q2._l),max(q1._u,q2._u)); }
 RationalBounds min(RationalBounds const& q1, RationalBounds const& q2) {
-- 
2.43.0


From 8eab9443f5de9f6be5853b283c1ae71d33a30ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 14/67] fix: Refuse a double which a FloatMP of the given
 precision cannot hold

FloatMP(ExactDouble,pr) rounded silently, so that mixed operations of validated
numbers with builtin numbers lost the value.
---
 source/numeric/floatmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/numeric/floatmp.cpp b/source/numeric/floatmp.cpp
index bae4abc..a4c5f18 100644
--- a/source/numeric/floatmp.cpp
+++ b/source/numeric/floatmp.cpp
@@ -76,6 +76,9 @@ FloatMP::Float(MultiplePrecision pr, NoInit const&) {
 }
 
 FloatMP::Float(ExactDouble const& d, MultiplePrecision pr) : FloatMP(d,get_rounding_mode(),pr) {
+    if (mpfr_cmp_d(_mpfr,d.get_d())!=0) {
+        ARIADNE_THROW(std::runtime_error,"Float(ExactDouble)","ExactDouble \""<<d<<"\" is not an exact floating-point number with precision " << pr << ".");
+    }
 }
 
 FloatMP::Float(TwoExp const& t, MultiplePrecision pr) {
-- 
2.43.0


From 24165f1dfafb615024927bc60c6921cb51bfed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 15/67] fix: Round bounds outward in hlf, max, min, refinement
 and coarsening

---
 source/numeric/float_bounds.hpp     | 14 +++++++-------
 source/numeric/float_bounds.inl.hpp |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/numeric/float_bounds.hpp b/source/numeric/float_bounds.hpp
index 466c525..d05439b 100644
--- a/source/numeric/float_bounds.hpp
+++ b/source/numeric/float_bounds.hpp
@@ -210,7 +210,7 @@ template<class F> class Bounds
     friend Bounds<F> neg(Bounds<F> const& x) {
         return Bounds<F>(neg(x._u),neg(x._l)); } //!< <p/>
     friend Bounds<F> hlf(Bounds<F> const& x) {
-        return Bounds<F>(hlf(x._l),hlf(x._u)); } //!< <p/>
+        return Bounds<F>(hlf(down,x._l),hlf(up,x._u)); } //!< <p/>
     friend Bounds<F> sqr(Bounds<F> const& x) {
         if(x._l>0) { return Bounds<F>(mul(down,x._l,x._l),mul(up,x._u,x._u)); } //!< <p/>
         else if(x._u<0) { return Bounds<F>(mul(down,x._u,x._u),mul(up,x._l,x._l)); } //!< <p/>
@@ -265,9 +265,9 @@ template<class F> class Bounds
         else if(x.upper_raw()<=0) { return Bounds<F>(neg(x.upper_raw()),neg(x.lower_raw())); } //!< <p/>
         else { return Bounds<F>(F(0,x.precision()),max(neg(x.lower_raw()),x.upper_raw())); } } //!< <p/>
     friend Bounds<F> max(Bounds<F> const& x1, Bounds<F> const& x2) {
-        return Bounds<F>(max(x1.lower_raw(),x2.lower_raw()),max(x1.upper_raw(),x2.upper_raw())); } //!< <p/>
+        return Bounds<F>(max(down,x1.lower_raw(),x2.lower_raw()),max(up,x1.upper_raw(),x2.upper_raw())); } //!< <p/>
     friend Bounds<F> min(Bounds<F> const& x1, Bounds<F> const& x2) {
-        return Bounds<F>(min(x1.lower_raw(),x2.lower_raw()),min(x1.upper_raw(),x2.upper_raw())); } //!< <p/>
+        return Bounds<F>(min(down,x1.lower_raw(),x2.lower_raw()),min(up,x1.upper_raw(),x2.upper_raw())); } //!< <p/>
     friend PositiveLowerBound<F> mig(Bounds<F> const& x) {
         return PositiveLowerBound<F>(max(F(0,x.precision()),max(x._l,neg(x._u)))); } //!< <p/>
     friend PositiveUpperBound<F> mag(Bounds<F> const& x) {
@@ -349,10 +349,10 @@ template<class F> class Bounds
         return x1._l>=x2._l && x1._u <= x2._u; }
     //! The common refinement of \a x1 and \x2. Requires \a x1 and \a x2 to be consistent.
     friend Bounds<F> refinement(Bounds<F> const& x1, Bounds<F> const& x2) {
-        return Bounds<F>(max(x1._l,x2._l),min(x1._u,x2._u)); }
+        return Bounds<F>(max(down,x1._l,x2._l),min(up,x1._u,x2._u)); }
     //! Bounds for a value which is in either \a x1 or \a x2.
     friend Bounds<F> coarsening(Bounds<F> const& x1, Bounds<F> const& x2) {
-        return Bounds<F>(min(x1._l,x2._l),max(x1._u,x2._u)); }
+        return Bounds<F>(min(down,x1._l,x2._l),max(up,x1._u,x2._u)); }
     //!@}
 
         // FIXME: Added functionality
@@ -522,7 +522,7 @@ template<class F> class Positive<Bounds<F>> : public Bounds<F>
     friend PositiveBounds<F> nul(PositiveBounds<F> const& x) {
         return PositiveBounds<F>(nul(x._l),nul(x._u)); }
     friend PositiveBounds<F> hlf(PositiveBounds<F> const& x) {
-        return PositiveBounds<F>(hlf(x._l),hlf(x._u)); }
+        return PositiveBounds<F>(hlf(down,x._l),hlf(up,x._u)); }
     friend PositiveBounds<F> sqr(PositiveBounds<F> const& x) {
         return PositiveBounds<F>(sqr(down,x._l),sqr(up,x._u)); }
     friend PositiveBounds<F> rec(PositiveBounds<F> const& x) {
@@ -546,7 +546,7 @@ template<class F> class Positive<Bounds<F>> : public Bounds<F>
     friend PositiveBounds<F> max(Bounds<F> const& x1, PositiveBounds<F> const& x2) {
         return PositiveBounds<F>(max(down,x1._l,x2._l),max(up,x1._u,x2._u)); }
     friend PositiveBounds<F> min(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
-        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x2._u,x2._u)); }
+        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x1._u,x2._u)); }
     friend PositiveBounds<F> abs(PositiveBounds<F> const& x) { return PositiveBounds<F>(abs(x._l),abs(x._u)); }
 
     friend Bounds<F> const& cast_unsigned(PositiveBounds<F> const& x) { return x; }
diff --git a/source/numeric/float_bounds.inl.hpp b/source/numeric/float_bounds.inl.hpp
index bc8b920..b0b64d1 100644
--- a/source/numeric/float_bounds.inl.hpp
+++ b/source/numeric/float_bounds.inl.hpp
@@ -35,7 +35,7 @@ template<class F> inline auto Operations<Bounds<F>>::_add(Bounds<F> const& x1, F
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_add(F const& x1, Bounds<F> const& x2) -> Bounds<F> {
-    return Bounds<F>(add(down,x1,x2._l),add(down,x1,x2._u));
+    return Bounds<F>(add(down,x1,x2._l),add(up,x1,x2._u));
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_sub(Bounds<F> const& x1, F const& x2) -> Bounds<F> {
-- 
2.43.0


From 53e9f27f6c0958c356f20cb87bdc56ee81b87b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:33 +0000
Subject: [PATCH 16/67] fix: Enclose cos, tan and trunc of bounds where they
 asserted or lost values

cos excluded values when the reduced argument extended beyond a period,
tan asserted near poles, and trunc asserted for multiple-precision bounds.
---
 source/numeric/float_bounds.tpl.hpp | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index a564fd0..c9cca80 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -92,12 +92,13 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
     F n(round(div(near,x.value_raw(),(two_pi_val.value_raw()))));
     Bounds<F> y=x-2*(n*pi_val);
 
-    ARIADNE_ASSERT(y.lower_raw()<=pi_val.upper_raw());
-    ARIADNE_ASSERT(y.upper_raw()>=-pi_val.upper_raw());
+    // The range reduction may be inaccurate, so need not place the argument in [-pi:+pi]
+    if(!(y.lower_raw()<=y.upper_raw())) { return Bounds<F>(-one,+one); }
+    if(y.upper_raw()<-pi_val.upper_raw()) { y=-y; }
 
     F rl(prec),ru(prec);
     if(y.lower_raw()<=-pi_val.lower_raw()) {
-        if(y.upper_raw()<=0.0_x) { rl=-one; ru=cos(up,y.upper_raw()); }
+        if(y.upper_raw()<=0.0_x && y.lower_raw()>=-two_pi_val.lower_raw()) { rl=-one; ru=cos(up,min(-y.upper_raw(),add(down,two_pi_val.lower_raw(),y.lower_raw()))); }
         else { rl=-one; ru=+one; }
     } else if(y.lower_raw()<=0.0_x) {
         if(y.upper_raw()<=0.0_x) { rl=cos(down,y.lower_raw()); ru=cos(up,y.upper_raw()); }
@@ -108,7 +109,8 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
         else if(y.upper_raw()<=two_pi_val.lower_raw()) { rl=-one; ru=cos(up,min(y.lower_raw(),sub(down,two_pi_val.lower_raw(),y.upper_raw()))); }
         else { rl=-one; ru=+one; }
     } else {
-        assert(false);
+        if(y.upper_raw()<=two_pi_val.lower_raw()) { rl=cos(down,y.lower_raw()); ru=cos(up,y.upper_raw()); }
+        else { rl=-one; ru=+one; }
     }
 
     F::set_rounding_mode(rnd);
@@ -124,23 +126,18 @@ template<class F> auto Operations<Bounds<F>>::_tan(Bounds<F> const& x) -> Bounds
     F n(round(div(near,x.value_raw(),pi_val)));
     F::set_rounding_mode(rnd);
     Bounds<F> y=x-n*pi_bnds;
-    assert(y.lower_raw()>=-hlf(pi_val));
-    assert(y.upper_raw()<=+hlf(pi_val));
+    const F hlf_pi=hlf(down,pi_bnds.lower_raw());
+    // If the argument may contain an odd multiple of pi/2, then the tangent is unbounded
+    if(!(y.lower_raw()>-hlf_pi && y.upper_raw()<+hlf_pi)) { return Bounds<F>(-F::inf(prec),+F::inf(prec)); }
     return Bounds<F>(tan(down,y._l),tan(up,y._u));
 }
 
 template<class F> auto Operations<Bounds<F>>::_trunc(Bounds<F> const& x) -> Bounds<F> {
-    typename F::RoundingModeType rm=F::get_rounding_mode();
-    const double& xl=x.lower_raw().get_d();
-    const double& xu=x.upper_raw().get_d();
-    // Use machine epsilon instead of minimum to move away from zero
-    const float fm=std::numeric_limits<float>::epsilon();
-    volatile float tu=xu;
-    if(tu<xu) { F::set_rounding_upward(); tu=tu+fm; }
-    volatile float tl=xl;
-    if(tl>xl) { F::set_rounding_downward(); tl=tl-fm; }
-    F::set_rounding_mode(rm);
-    assert(tl<=xl); assert(tu>=xu);
+    const float inf=std::numeric_limits<float>::infinity();
+    float tl=static_cast<float>(x.lower_raw().get_d());
+    while(ExactDouble(tl)>x.lower_raw()) { tl=std::nextafter(tl,-inf); }
+    float tu=static_cast<float>(x.upper_raw().get_d());
+    while(ExactDouble(tu)<x.upper_raw()) { tu=std::nextafter(tu,+inf); }
     return Bounds<F>(ExactDouble(tl),ExactDouble(tu),x.precision());
 }
 
-- 
2.43.0


From 30a5fda355286b7ca3a1c9597a53750e43453bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 17/67] fix: Convert generic numbers holding balls or bounds
 without endless recursion

ValidatedNumber::get(pr,pre) of a number made from a Ball or Bounds called itself,
and get(pr) of a Ball threw.
---
 source/numeric/number_wrapper.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/numeric/number_wrapper.hpp b/source/numeric/number_wrapper.hpp
index badec5e..1e4b6e0 100644
--- a/source/numeric/number_wrapper.hpp
+++ b/source/numeric/number_wrapper.hpp
@@ -401,6 +401,15 @@ inline OutputStream& operator<<(OutputStream& os, ParadigmCode cd) {
     }
 }
 
+// Convert balls to bounds before changing precision. A conversion via ValidatedNumber would use NumberGetterMixin recursively.
+template<class X> inline X const& _as_bounds(X const& x) { return x; }
+template<class F, class FE> inline Bounds<F> _as_bounds(Ball<F,FE> const& x) { return Bounds<F>(x); }
+template<class X> struct IsFloatBallOrBounds : std::false_type { };
+template<class F, class FE> struct IsFloatBallOrBounds<Ball<F,FE>> : std::true_type { };
+template<class PR> struct IsFloatBallOrBounds<Bounds<Float<PR>>> : std::true_type { };
+template<class R> struct IsFloatBall : std::false_type { };
+template<class F, class FE> struct IsFloatBall<Ball<F,FE>> : std::true_type { };
+
 template<class X> class NumberGetterMixin : public virtual NumberInterface {
   public:
   //  operator X const& () const { return static_cast<NumberMixin<X>const&>(*this); }
@@ -429,7 +438,7 @@ template<class X> class NumberGetterMixin : public virtual NumberInterface {
         return this->_get_as<Rational>(); }
 
     virtual FloatDPBall _get(MetricTag,DoublePrecision pr,DoublePrecision pre) const override {
-        return this->_get_as<FloatDPBall>(pr); }
+        return this->_get_as<FloatDPBall>(pr,pre); }
     virtual FloatDPBounds _get(OrderTag,DoublePrecision pr) const override {
         return this->_get_as<FloatDPBounds>(pr); }
     virtual FloatDPUpperBound _get(UpperTag,DoublePrecision pr) const override {
@@ -460,10 +469,12 @@ template<class X> class NumberGetterMixin : public virtual NumberInterface {
         if constexpr (Constructible<R,X>) { return static_cast<R>(_cast(*this)); }
         else { std::cerr<<"Warning: Cannot convert " << _cast(*this) << " of type " << this->_class_name() << " to " << class_name<R>() << "\n"; throw ParadigmError(); } }
     template<class R, class PR> inline R _get_as(PR pr) const {
-        if constexpr (Constructible<R,X,PR>) { return R(_cast(*this),pr); }
+        if constexpr (IsFloatBall<X>::value and Constructible<R,decltype(_as_bounds(declval<X>())),PR>) { return R(_as_bounds(_cast(*this)),pr); }
+        else if constexpr (Constructible<R,X,PR>) { return R(_cast(*this),pr); }
         else { std::cerr<<"Warning: Cannot convert " << _cast(*this) << " of type " << this->_class_name() << " to " << class_name<R>() << " with precision " << pr << "\n"; throw ParadigmError(); } }
     template<class R, class PR, class PRE> inline R _get_as(PR pr, PRE pre) const {
-        if constexpr (Constructible<R,X,PR,PRE>) { return R(_cast(*this),pr,pre); }
+        if constexpr (IsFloatBallOrBounds<X>::value) { return R(Bounds<typename R::RawType>(_as_bounds(_cast(*this)),pr),pre); }
+        else if constexpr (Constructible<R,X,PR,PRE>) { return R(_cast(*this),pr,pre); }
         else { std::cerr<<"Warning: Cannot convert " << _cast(*this) << " of type " << this->_class_name() << " to " << class_name<R>() << " with precision " << pr << " and error precision " << pre << "\n"; throw ParadigmError(); } }
 };
 
-- 
2.43.0


From 1e4c5a52f223459827ba9bb26475d6c432cf55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 18/67] fix: Make ball operations enclose their values

abs (and so max and min) of a negative ball was negative; rec of a ball over zero was
finite; hlf and roundoff errors were not rounded up on underflow; sqr could exclude zero;
round used bounds as centre and radius; Ball(Decimal,Decimal,pr) ignored roundoff.
---
 source/numeric/float_ball.hpp     | 34 +++++++++++++++++--------------
 source/numeric/float_ball.tpl.hpp |  2 +-
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index d965eb6..68eade2 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -191,7 +191,7 @@ template<class F, class FE> class Ball
     friend Ball<F,FE> neg(Ball<F,FE> const& x) {
         return Ball<F,FE>(neg(x._v),x._e); } //!< <p/>
     friend Ball<F,FE> hlf(Ball<F,FE> const& x) {
-        return Ball<F,FE>(hlf(x._v),hlf(x._e)); } //!< <p/>
+        return Operations<Ball<F,FE>>::_hlf(x); } //!< <p/>
     friend Ball<F,FE> sqr(Ball<F,FE> const& x) {
         return Operations<Ball<F,FE>>::_sqr(x); } //!< <p/>
     friend Ball<F,FE> rec(Ball<F,FE> const& x) {
@@ -333,7 +333,7 @@ public:
 
     //! Round lower and upper bounds to nearest integer values.
     friend Ball<F,FE> round(Ball<F,FE> const& x) {
-        return Ball<F,FE>(round(x.lower_raw()),round(x.upper_raw())); }
+        return Ball<F,FE>(round(Bounds<F>(x)),x.error_precision()); }
     //! Round outward by 1 ulp. i.e. increase the error.
     friend Ball<F,FE> widen(Ball<F,FE> const& x) {
         const F m=std::numeric_limits<float>::min(); return Ball<F,FE>(sub(down,x._l,m),add(up,x._u,m)); }
@@ -376,7 +376,7 @@ public:
         return x1._v==x2._v && x1._e==x2._e; }
         //! Tests is \a x1 is a valid approximation for \a x2 i.e. if \a x2 is within the error of the centre value of \a x1.
     friend Bool models(Ball<F,FE> const& x1, F const& x2) {
-        return x1._l<=x2._v && x1._u >= x2._v; }
+        return Operations<Ball<F,FE>>::_models(x1,x2); }
     //! Tests is \a x1 and \a x2 are consistent with being a model of the same value i.e. they intersect.
     friend Bool consistent(Ball<F,FE> const& x1, Ball<F,FE> const& x2) {
         return (x1._v >= x2._v ? sub(up,x1._v,x2._v) : sub(up,x2._v,x1._v)) <= add(down,x1._e,x2._e); }
@@ -469,14 +469,17 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     }
 
     static Ball<F,FE> _hlf(Ball<F,FE> const& x) {
-        return Ball<F,FE>(hlf(x._v),hlf(x._e));
+        auto rv=hlf(near,x._v);
+        auto ae=_make_error(sub(up,hlf(up,x._v),hlf(down,x._v)));
+        return Ball<F,FE>(rv,add(up,hlf(up,x._e),ae));
     }
 
     static Ball<F,FE> _sqr(Ball<F,FE> const& x) {
         Ball<F,FE> r=x*x;
         if(r._e>r._v) {
-            r._e=hlf(add(up,r._e,_make_error(r._v)));
+            r._e=hlf(up,add(up,r._e,_make_error(r._v)));
             r._v=F(Dyadic(r._e),upward,x.precision());
+            r._e=max(r._e,_make_error(r._v));
         }
         return r;
     }
@@ -484,6 +487,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     static Ball<F,FE> _rec(Ball<F,FE> const& x) {
         // Use this code to find value same as reciprocal value
         auto rv=rec(approx,x._v);
+        if(!(x._e<abs(x._v))) { return Ball<F,FE>(rv,_make_error(F::inf(x.precision()))); }
         auto ru=rec(up,sub(down,x._v,x._e));
         auto rl=rec(down,add(up,x._v,x._e));
         auto re=max(sub(up,ru,rv),sub(up,rv,rl));
@@ -492,7 +496,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         // Use this code to get same result as interval computation
         auto ru=rec(up,sub(down,x._v,x._e));
         auto rl=rec(down,add(up,x._v,x._e));
-        auto re=hlf(sub(up,ru,rl));
+        auto re=hlf(up,sub(up,ru,rl));
         auto rv=hlf(add(near,rl,ru));
         return Ball<F,FE>(rv,re);
     #endif
@@ -503,7 +507,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto ru=add(up,x._v,y._v);
         auto rl=add(down,x._v,y._v);
         auto se=add(up,x._e,y._e);
-        auto ae=hlf(FE(sub(up,ru,rl),up,se.precision()));
+        auto ae=hlf(up,FE(sub(up,ru,rl),up,se.precision()));
         auto re=add(up,ae,se);
         return Ball<F,FE>(rv,re);
     }
@@ -512,7 +516,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=sub(near,x._v,y._v);
         auto ru=sub(up,x._v,y._v);
         auto rl=sub(down,x._v,y._v);
-        auto ae=_make_error(hlf(sub(up,ru,rl)));
+        auto ae=_make_error(hlf(up,sub(up,ru,rl)));
         auto re=add(up,ae,add(up,x._e,y._e));
         return Ball<F,FE>(rv,re);
     }
@@ -521,7 +525,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=mul(near,x._v,y._v);
         auto ru=mul(up,x._v,y._v);
         auto rl=mul(down,x._v,y._v);
-        auto re0=_make_error(hlf(sub(up,ru,rl)));
+        auto re0=_make_error(hlf(up,sub(up,ru,rl)));
         auto re1=add(up,re0,mul(up,x._e,y._e));
         auto re2=add(up,mul(up,_make_error(abs(x._v)),y._e),mul(up,x._e,_make_error(abs(y._v))));
         auto re=add(up,re1,re2);
@@ -536,7 +540,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=add(near,x,y);
         auto ru=add(up,x,y);
         auto rl=add(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -544,7 +548,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=sub(near,x,y);
         auto ru=sub(up,x,y);
         auto rl=sub(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -552,7 +556,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=mul(near,x,y);
         auto ru=mul(up,x,y);
         auto rl=mul(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -560,7 +564,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=div(near,x,y);
         auto ru=div(up,x,y);
         auto rl=div(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -610,8 +614,8 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
 
 
     static Ball<F,FE> _abs(Ball<F,FE> const& x) {
-        if(x._e<abs(x._v)) { return x; }
-        else { auto rv=hlf(add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
+        if(x._e<abs(x._v)) { return Ball<F,FE>(abs(x._v),x._e); }
+        else { auto rv=hlf(up,add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
     }
 
     static Ball<F,FE> _max(Ball<F,FE> const& x1, Ball<F,FE> const& x2) {
diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index ab386d0..6efb109 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -77,7 +77,7 @@ template<class F, class FE> Ball<F,FE>::Ball(Dyadic const& w, PR pr, PRE pre) :
 template<class F, class FE> Ball<F,FE>::Ball(Rational const& q, PR pr, PRE pre) : _v(F(q,near,pr)), _e(abs(Rational(_v)-q),up,pre) {}
 
 template<class F, class FE> Ball<F,FE>::Ball(Decimal const& dv, Decimal const& de, PrecisionType pr)
-    : _v(dv,near,pr), _e(de,up,_error_precision<PRE>(pr)) { }
+    : _v(dv,near,pr), _e(de+abs(Rational(_v)-Rational(dv)),up,_error_precision<PRE>(pr)) { }
 
 template<class F, class FE> Ball<F,FE>::Ball(Real const& r, PR pr) : Ball(r.get(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(ValidatedNumber const& y, PR pr) : Ball(y.get(pr,_error_precision<PRE>(pr))) {}
-- 
2.43.0


From 092c440f06687f14afaa93510fa9dece93857fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:12 +0000
Subject: [PATCH 19/67] fix: upper and lower bounds and errors were rounded the
 wrong way by precision changes, hlf, max, min and some quotients, and L/U
 multiplied

---
 source/numeric/float_error.hpp           |  6 +++---
 source/numeric/float_lower_bound.hpp     | 18 +++++++++---------
 source/numeric/float_upper_bound.hpp     | 18 +++++++++---------
 source/numeric/float_upper_bound.tpl.hpp |  4 ++--
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/source/numeric/float_error.hpp b/source/numeric/float_error.hpp
index 1093bd6..3ac2c06 100644
--- a/source/numeric/float_error.hpp
+++ b/source/numeric/float_error.hpp
@@ -138,8 +138,8 @@ template<class F> class Error
 
     //!@{
     //! \name Lattice operations
-    friend Error<F> max(Error<F> const& x1, Error<F> const& x2) { return Error<F>(max(x1._e,x2._e)); } //!< <p/>
-    friend Error<F> min(Error<F> const& x1, Error<F> const& x2) { return Error<F>(min(x1._e,x2._e)); } //!< <p/>
+    friend Error<F> max(Error<F> const& x1, Error<F> const& x2) { return Error<F>(max(up,x1._e,x2._e)); } //!< <p/>
+    friend Error<F> min(Error<F> const& x1, Error<F> const& x2) { return Error<F>(min(up,x1._e,x2._e)); } //!< <p/>
     friend Error<F> abs(Error<F> const& x) { return x; } //!< <p/>
     friend Error<F> mag(Error<F> const& x) { return x; } //!< <p/>
     //!@}
@@ -196,7 +196,7 @@ template<class F> class Error
     //! <p/>
     friend Bool refines(Error<F> const& x1, Error<F> const& x2) { return x1._e<=x2._e; }
     //! <p/>
-    friend Error<F> refinement(Error<F> const& x1, Error<F> const& x2) { return Error<F>(min(x1._e,x2._e)); }
+    friend Error<F> refinement(Error<F> const& x1, Error<F> const& x2) { return Error<F>(min(up,x1._e,x2._e)); }
     //!@}
   public:
     friend Error<F>const& cast_positive(Error<F> const& x) { return x; }
diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index c9ec3a2..5e535e2 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -158,7 +158,7 @@ template<class F> class LowerBound
     friend UpperBound<F> neg(LowerBound<F> const& x) {
         return UpperBound<F>(neg(x._l)); } //!< <p/>
     friend LowerBound<F> hlf(LowerBound<F> const& x) {
-        return LowerBound<F>(hlf(x._l)); } //!< <p/>
+        return LowerBound<F>(hlf(down,x._l)); } //!< <p/>
 
     friend LowerBound<F> add(LowerBound<F> const& x1, LowerBound<F> const& x2) {
         return LowerBound<F>(add(down,x1._l,x2._l)); } //!< <p/>
@@ -185,9 +185,9 @@ template<class F> class LowerBound
     friend Approximation<F> abs(LowerBound<F> const& x) {
         return abs(Approximation<F>(x)); } //!< <p/>
     friend LowerBound<F> max(LowerBound<F> const& x1, LowerBound<F> const& x2) {
-        return LowerBound<F>(max(x1._l,x2._l)); } //!< <p/>
+        return LowerBound<F>(max(down,x1._l,x2._l)); } //!< <p/>
     friend LowerBound<F> min(LowerBound<F> const& x1, LowerBound<F> const& x2) {
-        return LowerBound<F>(min(x1._l,x2._l)); } //!< <p/>
+        return LowerBound<F>(min(down,x1._l,x2._l)); } //!< <p/>
     //!@}
 
     //!@{
@@ -219,7 +219,7 @@ template<class F> class LowerBound
     friend Bool refines(LowerBound<F> const& x1, LowerBound<F> const& x2) {
         return x1._l>=x2._l; } //!< <p/>
     friend LowerBound<F> refinement(LowerBound<F> const& x1, LowerBound<F> const& x2) {
-        return LowerBound<F>(max(x1._l,x2._l)); } //!< <p/>
+        return LowerBound<F>(max(down,x1._l,x2._l)); } //!< <p/>
     //!@}
 
     //!@{
@@ -290,13 +290,13 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> div(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
         return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> max(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveLowerBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(max(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> max(PositiveLowerBound<F> const& x1, LowerBound<F> const& x2) {
-        return PositiveLowerBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(max(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> max(LowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveLowerBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(max(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> min(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveLowerBound<F>(min(x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(min(down,x1.raw(),x2.raw())); }
 
     friend PositiveUpperBound<F> rec(PositiveLowerBound<F> const& x);
     friend PositiveUpperBound<F> div(PositiveUpperBound<F> const& x1, PositiveLowerBound<F> const& x2);
@@ -311,7 +311,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator*(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F>& operator+=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
         return x1=x1+x2; }
     friend PositiveLowerBound<F>& operator*=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 76132e8..03d0207 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -158,7 +158,7 @@ template<class F> class UpperBound
     friend LowerBound<F> neg(UpperBound<F> const& x) {
         return LowerBound<F>(neg(x._u)); } //!< <p/>
     friend UpperBound<F> hlf(UpperBound<F> const& x) {
-        return UpperBound<F>(hlf(x._u)); } //!< <p/>
+        return UpperBound<F>(hlf(up,x._u)); } //!< <p/>
 
     friend UpperBound<F> add(UpperBound<F> const& x1, UpperBound<F> const& x2) {
         return UpperBound<F>(add(up,x1._u,x2._u)); } //!< <p/>
@@ -178,9 +178,9 @@ template<class F> class UpperBound
     //!@{
     //! \name Lattice operations
     friend UpperBound<F> max(UpperBound<F> const& x1, UpperBound<F> const& x2) {
-        return UpperBound<F>(max(x1._u,x2._u)); } //!< <p/>
+        return UpperBound<F>(max(up,x1._u,x2._u)); } //!< <p/>
     friend UpperBound<F> min(UpperBound<F> const& x1, UpperBound<F> const& x2) {
-        return UpperBound<F>(min(x1._u,x2._u)); } //!< <p/>
+        return UpperBound<F>(min(up,x1._u,x2._u)); } //!< <p/>
     friend Approximation<F> abs(UpperBound<F> const& x) {
         return abs(Approximation<F>(x)); } //!< <p/>
     //!@}
@@ -213,7 +213,7 @@ template<class F> class UpperBound
     friend Bool refines(UpperBound<F> const& x1, UpperBound<F> const& x2) {
         return x1._u <= x2._u; } //!< <p/>
     friend UpperBound<F> refinement(UpperBound<F> const& x1, UpperBound<F> const& x2) {
-        return UpperBound<F>(min(x1._u,x2._u)); } //!< <p/>
+        return UpperBound<F>(min(up,x1._u,x2._u)); } //!< <p/>
     //!@}
 
     //!@{
@@ -284,13 +284,13 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> div(PositiveUpperBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2.raw())); }
     friend PositiveUpperBound<F> max(PositiveUpperBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveUpperBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveUpperBound<F>(max(up,x1.raw(),x2.raw())); }
     friend PositiveUpperBound<F> max(PositiveUpperBound<F> const& x1, UpperBound<F> const& x2) {
-        return PositiveUpperBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveUpperBound<F>(max(up,x1.raw(),x2.raw())); }
     friend PositiveUpperBound<F> max(UpperBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveUpperBound<F>(max(x1.raw(),x2.raw())); }
+        return PositiveUpperBound<F>(max(up,x1.raw(),x2.raw())); }
     friend PositiveUpperBound<F> min(PositiveUpperBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveUpperBound<F>(min(x1.raw(),x2.raw())); }
+        return PositiveUpperBound<F>(min(up,x1.raw(),x2.raw())); }
 
     friend PositiveLowerBound<F> rec(PositiveUpperBound<F> const& x);
     friend PositiveLowerBound<F> div(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2);
@@ -342,7 +342,7 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Positive<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2)); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveUpperBound<F>(div(down,x1,x2.raw())); }
+        return PositiveUpperBound<F>(div(up,x1,x2.raw())); }
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Nat m2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,x1.precision()))); }
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2);
diff --git a/source/numeric/float_upper_bound.tpl.hpp b/source/numeric/float_upper_bound.tpl.hpp
index ed53c24..e71f7ec 100644
--- a/source/numeric/float_upper_bound.tpl.hpp
+++ b/source/numeric/float_upper_bound.tpl.hpp
@@ -37,8 +37,8 @@
 
 namespace Ariadne {
 
-template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,downward,pr) {}
-template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,downward,pr) {}
+template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,upward,pr) {}
+template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 template<class F> UpperBound<F>::UpperBound(UpperBound<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 
 template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x) : UpperBound<F>(x.upper_raw()) { }
-- 
2.43.0


From 7fd0b954295c2dbcb3164c6078ccf405011ba7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 20/67] fix: the limit of a sequence of reals had the upper
 bound 2 xor -n instead of 2^-n added

---
 source/numeric/real.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/real.cpp b/source/numeric/real.cpp
index 1b58473..b45433e 100644
--- a/source/numeric/real.cpp
+++ b/source/numeric/real.cpp
@@ -189,9 +189,9 @@ template<> struct RealLimit<Real> : RealBase {
     virtual DyadicBounds _compute_get(Effort eff) const {
         Nat n = eff.work()+1u; return _seq[n].compute_get(eff).pm(Dyadic(two^(-n))); }
     virtual FloatDPBounds _compute_get(Effort eff, DoublePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),+two^(-n),pr)); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),+(two^(-n)),pr)); }
     virtual FloatMPBounds _compute_get(Effort eff, MultiplePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),+two^(-n),pr); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),+(two^(-n)),pr); }
     virtual OutputStream& _write(OutputStream& os) const {
         return os << "{" << _seq[0u] << ", " << _seq[1u] << ", " <<_seq[2u] << ", ... }"; }
 };
-- 
2.43.0


From fb9656d41d69d55d6905da3f94322f6c0569eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 21/67] fix: choose the pivot of a triangular decomposition
 from the partially eliminated matrix; give a resized symmetric matrix room
 for all its elements

---
 source/algebra/matrix.tpl.hpp       | 4 ++--
 source/algebra/symmetric_matrix.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/algebra/matrix.tpl.hpp b/source/algebra/matrix.tpl.hpp
index 6d2aa09..6304834 100644
--- a/source/algebra/matrix.tpl.hpp
+++ b/source/algebra/matrix.tpl.hpp
@@ -595,9 +595,9 @@ triangular_decomposition(const Matrix<X>& A)
         SizeType iamax=k;
         X amax=A.zero_element();
         for(SizeType i=k; i!=m; ++i) {
-            if(decide(abs(A[i][k])>amax)) {
+            if(decide(abs(U[i][k])>amax)) {
                 iamax=i;
-                amax=abs(A[i][k]);
+                amax=abs(U[i][k]);
             }
         }
 
diff --git a/source/algebra/symmetric_matrix.hpp b/source/algebra/symmetric_matrix.hpp
index dbde95a..28a75f6 100644
--- a/source/algebra/symmetric_matrix.hpp
+++ b/source/algebra/symmetric_matrix.hpp
@@ -202,7 +202,7 @@ template<class X> inline SizeType SymmetricMatrix<X>::column_size() const {
 
 template<class X> inline Void SymmetricMatrix<X>::resize(SizeType n) {
     this->_s = n;
-    this->_ary.resize(n*(n-1)/2,this->_zero);
+    this->_ary.resize(n*(n+1)/2,this->_zero);
 }
 
 template<class X> inline X& SymmetricMatrix<X>::at(SizeType i, SizeType j) {
-- 
2.43.0


From 9213fa932aa6439aecd6cf54149767b67132abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 22/67] fix: scale a vector, covector or matrix by the original
 value of one of its own elements

---
 source/algebra/covector.hpp | 4 ++--
 source/algebra/matrix.hpp   | 6 ++++--
 source/algebra/vector.hpp   | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/algebra/covector.hpp b/source/algebra/covector.hpp
index 3825836..c2e2be9 100644
--- a/source/algebra/covector.hpp
+++ b/source/algebra/covector.hpp
@@ -165,10 +165,10 @@ class ProvideCovectorOperations {
         ARIADNE_PRECONDITION(u1.size()==u2.size()); for(SizeType i=0; i!=u1.size(); ++i) { u1[i]-=u2[i]; } return u1; }
 
     template<class X1,class X2> friend Covector<InplaceProductType<X1,X2>>& operator*=(Covector<X1>& u1, X2 const& s2) {
-        for(SizeType i=0; i!=u1.size(); ++i) { u1[i]*=s2; } return u1; }
+        const X2 s(s2); for(SizeType i=0; i!=u1.size(); ++i) { u1[i]*=s; } return u1; }
 
     template<class X1,class X2> friend Covector<InplaceQuotientType<X1,X2>>& operator/=(Covector<X1>& u1, X2 const& s2) {
-        for(SizeType i=0; i!=u1.size(); ++i) { u1[i]/=s2; } return u1; }
+        const X2 s(s2); for(SizeType i=0; i!=u1.size(); ++i) { u1[i]/=s; } return u1; }
 
     template<class X1, class X2> friend ArithmeticType<X1,X2> operator*(const Covector<X1>& u1, const Vector<X2>& v2) {
         ARIADNE_PRECONDITION(u1.size()==v2.size()); ArithmeticType<X1,X2> r=u1.zero_element()*v2.zero_element();
diff --git a/source/algebra/matrix.hpp b/source/algebra/matrix.hpp
index 19c62b3..c86079e 100644
--- a/source/algebra/matrix.hpp
+++ b/source/algebra/matrix.hpp
@@ -740,18 +740,20 @@ struct ProvideMatrixOperations {
     }
 
     template<class X1, class X2> friend inline Matrix<InplaceProductType<X1,X2>>& operator*=(Matrix<X1>& A1, X2 const& s2) {
+        const X2 s(s2);
         for(SizeType i=0; i!=A1.row_size(); ++i) {
             for(SizeType j=0; j!=A1.column_size(); ++j) {
-                A1[i][j]*=s2;
+                A1[i][j]*=s;
             }
         }
         return A1;
     }
 
     template<class X1, class X2> friend inline Matrix<InplaceQuotientType<X1,X2>>& operator/=(Matrix<X1>& A1, X2 const& s2) {
+        const X2 s(s2);
         for(SizeType i=0; i!=A1.row_size(); ++i) {
             for(SizeType j=0; j!=A1.column_size(); ++j) {
-                A1[i][j]/=s2;
+                A1[i][j]/=s;
             }
         }
         return A1;
diff --git a/source/algebra/vector.hpp b/source/algebra/vector.hpp
index e5d7c76..33cd0c2 100644
--- a/source/algebra/vector.hpp
+++ b/source/algebra/vector.hpp
@@ -413,11 +413,11 @@ struct ProvideVectorOperations {
     }
 
     template<class X1,class X2> friend Vector<InplaceProductType<X1,X2>>& operator*=(Vector<X1>& v1, X2 const& s2) {
-        for(SizeType i=0; i!=v1.size(); ++i) { v1[i]*=s2; } return v1;
+        const X2 s(s2); for(SizeType i=0; i!=v1.size(); ++i) { v1[i]*=s; } return v1;
     }
 
     template<class X1,class X2> friend Vector<InplaceQuotientType<X1,X2>>& operator/=(Vector<X1>& v1, X2 const& s2) {
-        for(SizeType i=0; i!=v1.size(); ++i) { v1[i]/=s2; } return v1;
+        const X2 s(s2); for(SizeType i=0; i!=v1.size(); ++i) { v1[i]/=s; } return v1;
     }
 
     template<class X> friend Vector<X> nul(Vector<X> const& v) { return Vector<X>(v.size(),v.zero_element()); }
-- 
2.43.0


From 9fad66d308a93ed08008b6df5bd922e6cd7eaa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 23/67] fix: keep incrementing a multi-index within its
 storage, and return the following position from MultiIndexList::erase

---
 source/algebra/multi_index.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index ab139c9..56920b2 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -30,12 +30,12 @@ namespace Ariadne {
 
 MultiIndex& MultiIndex::operator++() {
     assert(_n>0);
-    if(_n==1) { ++_p[0]; ++_p[_n]; return *this; }
+    if(_n==1) { ++_p[0]; return *this; }
     if(_p[_n-2]!=0) { --_p[_n-2]; ++_p[_n-1]; return *this; }
     else {
         IndexType li=_p[_n-1]; _p[_n-1]=0;
         for(SizeType k=_n-1; k!=0; --k) { if(_p[k-1]!=0) { --_p[k-1]; _p[k]=li+1u; return *this; } }
-        _p[0]=li+1u; ++_p[_n];
+        _p[0]=li+1u;
     }
     return *this;
 }
@@ -121,7 +121,7 @@ MultiIndexList::Iterator MultiIndexList::erase(Iterator pos) {
         ++pos; ++next;
     }
     --_size;
-    return pos;
+    return curr;
 }
 
 Void MultiIndexList::clear() {
-- 
2.43.0


From cdd15cab3f491ecf56804ce742bd77491cda9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 24/67] fix: allow a term of an expansion to be appended to
 that expansion when it must grow

---
 source/algebra/expansion.tpl.hpp   | 11 ++++++-----
 source/algebra/multi_index.inl.hpp |  7 ++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/algebra/expansion.tpl.hpp b/source/algebra/expansion.tpl.hpp
index f105d0c..f8d4a4f 100644
--- a/source/algebra/expansion.tpl.hpp
+++ b/source/algebra/expansion.tpl.hpp
@@ -365,18 +365,19 @@ template<class I, class X> Void Expansion<I,X>::prepend(const I& a, const X& c)
 
 template<class I, class X> Void Expansion<I,X>::append(const I& a, const X& c) {
     if(this->number_of_terms()==this->capacity()) {
+        // Copy the term, which may be stored in this expansion
+        const I ta(a); const X tc(c);
         this->reserve(2*this->capacity());
+        this->_indices.append(ta);
+        this->_coefficients.append(tc);
+        return;
     }
     this->_indices.append(a);
     this->_coefficients.append(c);
 }
 
 template<class I, class X> Void Expansion<I,X>::append_sum(const I& a1, const I& a2, const X& c) {
-    if(this->number_of_terms()==this->capacity()) {
-        this->reserve(2*this->capacity());
-    }
-    this->_indices.append(a1+a2);
-    this->_coefficients.append(c);
+    this->append(a1+a2,c);
 }
 
 
diff --git a/source/algebra/multi_index.inl.hpp b/source/algebra/multi_index.inl.hpp
index 39bc572..a58a58a 100644
--- a/source/algebra/multi_index.inl.hpp
+++ b/source/algebra/multi_index.inl.hpp
@@ -185,7 +185,12 @@ inline SizeType MultiIndexList::argument_size() const {
 
 inline Void MultiIndexList::append(MultiIndexData const& a) {
     assert(this->argument_size()==a.size());
-    if (_size==_capacity) { this->reserve(std::max(2*_capacity,DEFAULT_CAPACITY)); }
+    if (_size==_capacity) {
+        // Copy the index, which may be stored in this list
+        const MultiIndex ta(static_cast<MultiIndex const&>(a));
+        this->reserve(std::max(2*_capacity,DEFAULT_CAPACITY));
+        return this->append(ta);
+    }
     MultiIndexReference(this->_argument_size,this->_indices+this->_argument_size*this->_size)=static_cast<MultiIndex const&>(a);
     ++_size;
 }
-- 
2.43.0


From 0f63f82918dbc60f49572d34032f85329306c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 25/67] fix: Differential::check compares the last term with
 one past the end

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..ee1e482 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -349,7 +349,7 @@ template<class X> Void Differential<X>::check() const {
     for(auto iter=this->begin(); iter!=this->end(); ++iter) {
         ARIADNE_ASSERT_MSG(iter->index().degree()<=this->degree(), *this);
         auto next = iter; ++next;
-        ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
+        if(next!=this->end()) ARIADNE_ASSERT_MSG(graded_less(iter->index(),next->index()),"ErrorTag in ordering Differential "<<this->expansion());
     }
 }
 
-- 
2.43.0


From 000f81042008dc993be85fe2c4a49dcb9aba10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 26/67] fix: derivative of a univariate differential writes
 beyond its coefficients

---
 source/algebra/univariate_differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..fa7b4fd 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -119,7 +119,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From 3d10c78dbbbf5fcad034ed5b64c6912b2b016b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:43 +0000
Subject: [PATCH 27/67] fix: composing a differential with itself reads
 coefficients it has overwritten

---
 source/algebra/differential.tpl.hpp            | 16 ++++++----------
 source/algebra/univariate_differential.tpl.hpp |  9 ++++-----
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index ee1e482..cc8a357 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -591,14 +591,12 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
 template<class X>
 Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
 {
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    Vector<Differential<X>> w(y);
     X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,w);
     r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
     return r;
 }
 
@@ -608,13 +606,11 @@ Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>&
 {
     //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
     X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
+    Vector<Differential<X>> w(y);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
     Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],w); r[i].set_degree(deg); }
     return r;
 }
 
diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index fa7b4fd..b7ae813 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -101,16 +101,15 @@ template<class X>
 UnivariateDifferential<X> UnivariateDifferential<X>::_compose(const UnivariateDifferential<X>& x, const UnivariateDifferential<X>& y)
 {
     DegreeType d=std::min(x.degree(),y.degree());
-    X y0 = y[0];
-    X z = Ariadne::create_zero(y0);
-    const_cast<X&>(y[0]) = z;
+    X z = Ariadne::create_zero(y[0]);
+    UnivariateDifferential<X> w(y);
+    w[0] = z;
     UnivariateDifferential<X> r(d, z);
     r[0]=x[d];
     for(DegreeType n=1; n<=d; ++n) {
-        r=r*y;
+        r=r*w;
         r[0]+=x[static_cast<SizeType>(d-n)];
     }
-    const_cast<X&>(y[0])=y0;
     return r;
 }
 
-- 
2.43.0


From 296bf8940254bbb76bff22c8e41cd5b91b233634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:43 +0000
Subject: [PATCH 28/67] fix: differential of a flow with parameters takes the
 parameters for time

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index cc8a357..981801e 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -872,7 +872,7 @@ Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> con
 
     Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
     Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
 
     return _flow(df,dx0, da);
 }
-- 
2.43.0


From 86beea31dd55581fc0877f2222151bc3890c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:51 +0000
Subject: [PATCH 29/67] fix: differentials of degree zero of variables and
 affine functions have terms of degree one

---
 source/algebra/differential.tpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 981801e..1266dc4 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -94,6 +94,7 @@ template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeT
     Differential<X> r(as,deg,nul(v));
     MultiIndex a(as);
     r._expansion.append(a,v);
+    if(deg==0) { return r; }
     a[j]=1;
     X one(v); one=1;
     r._expansion.append(a,one);
@@ -105,6 +106,7 @@ template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeTyp
     Differential<X> r(as,deg,nul(x));
     MultiIndex a(as);
     r._expansion.append(a,x);
+    if(deg==0) { return r; }
     for (SizeType j=0; j!=as; ++j) {
         a[j]=1;
         r._expansion.append(a,g[j]);
@@ -141,7 +143,7 @@ template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType
     MultiIndex a(v.size());
     for(SizeType i=0; i!=v.size(); ++i) {
         r[i]._expansion.append(a,v[i]);
-        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
+        if(deg!=0) { a[i]=1; r[i]._expansion.append(a,one); a[i]=0; }
     }
     return r;
 }
-- 
2.43.0


From 03e242a39a17e27228d21b895519587360ae4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:51 +0000
Subject: [PATCH 30/67] fix: vector of affine differentials puts every
 coefficient of a row on the same variable

---
 source/algebra/differential.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 1266dc4..44816e8 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -150,13 +150,13 @@ template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType
 
 template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
     X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
+    Vector<Differential<X>> r(v.size(),Differential<X>(G.column_size(),deg,zero));
     MultiIndex a(r.argument_size());
     for(SizeType i=0; i!=r.size(); ++i) {
         r[i]._expansion.append(a,v[i]);
         for(SizeType j=0; j!=r.argument_size(); ++j) {
             const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[i]=1; r[i]._expansion.append(a,gij); a[i]=0; }
+            if(deg!=0) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
         }
     }
     return r;
-- 
2.43.0


From 61fab7f93f0e719d615d6a9517b8b9608e05abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 31/67] fix: derivative of a polynomial leaves zero terms with
 the index of other terms

---
 source/function/polynomial.tpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 859e248..d111792 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -145,6 +145,7 @@ Polynomial<I,X>::differentiate(VariableIndexType j) {
         CoefficientReference c=iter->coefficient();
         c*=static_cast<Nat>(a[j]); if(a[j]!=0u) { --a[j]; }
     }
+    this->cleanup();
     return *this;
 }
 
-- 
2.43.0


From 0621357564a1408cb3985e3fd4f908500a098d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 32/67] fix: univariate polynomials have degree zero and become
 zero when assigned a constant

---
 source/function/polynomial.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index d111792..6208054 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -80,7 +80,7 @@ template<class I, class X> auto Polynomial<I,X>::variables(ArgumentSizeType as,
 template<class I, class X> Polynomial<I,X>& Polynomial<I,X>::operator=(const X& x) {
     this->_expansion.clear();
     if constexpr (Same<I,MultiIndex>) { this->_expansion.append(MultiIndex(this->argument_size()),x); }
-    if constexpr (Same<I,DegreeType>) { this->_expansion.append(DegreeType(0u),x); }
+    if constexpr (Same<I,UniIndex>) { this->_expansion.append(UniIndex(0u),x); }
     return *this;
 }
 
@@ -92,7 +92,7 @@ template<class I, class X> SizeType Polynomial<I,X>::number_of_terms() const { r
 template<class I, class X> DegreeType Polynomial<I,X>::degree() const {
     DegreeType deg=0u; for(auto iter=this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
         if constexpr (Same<I,MultiIndex>) { deg=std::max(deg,iter->index().degree()); }
-        else if constexpr (Same<I,DegreeType>) { deg=std::max(deg,iter->index()); }
+        else if constexpr (Same<I,UniIndex>) { deg=std::max(deg,static_cast<DegreeType>(iter->index())); }
     }
     return deg;
 }
-- 
2.43.0


From 2f89b2badc36f904bdf9f8fb32d8bcdd07da3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 33/67] fix: truncating a polynomial drops validated
 coefficients which may be zero

---
 source/function/polynomial.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 6208054..4191065 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -165,7 +165,7 @@ template<class I, class X>
 Polynomial<I,X>& Polynomial<I,X>::truncate(DegreeType d) {
     Polynomial<I,X> r(this->argument_size(),this->zero_coefficient());
     for(typename Polynomial<I,X>::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        if(degree_of(iter->index())<=d && decide(iter->coefficient()!=0)) {
+        if(degree_of(iter->index())<=d && !definitely(iter->coefficient()==0)) {
             r._append(iter->index(),iter->coefficient());
         }
     }
-- 
2.43.0


From 1e880eaedefc4742d2169a2e168880a7fefc6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:02 +0000
Subject: [PATCH 34/67] fix: partial evaluation of a constant polynomial writes
 beyond its powers

---
 source/function/polynomial.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 4191065..ccbfb08 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -407,7 +407,7 @@ Polynomial<I,X>::_partial_evaluate(const Polynomial<I,X>& x, SizeType k, const X
             Array< Polynomial<I,X> > p(x.degree()+1u,Polynomial<I,X>(x.argument_size()-1u,x.zero_coefficient()));
 
             Array<X> cpowers(x.degree()+1u,x.zero_coefficient());
-            cpowers[0]=1; cpowers[1]=c;
+            cpowers[0]=1; if(x.degree()>=1) { cpowers[1]=c; }
             if(x.degree()>=2) { cpowers[2]=sqr(c); }
             for(DegreeType j=3; j<=x.degree(); ++j) {
                 cpowers[j]=cpowers[j-2u]*cpowers[2];
-- 
2.43.0


From 80aa56a62c74f4537913badcb56aea7b2dc15ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 35/67] fix: evaluating a univariate polynomial drops the power
 of its lowest term

---
 source/algebra/evaluate.tpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/algebra/evaluate.tpl.hpp b/source/algebra/evaluate.tpl.hpp
index 4686259..4547174 100644
--- a/source/algebra/evaluate.tpl.hpp
+++ b/source/algebra/evaluate.tpl.hpp
@@ -144,6 +144,9 @@ template<class X, class Y> ArithmeticType<X,Y> horner_evaluate(const Expansion<U
         a=na;
         ++iter;
     }
+    for(SizeType ii=0; ii!=a; ++ii) {
+        r=r*x;
+    }
     return r;
 }
 
-- 
2.43.0


From 2c2378c1f7ba61aade318f318b399af13801eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 36/67] fix: adding a constant to a univariate polynomial
 changes its linear coefficient

---
 source/function/polynomial.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index ccbfb08..698c2f1 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -233,12 +233,12 @@ template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::a
 
 
 template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::apply(Add, Polynomial<I,X> p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
 template<class I, class X> Polynomial<I,X>& AlgebraOperations<Polynomial<I,X>>::iapply(Add, Polynomial<I,X>& p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
-- 
2.43.0


From 3091e8d12ae698a0126c0772c2a8823a38ba8209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 37/67] fix: multivariate Chebyshev polynomials are summed in
 another order than they are evaluated and multiplied in, and abort when empty
 or without constant term

---
 source/function/chebyshev_polynomial.tpl.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/function/chebyshev_polynomial.tpl.hpp b/source/function/chebyshev_polynomial.tpl.hpp
index 7a6e9fe..5448cb9 100644
--- a/source/function/chebyshev_polynomial.tpl.hpp
+++ b/source/function/chebyshev_polynomial.tpl.hpp
@@ -259,10 +259,7 @@ MultivariateChebyshevPolynomial<X>::apply(Neg, ChebyshevPolynomial<X> cm) -> Che
 
 template<class X> auto
 MultivariateChebyshevPolynomial<X>::apply(Add, ChebyshevPolynomial<X> cm, Scalar<X> const& s) -> ChebyshevPolynomial<X> {
-    if (cm._terms.empty()) { cm._terms.append(MultiIndex::zero(cm.argument_size()),s); }
-    else if (cm._terms.front().index().degree()==0) { cm._terms.front().coefficient()+=s; }
-    else { assert(false); }
-    return cm;
+    return cm+ChebyshevPolynomial<X>::constant(cm.argument_size(),s);
 }
 
 template<class X> auto
@@ -281,7 +278,7 @@ MultivariateChebyshevPolynomial<X>::apply(Add, ChebyshevPolynomial<X> const& cm1
         if(iter1->index()==iter2->index()) {
             cmr._terms.append(iter1->index(),iter1->coefficient()+iter2->coefficient());
             ++iter1; ++iter2;
-        } else if(reverse_lexicographic_less(iter1->index(),iter2->index())) {
+        } else if(lexicographic_less(iter1->index(),iter2->index())) {
             cmr._terms.append(iter1->index(),iter1->coefficient());
             ++iter1;
         } else { // iter1->index()>iter2->index()
@@ -307,6 +304,8 @@ MultivariateChebyshevPolynomial<X>::apply(Sub, ChebyshevPolynomial<X> const& cm1
 
 template<class X> auto
 MultivariateChebyshevPolynomial<X>::apply(Mul, ChebyshevPolynomial<X> const& cm1, ChebyshevPolynomial<X> const& cm2) -> ChebyshevPolynomial<X> {
+    if(cm1._terms.empty()) { return cm1; }
+    if(cm2._terms.empty()) { return cm2; }
     ConstIterator iter1=cm1._terms.begin(); ConstIterator iter2=cm2._terms.begin();
     ConstIterator end1=cm1._terms.end(); ConstIterator end2=cm2._terms.end();
     return _mul_from(iter1,end1,iter2,end2,0u);
@@ -339,6 +338,7 @@ inline Boolean equal_up_to(MultiIndex const& a1, MultiIndex const& a2, SizeType
 
 template<class X> auto
 MultivariateChebyshevPolynomial<X>::operator() (Vector<Scalar<X>> const& x) const -> Scalar<X> {
+    if(this->_terms.empty()) { return x.zero_element(); }
     ConstIterator from=this->_terms.begin();
     return _eval(from,this->_terms.end(),x,0u);
 }
-- 
2.43.0


From be2d7f444adaf3bf2b2cccb0d1383a3eab35da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 38/67] fix: rec, sqrt, log, sin and cos of Taylor models had
 truncation errors that missed the neglected terms

---
 source/algebra/algebra_operations.tpl.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 9b9d391..81e194e 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -241,7 +241,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Sqrt, const A& x)
     A y=x/avg-1;
     A z=x.create();
     z+=sqrt_series[d-1];
-    for(Nat i=0; i!=d; ++i) {
+    for(Nat i=1; i!=d; ++i) {
         z=sqrt_series[d-i-1] + z * y;
     }
     z+=z.create_ball(trunc_err);
@@ -270,7 +270,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Rec, const A& x)
 
     A y=1-x/avg;
     A z=x.create();
-    z+=(d%2?-1:+1);
+    z+=1;
     for(Nat i=0; i!=d; ++i) {
         z=1 + z * y;
     }
@@ -301,7 +301,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Log, const A& x)
 
     A y=x/avg-1;
     A z=x.create();
-    z+=X(d%2?-1:+1,pr)/d;
+    z+=X(d%2?+1:-1,pr)/d;
     for(Nat i=1; i!=d; ++i) {
         z=X((d-i)%2?+1:-1,pr)/(d-i) + z * y;
     }
@@ -358,17 +358,15 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
 // and that the power series is of the form x*f(x^2)
 template<class A> A NormedAlgebraOperations<A>::apply(Sin, const A& x)
 {
-    // FIXME: Truncation error may be incorrect
-
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
     Int n=integer_cast<Int>( round(avg/pi) );
 
     // Range reduce; use sin(x)=sin(x-2*n*pi)=sin((2*n+1)*pi-x)
     A y=(n%2) ? n*pi-x : x-n*pi;
 
     A s=sqr(y);
+    auto rad=y.norm();
 
     // Find the required degree
     Nat deg = 0;
@@ -400,7 +398,6 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
 {
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
 
     // Range reduce; use cos(x)=cos(x-2*n*pi)=-cos(x-pi)
     Int n=integer_cast<Int>( round(avg/pi) );
@@ -408,6 +405,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
     int c=(n%2)?-1:+1; // If n is odd, take minus the usual series
 
     A s=sqr(y);
+    auto rad=y.norm();
 
     // Find the required degree
     Nat deg = 0;
-- 
2.43.0


From 8704cb9528c47fc149aa75df0ab097d6e489bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 39/67] fix: NullSweeper did not compile

---
 source/algebra/sweeper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/sweeper.hpp b/source/algebra/sweeper.hpp
index c538603..1b402f4 100644
--- a/source/algebra/sweeper.hpp
+++ b/source/algebra/sweeper.hpp
@@ -235,7 +235,7 @@ template<class F> class NullSweeper : public SweeperMixin<NullSweeper<F>,F> {
   public:
     NullSweeper(PR precision) : _coefficient_precision(precision) { }
     inline PR precision() const { return _coefficient_precision; }
-    inline Bool discard(const MultiIndex& a, const F& x) const { return x==0.0; }
+    inline Bool discard(const MultiIndex& a, const F& x) const { return x==0; }
   private:
     virtual Void _write(OutputStream& os) const { os << "NullSweeper"; }
 };
-- 
2.43.0


From fbbc14df36c24e8526da3dc29c63154fb2a2c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 40/67] fix: swept terms of interval Taylor models were lost,
 the radius ignored the width of the constant, and the error of adding an
 inexact number and of multiply-and-add was half of what was needed

---
 source/function/taylor_model.tpl.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..b9c6d85 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -249,7 +249,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -294,7 +294,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -637,7 +637,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F::set_rounding_upward();
     Rounded<F> u=xv+cu;
     Rounded<F> ml=(-xv)-cl;
-    re += hlf(u+ml);
+    re += (c.lower_raw()==c.upper_raw()) ? hlf(u+ml) : max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -823,7 +823,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> myv=-yv;
     Rounded<F> u=xv*yv+zv;
     Rounded<F> ml=xv*myv-zv;
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -847,7 +847,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=xv*cl+yv;
         ml=xv*mcu-yv;
     }
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -1905,6 +1905,8 @@ template<class P, class F> auto TaylorModel<P,F>::radius() const -> NormType {
     for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
         if(iter->index().degree()!=0) {
             r+=mag(iter->coefficient());
+        } else if constexpr (AnInterval<CoefficientType>) {
+            r+=mag(iter->coefficient()-this->average());
         }
     }
     r+=this->error();
-- 
2.43.0


From 06ae028e265b3a23ba9818fef830367ac9269afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:30 +0000
Subject: [PATCH 41/67] fix: abs, max and min of Taylor models with less than
 double precision threw an exception

---
 source/function/taylor_model.tpl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index b9c6d85..31e215b 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -1426,7 +1426,10 @@ template<class P, class F> TaylorModel<P,F> AlgebraOperations<TaylorModel<P,F>>:
             Nat j=(n-2)-i;
             r=s*r+p[j];
         }
-        r.error()+=err;
+        if constexpr (Same<P,ValidatedTag>) {
+            typedef typename F::PrecisionType PR;
+            r.error()+=mag(FloatBounds<PR>(Dyadic(err),x.precision())); // The error need not be exact in the precision of the model
+        }
         return r*xmag;
     }
 }
-- 
2.43.0


From a00ebccc2928687e12ca0e64b0b60c0932b2f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:46 +0000
Subject: [PATCH 42/67] fix: subtract, not add, in VectorScaledFunctionPatch
 operator-=

---
 source/function/scaled_function_patch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/scaled_function_patch.hpp b/source/function/scaled_function_patch.hpp
index 0af5a80..c1eb7a5 100644
--- a/source/function/scaled_function_patch.hpp
+++ b/source/function/scaled_function_patch.hpp
@@ -831,7 +831,7 @@ template<class M> class VectorScaledFunctionPatch
         ARIADNE_ASSERT(f.result_size()==g.result_size());
         ARIADNE_ASSERT(subset(f.domain(),g.domain()));
         ARIADNE_ASSERT(f.domain()==g.domain());
-        f.models()+=g.models();
+        f.models()-=g.models();
         return f;
     }
     friend VectorScaledFunctionPatch<M>& operator+=(VectorScaledFunctionPatch<M>& f, const Vector<NumericType>& c) {
-- 
2.43.0


From 9e0e5161c56765bc8505fe534123489b54e035e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:29 +0000
Subject: [PATCH 43/67] fix: antiderivative from a point refused domains whose
 midpoint is not a floating-point number

---
 source/function/scaled_function_patch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/scaled_function_patch.hpp b/source/function/scaled_function_patch.hpp
index c1eb7a5..ec5735d 100644
--- a/source/function/scaled_function_patch.hpp
+++ b/source/function/scaled_function_patch.hpp
@@ -401,7 +401,7 @@ template<class M> class ScaledFunctionPatch
         ScaledFunctionPatch<M> g = antiderivative(f,k);
         VectorScaledFunctionPatch<M> h ( VectorScaledFunctionPatch<M>::identity(f.domain(),f.properties()) );
         h[k] = ScaledFunctionPatch<M>::constant(f.domain(),c,f.properties());
-        return g-compose(g,h); }
+        return g-unchecked_compose(g,h); }
     friend ScaledFunctionPatch<M> antiderivative(const ScaledFunctionPatch<M>& f, SizeType k, const GenericNumericType& c) {
         return antiderivative(f,k,NumericType(c,f.precision())); }
 
-- 
2.43.0


From b3211f0d7108c67555db6cdc3224c2e042e983bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:36 +0000
Subject: [PATCH 44/67] fix: evaluation of vector procedures did not compile
 for numbers without a default constructor

---
 source/function/procedure.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/procedure.hpp b/source/function/procedure.hpp
index 4fb745d..aff2494 100644
--- a/source/function/procedure.hpp
+++ b/source/function/procedure.hpp
@@ -184,7 +184,7 @@ template<class X, class Y> inline X evaluate(const Procedure<Y>& p, const Vector
 template<class X, class Y> inline Vector<X> evaluate(const Vector<Procedure<Y>>& p, const Vector<X>& x) {
     List<X> t(p._instructions.size(),x.zero_element());
     _execute(t,p._instructions,p._constants,x);
-    Vector<X> r(p.result_size());
+    Vector<X> r(p.result_size(),x.zero_element());
     for(SizeType i=0; i!=r.size(); ++i) { r[i]=std::move(t[p._results[i]]); }
     return r;
 }
-- 
2.43.0


From 14e7359f975c147fa2a081ab2deaae45de6d4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:56 +0000
Subject: [PATCH 45/67] fix: the derivative of the zeroth power was nan at zero

---
 source/numeric/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index e5c7097..8996aee 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -292,7 +292,7 @@ struct Div : OperatorObject<Div> {
 struct Pow : OperatorObject<Pow> {
     static constexpr OperatorCode code() { return OperatorCode::POW; } static constexpr OperatorKind kind() { return OperatorKind::GRADED; }
     template<class A, class N> auto operator()(A&& a, N&& n) const -> decltype(pow(a,n)) { return pow(a,n); }
-    template<class X, class N> X derivative(const X& a, N n) const { return n*pow(a,n-1); }
+    template<class X, class N> X derivative(const X& a, N n) const { return n*pow(a,n==0?n:n-1); }
     template<class X,class D, class N> D derivative(const X& a, const D& d, N n) const { return derivative(a,n)*d; }
 };
 struct Root : OperatorObject<Root> {
-- 
2.43.0


From 4cac24f6c1c11ddd49b8a38e843b024514d80ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:57 +0000
Subject: [PATCH 46/67] fix: simplify replaced sqrt(sqr(x)) and atan(tan(x)) by
 x

---
 source/numeric/operators.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 8996aee..af9e781 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -503,11 +503,10 @@ constexpr Pos inverse(Pos) { return Pos(); }
 constexpr Neg inverse(Neg) { return Neg(); }
 constexpr Rec inverse(Rec) { return Rec(); }
 constexpr Sqrt inverse(Sqr) { return Sqrt(); }
-constexpr Sqr inverse(Sqrt) { return Sqr(); }
+// Note that inverse(op) need only be a right-inverse of op; since sqrt(sqr(x))=abs(x) and atan(tan(x)) is periodic, Sqrt and Atan have no inverse
 constexpr Log inverse(Exp) { return Log(); }
 constexpr Exp inverse(Log) { return Exp(); }
 constexpr Atan inverse(Tan) { return Atan(); }
-constexpr Tan inverse(Atan) { return Tan(); }
 
 template<class OP> using InverseType = decltype(inverse(declval<OP>()));
 
-- 
2.43.0


From fce0c4a26cce42fbaae73cf82051a0080089e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:57 +0000
Subject: [PATCH 47/67] fix: assigning to an element of a vector function
 changed all its copies

---
 source/function/function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index bd4027f..e80c007 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -403,7 +403,10 @@ template<class P, class SIG> Void Function<P,SIG>::set(SizeType i, ScalarFunctio
                           "Function<P,RealVector(ARGS...)>::set(SizeType i, Function<P,RealScalar(ARGS...)>)",
                           "Cannot assign to component of vector-valued function "<<(*this)<<" as it is not a VectorOfScalarFunction.");
         }
-        VectorOfScalarFunction<P,ARG>& vf = const_cast<VectorOfScalarFunction<P,ARG>&>(*cvf);
+        // Other functions may share this representation, and must not change
+        auto new_ptr = std::make_shared<FunctionWrapper<VectorOfScalarFunction<P,ARG>,P,SIG>>(*cvf);
+        VectorOfScalarFunction<P,ARG>& vf = *new_ptr;
+        this->_ptr = new_ptr;
         vf[i]=sf;
     } else {
         ARIADNE_ASSERT((Same<ResultSizeType,SizeType>));
-- 
2.43.0


From 0384e8d595052402f8b8f5e97e835c330f557691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:57 +0000
Subject: [PATCH 48/67] fix: join of a scalar with a vector validated function
 used the size of the scalar, writing outside of the result or leaving
 components zero

---
 source/function/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index e80c007..3ced15d 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -896,9 +896,9 @@ ValidatedVectorMultivariateFunction join(ValidatedScalarMultivariateFunction con
     } else if(f2ptr) {
         ValidatedVectorMultivariateFunctionPatch f2ptch(f2ptr); ValidatedScalarMultivariateFunctionPatch f1ptch=factory(f2ptch).create(f1); return join(f1ptch,f2ptch);
     } else {
-        VectorOfScalarMultivariateFunction<ValidatedTag> r(f1.result_size()+1u,f1.domain());
+        VectorOfScalarMultivariateFunction<ValidatedTag> r(f2.result_size()+1u,f1.domain());
         r[0u]=f1;
-        for(SizeType i=0; i!=f1.result_size(); ++i) { r[i+1]=f2[i]; }
+        for(SizeType i=0; i!=f2.result_size(); ++i) { r[i+1]=f2[i]; }
         return r;
     }
 }
-- 
2.43.0


From 994787e56cc0dfb248fc36793b8abdf82ae5de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 49/67] fix: printed text of expressions omitted the
 parentheses after unary plus

---
 source/symbolic/templates.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/symbolic/templates.tpl.hpp b/source/symbolic/templates.tpl.hpp
index 300849c..8e54087 100644
--- a/source/symbolic/templates.tpl.hpp
+++ b/source/symbolic/templates.tpl.hpp
@@ -90,7 +90,7 @@ template<class W> class OperatorSymbolicWriter {
     template<class OP, class E1, class E2> void _write_impl(OutputStream& os, OP op, E1 const& e1, E2 const& e2) { os << op << '(' << make_writable(_w,e1) << ',' << make_writable(_w,e2) << ')'; }
 
     template<class E> void _write_impl(OutputStream& os, Pos op, E const& e) {
-        os << '+' << make_writable(_w,e); }
+        os << '+'; switch(e.op()) { case Cnst::code(): case Var::code(): os << make_writable(_w,e); break; default: os << '(' << make_writable(_w,e) << ')'; } }
     template<class E> void _write_impl(OutputStream& os, Neg op, E const& e) {
         os << '-'; switch(e.op()) { case Cnst::code(): case Var::code(): os << make_writable(_w,e); break; default: os << '(' << make_writable(_w,e) << ')'; } }
     template<class OP, class E> void _write_impl(OutputStream& os, OP op, E const& e) {
-- 
2.43.0


From e8d78d796e082029b9215dfe5617a67869b53015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 50/67] fix: indicator of conjunctions and disjunctions with
 negative sign combined the terms wrongly

---
 source/symbolic/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 6592b5c..36b0105 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -320,8 +320,8 @@ RE _indicator(Less, RE e1, RE e2, Sign sign) { return _indicator(Leq(),e1,e2,sig
 RE _indicator(Equal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 RE _indicator(Unequal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 
-RE _indicator(AndOp, KE e1, KE e2, Sign sign) { return min(indicator(e1,sign),indicator(e2,sign)); }
-RE _indicator(OrOp, KE e1, KE e2, Sign sign) { return max(indicator(e1,sign),indicator(e2,sign)); }
+RE _indicator(AndOp, KE e1, KE e2, Sign sign) { if(sign==Sign::NEGATIVE) { return max(indicator(e1,sign),indicator(e2,sign)); } return min(indicator(e1,sign),indicator(e2,sign)); }
+RE _indicator(OrOp, KE e1, KE e2, Sign sign) { if(sign==Sign::NEGATIVE) { return min(indicator(e1,sign),indicator(e2,sign)); } return max(indicator(e1,sign),indicator(e2,sign)); }
 RE _indicator(NotOp, KE e, Sign sign) { return neg(indicator(e,sign)); }
 
 Expression<Real> indicator(ConstantExpressionNode<Kleenean> e, Sign sign) {
-- 
2.43.0


From 2781d1dd61ffacfa86c51f9c2abeaee9b546386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 51/67] fix: opposite(predicates) threw an exception for all
 comparisons

---
 source/symbolic/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 36b0105..f141218 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -471,9 +471,9 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 
     if (e1cp && e2cp) {
         if (identical(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg2()) && identical(e1.arg2(),e2.arg1());
+            return identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         } else if (opposite(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg1()) && identical(e1.arg2(),e2.arg2());
+            return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
         }
     }
     return false;
-- 
2.43.0


From 252a136a279db64a1f11ef18238af0856cf66de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:46 +0000
Subject: [PATCH 52/67] fix: widen_domain rounded the lower bound of the domain
 upwards

---
 source/geometry/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..4303271 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -49,7 +49,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
     if(l==u) { neg_rl=neg_rl+min; ru=ru+min; }
     if(neg_rl<neg_l) { neg_rl=neg_rl+min; }
     if(ru<u) { ru=ru+min; }
-    volatile float rl=-neg_l;
+    volatile float rl=-neg_rl;
     Interval<FloatDP> res(ExactDouble(rl),ExactDouble(ru),dp);
     FloatDP::set_rounding_mode(rnd);
     return res;
-- 
2.43.0


From 86116ad6b12b8115188b953784d75566113b7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:46 +0000
Subject: [PATCH 53/67] fix: equality of intervals ignored differences of the
 lower bounds

---
 source/geometry/interval.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 2740e91..1b41f77 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -88,7 +88,7 @@ template<class U, class X> inline auto contains(Interval<U> const& ivl1, X const
     return ivl1.lower_bound()<=x2 && ivl1.upper_bound()>=x2; }
 
 template<class U> inline auto equal(Interval<U> const& ivl1, Interval<U> const& ivl2) -> decltype(ivl1.upper_bound()==ivl2.upper_bound()) {
-    return ivl1.lower_bound()<=ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
+    return ivl1.lower_bound()==ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
 
 template<class UB1, class UB2> inline auto subset(Interval<UB1> const& ivl1, Interval<UB2> const& ivl2) -> decltype(ivl1.upper_bound()<=ivl2.upper_bound()) {
     return ivl1.lower_bound()>=ivl2.lower_bound() && ivl1.upper_bound()<=ivl2.upper_bound(); }
-- 
2.43.0


From b31b38d968d7cd59b9ce29eb2b25633388e45575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:46 +0000
Subject: [PATCH 54/67] fix: middle part of an interval with uncertain bounds
 took both ends from the quartiles

---
 source/geometry/interval.inl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 1b41f77..47679f8 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -148,7 +148,8 @@ template<class U> inline auto split(Interval<U> const& ivl, SplitPart lmu) -> In
     } else {
         auto cl=(3*ivl.lower_bound()+ivl.upper_bound())*0.25_x;
         auto cu=(ivl.lower_bound()+3*ivl.upper_bound())*0.25_x;
-        return Interval<U>(make_split_point(cl),make_split_point(cu));
+        typedef typename Interval<U>::LowerBoundType L;
+        return Interval<U>(L(make_split_point(cl)),U(make_split_point(cu)));
     }
 }
 
-- 
2.43.0


From 5314a544eff43066ff908cde2f39f2b62a63e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 55/67] fix: a grid paving no longer covers a box that touches
 the boundary of its root cell

---
 source/geometry/grid_paving.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index dfe910f..54a8ef4 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1344,15 +1344,16 @@ ValidatedLowerKleenean GridTreeSubpaving::covers( const ExactBoxType& theBoxType
 
     ARIADNE_ASSERT( theBoxType.dimension() == root_cell().dimension() );
 
-    Bool isASubSet = theBoxType.subset( root_cell().box() );
+    ExactBoxType theWidenedBoxType = cast_exact_box(widen(theBoxType));
+    Bool isASubSet = theWidenedBoxType.subset( root_cell().box() );
     if( ! isASubSet ) {
-        //If the box is not covered by the cell corresponding to the root node
-        //of the set, then clearly theBoxType is not a subset of this set.
+        //If the box is not in the interior of the cell corresponding to the root node
+        //of the set, then clearly theBoxType is not in the interior of this set.
         return false;
     } else {
         //Otherwise, is theBoxType is possibly a subset then we try to see furhter
         BinaryWord pathCopy( root_cell().word() );
-        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, cast_exact_box(widen(theBoxType)) );
+        return GridTreeSubpaving::_superset( binary_tree(), grid(), root_cell().root_extent(), pathCopy, theWidenedBoxType );
     }
 }
 
-- 
2.43.0


From 9e335f8fa60fc42f98e01c3278be9b2decbd94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 56/67] fix: disjointness of a grid paving and a box touching
 its root cell no longer depends on how the paving is subdivided

---
 source/geometry/grid_paving.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 54a8ef4..eed635d 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1540,7 +1540,7 @@ ValidatedKleenean GridTreeSubpaving::_disjoint( const BinaryTreeNode* pCurrentNo
 
     //Check if the current node overlaps with theBoxType
     ExactBoxType theCellsBoxType = GridCell::compute_box( theGrid, theExtent, theWord );
-    ValidatedKleenean doPossiblyIntersect = !theCellsBoxType.disjoint( theBoxType );
+    ValidatedKleenean doPossiblyIntersect = theCellsBoxType.overlaps( theBoxType );
 
     if( possibly(doPossiblyIntersect) ) {
         //If there is a possible intersection then we do the checking
-- 
2.43.0


From d37a71afed91d02a07fa349078f6c525517dd9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 57/67] fix: an empty grid subpaving is a subset of any grid
 subpaving

---
 source/geometry/grid_paving.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index eed635d..f4cbf65 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1964,10 +1964,10 @@ Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2
             pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
             result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
         } else {
-            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
+            //theSet1 is not a subset of theSet2 unless it is empty, since their bounding boxes
             //are disjoint, due to paths (from the common primary cell to their root nodes)
             //that have different suffixes.
-            result = false;
+            result = ! theSet1.binary_tree()->has_enabled();
         }
     }
 
-- 
2.43.0


From 795a8ec45bb9656220a39b4148a9a5cf81e1ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 58/67] fix: product of grid pavings with cells of different
 depths

---
 source/geometry/grid_paving.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index f4cbf65..50831e8 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -3029,12 +3029,40 @@ GridCell product(GridCell const& gc1, GridCell const& gc2) {
     return r;
 }
 
-// The product of two cells of the same depth
+// The number of times a cell or some subcell has been subdivided in all dimensions, relative to the unit cell
+static Int subdivision_level(GridCell const& theCell) {
+    const Int dim=static_cast<Int>(theCell.dimension());
+    const Int path_length=static_cast<Int>(theCell.word().size());
+    return (path_length+dim-1)/dim-static_cast<Int>(theCell.root_extent());
+}
+
+// The subcells of a cell which have been subdivided a given number of times in all dimensions, relative to the unit cell
+static List<GridCell> subcells_at_level(GridCell const& theCell, Int level) {
+    List<GridCell> theSubcells; theSubcells.append(theCell);
+    while (theSubcells.front().depth() < level*static_cast<Int>(theCell.dimension())) {
+        List<GridCell> theSplitCells;
+        for (GridCell const& theSubcell : theSubcells) {
+            theSplitCells.append(theSubcell.split(false));
+            theSplitCells.append(theSubcell.split(true));
+        }
+        theSubcells = theSplitCells;
+    }
+    return theSubcells;
+}
+
+// The product of two pavings; cells of different depths are subdivided to a common depth
 GridTreePaving product(GridTreeSubpaving const& theSet1, GridTreeSubpaving const& theSet2) {
     GridTreePaving result(join(theSet1.grid(),theSet2.grid()));
     for (GridCell const& theCell1 : theSet1) {
         for (GridCell const& theCell2 : theSet2) {
-            result._adjoin_cell(std::max(theCell1.root_extent(),theCell2.root_extent()),product_word(theCell1,theCell2));
+            const Int level=std::max(subdivision_level(theCell1),subdivision_level(theCell2));
+            const List<GridCell> theSubcells1=subcells_at_level(theCell1,level);
+            const List<GridCell> theSubcells2=subcells_at_level(theCell2,level);
+            for (GridCell const& theSubcell1 : theSubcells1) {
+                for (GridCell const& theSubcell2 : theSubcells2) {
+                    result._adjoin_cell(std::max(theSubcell1.root_extent(),theSubcell2.root_extent()),product_word(theSubcell1,theSubcell2));
+                }
+            }
         }
     }
     return result;
-- 
2.43.0


From 471051230b72792467ac6df9ad9f12e552d86ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 59/67] fix: image of a grid paving under a projection used
 only the first subdivision of its cells

---
 source/geometry/grid_paving.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index 50831e8..55d63b2 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -3109,15 +3109,28 @@ GridTreePaving image(const GridTreePaving& theSet, const Projection& theProjecti
     Grid resultGrid=project(theSet.grid(),theProjection.indices());
     GridTreePaving theResultSet(resultGrid);
     for (GridCell const& theCell : theSet) {
-        BinaryWord const& theWord = theCell.word();
-        assert(theWord.size() % theSet.dimension() == 0);
-        BinaryWord resultWord;
-        SizeType n=theWord.size()/theSet.dimension()*theResultSet.dimension();
-        resultWord.reserve(n);
-        for (SizeType i=0; i!=n; ++i) {
-            resultWord.append(theWord[theProjection[i%theResultSet.dimension()]]);
-        }
-        theResultSet._adjoin_cell(theCell.root_extent(),resultWord);
+        //Split the cell until it has been subdivided equally often in all dimensions
+        List<GridCell> theSubcells; theSubcells.append(theCell);
+        while (theSubcells.front().word().size() % theSet.dimension() != 0) {
+            List<GridCell> theSplitCells;
+            for (GridCell const& theSubcell : theSubcells) {
+                theSplitCells.append(theSubcell.split(false));
+                theSplitCells.append(theSubcell.split(true));
+            }
+            theSubcells = theSplitCells;
+        }
+        for (GridCell const& theSubcell : theSubcells) {
+            BinaryWord const& theWord = theSubcell.word();
+            BinaryWord resultWord;
+            SizeType levels=theWord.size()/theSet.dimension();
+            resultWord.reserve(levels*theResultSet.dimension());
+            for (SizeType level=0; level!=levels; ++level) {
+                for (SizeType i=0; i!=theResultSet.dimension(); ++i) {
+                    resultWord.append(theWord[level*theSet.dimension()+theProjection[i]]);
+                }
+            }
+            theResultSet._adjoin_cell(theSubcell.root_extent(),resultWord);
+        }
     }
     theResultSet.recombine();
     return theResultSet;
-- 
2.43.0


From fc6749cb44508d2880b22414d1bf3912a8240526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 60/67] fix: use the weights of the classical Runge-Kutta
 method, and the step size of the integrator rather than of the first one used

---
 source/solvers/runge_kutta_integrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/solvers/runge_kutta_integrator.cpp b/source/solvers/runge_kutta_integrator.cpp
index 5134a61..b0b1fce 100644
--- a/source/solvers/runge_kutta_integrator.cpp
+++ b/source/solvers/runge_kutta_integrator.cpp
@@ -54,13 +54,13 @@ RungeKutta4Integrator::step(const ApproximateVectorMultivariateFunction& f, cons
     FloatDPApproximationVector k3=f(FloatDPApproximationVector(x+(h/2)*k2));
     FloatDPApproximationVector k4=f(FloatDPApproximationVector(x+h*k3));
     //std::cerr<<"k1,2,3,4="<<k1<<k2<<k3<<k4<<"\n";
-    return x+(h/6)*(k1+2.0*k3+2.0*k4+k2);
+    return x+(h/6)*(k1+2.0*k2+2.0*k3+k4);
 }
 
 List< Pair<FloatDPApproximation,FloatDPApproximationVector> >
 RungeKutta4Integrator::evolve(const ApproximateVectorMultivariateFunction& f, const FloatDPApproximationVector& x0, const FloatDPApproximation& tmax) const
 {
-    static const FloatDPApproximation h(this->_step_size,dp);
+    const FloatDPApproximation h(this->_step_size,dp);
 
     List< Pair<FloatDPApproximation,FloatDPApproximationVector> > res;
     FloatDPApproximation t(0.0,dp);
-- 
2.43.0


From 3846aabef393bf370f6a5a4a7b1e9c9dede130e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 61/67] fix: round the upper bound of time bounds upwards

---
 source/geometry/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.hpp b/source/geometry/interval.hpp
index 6e78495..80a3a51 100644
--- a/source/geometry/interval.hpp
+++ b/source/geometry/interval.hpp
@@ -437,7 +437,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl);
 Interval<FloatDP> approximate_domain(Interval<FloatDPUpperBound> const& ivl);
 
 inline Interval<FloatDP> to_time_bounds(Dyadic const& tl, Dyadic const& tu) {
-    return Interval<FloatDP>(FloatDPLowerBound(tl,DoublePrecision()).raw(),FloatDPLowerBound(tu,DoublePrecision()).raw()); }
+    return Interval<FloatDP>(FloatDPLowerBound(tl,DoublePrecision()).raw(),FloatDPUpperBound(tu,DoublePrecision()).raw()); }
 inline Interval<FloatDP> to_time_bounds(Interval<Dyadic> const& ivl) {
     return to_time_bounds(ivl.lower_bound(),ivl.upper_bound()); }
 
-- 
2.43.0


From 680fbd83ed0c968599dffb28e11e9223f1946440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 62/67] fix: compute natural powers of graded series by
 multiplication, since division by a zero leading term gives nan

---
 source/algebra/graded.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/algebra/graded.hpp b/source/algebra/graded.hpp
index 4a6e07a..8d8b639 100644
--- a/source/algebra/graded.hpp
+++ b/source/algebra/graded.hpp
@@ -334,12 +334,28 @@ template<class A> Void rec(Graded<A>& r, const Graded<A>& a) {
     r[d]=r[d]*r[0];
 }
 
-// Use formula d*a[0]*r[d] = sum_{i=0}^{d-1} ((d-i)*n-i)*a[d-i]*r[i] for d>0
+// Use formula d*a[0]*r[d] = sum_{i=0}^{d-1} ((d-i)*n-i)*a[d-i]*r[i] for d>0 and n<0,
+// but avoid division by a[0] for n>=0
 template<class A> Void pow(Graded<A>& r, const Graded<A>& a, Int n) {
     ARIADNE_ASSERT(r.size()+1u <= a.size());
     r.append(create(a[0]));
     DegreeType d = r.degree();
     if(d==0u) { r[d]=pow(a[0],n); return; }
+    if(n>=0) {
+        List<A> p(d+1u,create(a[0]));
+        p[0]=pow(a[0],0);
+        for(Int k=0; k!=n; ++k) {
+            List<A> q(d+1u,create(a[0]));
+            for(DegreeType j=0; j<=d; ++j) {
+                for(DegreeType i=0; i<=j; ++i) {
+                    q[j] += a[cast_sign<DegreeType>(j-i)]*p[i];
+                }
+            }
+            p=q;
+        }
+        r[d]=p[d];
+        return;
+    }
     for(DegreeType i=0; i<d; ++i) {
         r[d] += ((d-i)*n-i)*a[cast_sign<DegreeType>(d-i)]*r[i];
     }
-- 
2.43.0


From 7bf10ecf912096b4c84b3815db8d9bc77a6379d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 63/67] fix: compute the exponential of a normed algebra using
 the radius of the scaled argument, and give no information if it overflows

---
 source/algebra/algebra_operations.tpl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 81e194e..88d850a 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -319,12 +319,16 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
     auto rad=x.radius();
     auto tol = cast_exact(x.tolerance());
 
+    // If the range is unbounded or the result overflows, then no information about the result is possible
+    auto bnd=exp(rad+mag(avg-0));
+    if(not is_finite(bnd.raw())) { return x.create_ball(bnd); }
+
     // Scale to unit interval
     Nat sfp=0; // A number such that 2^sfp>rad(x.range())
     while(decide(Dyadic(pow(two,static_cast<int>(sfp)))<rad)) { ++sfp; }
     Dyadic sf=pow(two,static_cast<int>(sfp));
     A y = (x-avg)/sf;
-    auto yrad=rad*mag((avg-avg)+sf);
+    auto yrad=rad*mag((avg-avg)+Dyadic(pow(two,-static_cast<int>(sfp))));
 
     // Find the required degree
     Nat deg = 0;
-- 
2.43.0


From bb48d7c07f6642b02f018632d7b8fcf3908aebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 64/67] fix: do not lose a nan error of a component in the
 error of a vector function patch

---
 source/function/scaled_function_patch.tpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/function/scaled_function_patch.tpl.hpp b/source/function/scaled_function_patch.tpl.hpp
index 96e7676..f93a9bd 100644
--- a/source/function/scaled_function_patch.tpl.hpp
+++ b/source/function/scaled_function_patch.tpl.hpp
@@ -739,7 +739,9 @@ template<class M> auto VectorScaledFunctionPatch<M>::error() const -> ErrorType
 {
     FloatError<PR> e(0u,this->precision());
     for(SizeType i=0; i!=this->result_size(); ++i) {
-        e=max(e,this->models()[i].error());
+        ErrorType const& ei=this->models()[i].error();
+        if(is_nan(ei.raw())) { return ei; } // The maximum may ignore nan
+        e=max(e,ei);
     }
     return e;
 }
-- 
2.43.0


From e2714823b71d33ec498736fbfe360fa60e788a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 65/67] fix: validate flow models of Picard and series
 integrators, treat nan errors as too large, and terminate when reducing the
 step

---
 source/solvers/integrator.cpp | 73 ++++++++++++++---------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/source/solvers/integrator.cpp b/source/solvers/integrator.cpp
index e2331d0..06252d6 100644
--- a/source/solvers/integrator.cpp
+++ b/source/solvers/integrator.cpp
@@ -171,11 +171,14 @@ IntegratorBase::flow_step(const ValidatedVectorMultivariateFunction& vf, const E
 FlowStepModelType
 IntegratorBase::flow_step(const ValidatedVectorMultivariateFunction& vf, const ExactBoxType& dx, const StepSizeType& h) const
 {
-    UpperBoxType bx = dx + 1.5_dy * (dx-dx.centre()) + (1.5_dy * h) * cast_singleton(image(dx,vf));
+    UpperBoxType bx = dx + 1.5_dy * (dx-dx.centre()) + FloatDPBounds(FloatDP(0,dp),FloatDPUpperBound(1.5_dy*h,dp).raw()) * cast_singleton(image(dx,vf));
+    // Widen the bounds so that they have interior even if the domain or vector field vanish in some direction
+    FloatDPUpperBound w(h,dp); w=w/1024u;
+    bx = bx + Vector<FloatDPBounds>(dx.dimension(),FloatDPBounds(-w.raw(),+w.raw()));
     StepSizeType hred=h;
     FlowStepModelType phi = this->flow_step(vf,dx,hred,bx);
     while (not definitely(subset(phi.range(),cast_exact_box(bx)))) {
-        hred=hlf(h);
+        hred=hlf(hred);
         phi = this->flow_step(vf,dx,hred,bx);
     }
     if (hred==h) {
@@ -302,7 +305,7 @@ TaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFunction& f,
         CONCLOG_PRINTLN_AT(2,"phi="<<phi);
         if(below_maximum_error && k>=this->_minimum_temporal_order) { break; }
     }
-    if (possibly(phi.error()>this->step_maximum_error())) {
+    if (not (phi.error().get(dp).raw()<=FloatDP(this->step_maximum_error(),dp))) { // Also if the error is nan
         ARIADNE_THROW(FlowTimeStepException,"TaylorPicardIntegrator::flow_step","Integration of "<<f<<" starting in "<<D<<" over time interval "<<T<<" of length "<<h<<" has error "<<phi.error()<<" after "<<this->_maximum_temporal_order<<" iterations, which exceeds step maximum error "<<this->step_maximum_error());
     }
 
@@ -375,7 +378,7 @@ GradedTaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFuncti
 
     CONCLOG_PRINTLN_AT(1,"phi="<<phi);
     FlowStepModelType fphi=compose(f,join(phi0,ta));
-    for (DegreeType k=0; k!=this->_order; ++k) {
+    for (DegreeType k=0; k<=this->_order; ++k) {
         try {
             fphi=compose(f,join(std::move(phi),ta));
             CONCLOG_PRINTLN_AT(2,"fphi="<<fphi);
@@ -385,6 +388,14 @@ GradedTaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFuncti
         phi=antiderivative(fphi,nx)+phi0;
         CONCLOG_PRINTLN_AT(2,"phi="<<phi);
     }
+    // Widen the model before validating, since the errors of an iteration not starting with an enclosure increase towards their limit.
+    // The last iteration is needed to include the terms above the order, which are swept into the error.
+    Vector<FloatDPBounds> widening(nx,dp);
+    for (SizeType i=0; i!=nx; ++i) {
+        FloatDP e=ValidatedScalarMultivariateFunctionPatch(phi[i]).error().get(dp).raw();
+        widening[i]=FloatDPBounds(-e,+e);
+    }
+    phi=phi+widening;
     auto errors = phi.errors();
     CONCLOG_PRINTLN_AT(2,"initial errors to validate=" << errors);
     fphi=compose(f,join(std::move(phi),ta));
@@ -403,11 +414,12 @@ GradedTaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFuncti
         new_errors = phi.errors();
         Bool has_improved = false;
         for (SizeType i=0; i<errors.size(); ++i) {
+            // Stop if an error increases, since otherwise errors of the size of the roundoff may vary for ever
+            if (not refines(new_errors[i],errors[i])) { has_improved = false; break; }
             if (possibly(errors[i] > 0)) {
                 auto error_improvement = cast_exact((errors[i]-new_errors[i])/errors[i]);
                 if (error_improvement >= this->_error_refinement_minimum_improvement_percentage) {
                     has_improved = true;
-                    break;
                 }
             }
         }
@@ -416,7 +428,7 @@ GradedTaylorPicardIntegrator::_flow_step(const ValidatedVectorMultivariateFuncti
         CONCLOG_PRINTLN_VAR_AT(2,errors);
     }
 
-    if (possibly(phi.error()>this->step_maximum_error())) {
+    if (not (phi.error().get(dp).raw()<=FloatDP(this->step_maximum_error(),dp))) { // Also if the error is nan
         ARIADNE_THROW(FlowTimeStepException,"GradedTaylorPicardIntegrator::flow_step","Integration of "<<f<<" starting in "<<D<<" over time interval "<<T<<" of length "<<h<<" has error "<<phi.error()<<", which exceeds step maximum error "<<this->step_maximum_error());
     }
 
@@ -1027,49 +1039,22 @@ TaylorSeriesBounderIntegrator::flow_step(const ValidatedVectorMultivariateFuncti
 
     // Widen domain by doubling size
     ExactBoxType wdomx=cast_exact_box(domx+(cast_singleton(domx)-domx.midpoint()));
-    // Widen time-step to h*3/2
-    StepSizeType wh=h+hlf(h);
-    ExactIntervalType wdomt(0,wh);
-
-    // Below is not needed, just useful to see minimum possible range
-    //   ExactBoxType domxta=join(domx,domt,doma);
-    //   FlowStepModelType phi=make_taylor_function_model(domxta,cdphi,cdphi,swp);
-
-    ExactBoxType domxta=join(domx,domt,doma);
-    ExactBoxType wdomxta=join(wdomx,wdomt,doma);
-    FlowStepModelType phi=make_taylor_function_model(wdomxta,cdphi,cdphi,swp);
-    UpperBoxType bndbx=phi.range();
-
-    Bool refined = false;
-    Bool accurate = false;
-    phi=series_flow_step(f,domx,domt,doma,bndbx,cdphi, deg,swp);
-    UpperBoxType xrng=phi.range();
-
-    if (refines(xrng,bndbx)) {
-        refined=true;
-    } else {
-        bndbx=cast_exact_box(xrng+(cast_singleton(domx)-domx.midpoint()));
-        // bndbx=hull(bndbx,rphi.range());
-    }
+    const X widening(-FloatDP(this->_step_maximum_error,pr),FloatDP(this->_step_maximum_error,pr));
+
+    while (true) {
+        // Estimate bounds using the derivatives at the centre, with time-step widened to h*3/2
+        StepSizeType wh=h+hlf(h);
+        ExactBoxType wdomxta=join(wdomx,forwards_backwards_time_domain(ExactIntervalType(0,wh)),doma);
+        FlowStepModelType phi=make_taylor_function_model(wdomxta,cdphi,cdphi,swp);
+        UpperBoxType bndbx=phi.range()+Vector<X>(domx.size(),widening);
 
-    while (not refined or not accurate) {
+        // The bounds are valid if the resulting flow remains within them
         phi=series_flow_step(f,domx,domt,doma,bndbx,cdphi, deg,swp);
-        if (refines(xrng,bndbx)) {
-            refined=true;
-            bndbx=xrng;
-            if (definitely(phi.error()<max_err)) { accurate=true; return phi; }
-        } else {
-            bndbx=cast_exact_box(xrng+(cast_singleton(domx)-domx.midpoint()));
-            //bndbx=hull(bndbx,xrng);
-        }
+        if (refines(phi.range(),bndbx) && definitely(phi.error()<max_err)) { return phi; }
 
-        StepSizeType nh=hlf(wh);
-        wh=h;
-        h=nh;
+        h=hlf(h);
         domt=IntervalDomainType(0,h);
     }
-
-    return phi;
 }
 
 Void TaylorSeriesBounderIntegrator::_write(OutputStream& os) const {
-- 
2.43.0


From bf93ffb900898eac126897cc9ffb430e050c5d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 66/67] fix: constraint back-propagation kept only one branch
 of inverse operations (max, min, sqr, pow, sin, cos, tan), so lost solutions

---
 source/function/procedure.tpl.hpp | 94 +++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 17 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 1ae9da6..5803978 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -241,42 +241,96 @@ template<class X, class Y> Void _execute(List<X>& v, const List<ProcedureInstruc
 }
 
 
+namespace {
+
+// Restrict a to the hull of its intersections with r1 and r2.
+template<class X> Void _restrict_either(X& a, X const& r1, X const& r2) {
+    X a1=a; restrict(a1,r1); X a2=a; restrict(a2,r2);
+    if(definitely(a1.lower_bound()>a1.upper_bound())) { a=a2; }
+    else if(definitely(a2.lower_bound()>a2.upper_bound())) { a=a1; }
+    else { a=hull(a1,a2); }
+}
+
+// Restrict a1 such that max(a1,a2) may lie in r: a1 is at most the upper bound of r, and lies in r if a2 is less than r.
+template<class X> Void _restrict_max(X& a1, X const& r, X const& a2) {
+    if(definitely(a2.upper_bound()<r.lower_bound())) { restrict(a1,r); }
+    else { a1.set_upper_bound(min(a1.upper_bound(),r.upper_bound())); }
+}
+
+template<class X> Void _restrict_min(X& a1, X const& r, X const& a2) {
+    if(definitely(a2.lower_bound()>r.upper_bound())) { restrict(a1,r); }
+    else { a1.set_lower_bound(max(a1.lower_bound(),r.lower_bound())); }
+}
+
+// The nonnegative n-th roots of a nonnegative interval.
+template<class X> X _nonnegative_root(X const& r, Int n) {
+    X l(r.lower_bound().raw(),r.lower_bound().raw());
+    X u(r.upper_bound().raw(),r.upper_bound().raw());
+    if(definitely(l>0)) { l=exp(log(l)/n); }
+    if(definitely(u>0)) { u=exp(log(u)/n); }
+    return X(l.lower_bound(),u.upper_bound());
+}
+
+template<class X> Bool _inside_radius(X const& a, X const& r) {
+    return definitely(a.lower_bound()>neg(r).upper_bound()) && definitely(a.upper_bound()<r.lower_bound());
+}
+
+} // namespace
+
 template<class X> Void backpropagate(X const& r, Add, X& a1, X& a2) { restrict(a1,r-a2); restrict(a2,r-a1); }
 template<class X> Void backpropagate(X const& r, Sub, X& a1, X& a2) { restrict(a1,a2+r); restrict(a2,a1-r); }
 template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) { restrict(a1,r/a2); restrict(a2,r/a1); }
 template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); restrict(a2,a1/r); }
-template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,max(r,a2)); restrict(a2,max(r,a1)); }
-template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,min(r,a2)); restrict(a2,min(r,a1)); }
+template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { _restrict_max(a1,r,a2); _restrict_max(a2,r,a1); }
+template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { _restrict_min(a1,r,a2); _restrict_min(a2,r,a1); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, Y const& c1, X& a2) { restrict(a2,r-c1); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, Y const& c1, X& a2) { restrict(a2,c1-r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, Y const& c1, X& a2) { restrict(a2,r/c1); }
 template<class X, class Y> Void backpropagate(X const& r, Div, Y const& c1, X& a2) { restrict(a2,c1/r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,max(r,c1)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,min(r,c1)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { _restrict_max(a2,r,X(factory(a2).create(c1))); }
+template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { _restrict_min(a2,r,X(factory(a2).create(c1))); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, X& a1, Y const& c2) { restrict(a1,r-c2); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, X& a1, Y const& c2) { restrict(a1,c2+r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, X& a1, Y const& c2) { restrict(a1,r/c2); }
 template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c2) { restrict(a1,c2*r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,max(r,c2)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,min(r,c2)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { _restrict_max(a1,r,X(factory(a1).create(c2))); }
+template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { _restrict_min(a1,r,X(factory(a1).create(c2))); }
 
+template<class X> Void backpropagate(X const& r, Nul, X& a) { }
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
+template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
 template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
-template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
-template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
-template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
+template<class X> Void backpropagate(X const& r, Sqr, X& a) { X s=sqrt(max(r,nul(r))); _restrict_either(a,s,neg(s)); }
+template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) {
+    if(n==0) { return; }
+    if(n<0) { backpropagate(X(rec(r)),Pow(),a,-n); return; }
+    X s=_nonnegative_root(X(max(r,nul(r))),n);
+    if(n%2==0) { _restrict_either(a,s,neg(s)); return; }
+    X t=neg(_nonnegative_root(X(max(neg(r),nul(r))),n));
+    if(definitely(r.lower_bound()>nul(r.lower_bound()))) { restrict(a,s); }
+    else if(definitely(r.upper_bound()<nul(r.upper_bound()))) { restrict(a,t); }
+    else { restrict(a,X(t.lower_bound(),s.upper_bound())); }
+}
+template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(max(r,nul(r)))); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-    // FIXME: restricting asin/acos of interval should not be dependent on any branch of asin/acos
-template<class X> Void backpropagate(X const& r, Sin, X& a) { restrict(a,asin(r)); }
-template<class X> Void backpropagate(X const& r, Cos, X& a) { restrict(a,acos(r)); }
-template<class X> Void backpropagate(X const& r, Tan, X& a) { restrict(a,atan(r)); }
+    // The inverse trigonometric functions can only be used for arguments in the domain of their (principal) branch
+template<class X> Void backpropagate(X const& r, Sin, X& a) {
+    X one=nul(a)+1; X half_pi=2*atan(one);
+    if(_inside_radius(a,half_pi)) { restrict(a,asin(max(min(r,one),neg(one)))); } }
+template<class X> Void backpropagate(X const& r, Cos, X& a) {
+    X one=nul(a)+1; X pi=4*atan(one);
+    if(_inside_radius(a,pi)) { X s=acos(max(min(r,one),neg(one))); _restrict_either(a,s,neg(s)); } }
+template<class X> Void backpropagate(X const& r, Tan, X& a) {
+    X one=nul(a)+1; X half_pi=2*atan(one);
+    if(_inside_radius(a,half_pi)) { restrict(a,atan(r)); } }
 template<class X> Void backpropagate(X const& r, Asin, X& a) { restrict(a,sin(r)); }
 template<class X> Void backpropagate(X const& r, Acos, X& a) { restrict(a,cos(r)); }
 template<class X> Void backpropagate(X const& r, Atan, X& a) { restrict(a,tan(r)); }
+template<class X> Void backpropagate(X const& r, Abs, X& a) { X s=max(r,nul(r)); _restrict_either(a,s,neg(s)); }
 
 template<class X> Void backpropagate(X const& r, Equal, X& a1, X& a2) {
     restrict(a1,r); restrict(a2,r); }
@@ -299,10 +353,16 @@ template<class X, class Y> Void _backpropagate(SizeType r, Vector<X>& x, List<X>
         SizeType r; Vector<X>& x; List<X>& v; List<Y> const& c;
         Void operator()(ConstantProcedureInstruction s) { }
         Void operator()(IndexProcedureInstruction s) { restrict(x[s._ind],v[r]); }
-        Void operator()(UnaryProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg]); }
-        Void operator()(BinaryProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg1],v[s._arg2]); }
-        Void operator()(GradedProcedureInstruction s) { backpropagate(v[r],s._op,v[s._arg],s._num); }
-        Void operator()(ScalarProcedureInstruction s) { backpropagate(v[r],s._op,c[s._arg1],v[s._arg2]); }
+        // If the result is empty, then so are the arguments.
+        Void operator()(UnaryProcedureInstruction s) {
+            if(empty()) { restrict(v[s._arg],v[r]); } else { backpropagate(v[r],s._op,v[s._arg]); } }
+        Void operator()(BinaryProcedureInstruction s) {
+            if(empty()) { restrict(v[s._arg1],v[r]); restrict(v[s._arg2],v[r]); } else { backpropagate(v[r],s._op,v[s._arg1],v[s._arg2]); } }
+        Void operator()(GradedProcedureInstruction s) {
+            if(empty()) { restrict(v[s._arg],v[r]); } else { backpropagate(v[r],s._op,v[s._arg],s._num); } }
+        Void operator()(ScalarProcedureInstruction s) {
+            if(empty()) { restrict(v[s._arg2],v[r]); } else { backpropagate(v[r],s._op,c[s._arg1],v[s._arg2]); } }
+        Bool empty() const { return definitely(v[r].lower_bound()>v[r].upper_bound()); }
     };
     pri.accept(Visitor{r,x,v,c});
 }
-- 
2.43.0


From 069928f5b3090da2b6677bc5ce06a0d2b636e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 67/67] fix: ConstraintSolver::monotone_reduce did not end
 without progress, and reductions went on after finding an empty box

---
 source/solvers/constraint_solver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/solvers/constraint_solver.cpp b/source/solvers/constraint_solver.cpp
index daaaa25..724a6de 100644
--- a/source/solvers/constraint_solver.cpp
+++ b/source/solvers/constraint_solver.cpp
@@ -273,7 +273,7 @@ Bool ConstraintSolver::reduce(UpperBoxType& domain, const List<ValidatedConstrai
 
     do {
         for(SizeType i=0; i!=constraints.size(); ++i) {
-            this->hull_reduce(domain,constraints[i].function(),constraints[i].bounds());
+            if(this->hull_reduce(domain,constraints[i].function(),constraints[i].bounds())) { return true; }
         }
         if(definitely(domain.is_empty())) { return true; }
 
@@ -358,7 +358,9 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
 
     static const Int MAX_STEPS=3;
     const FloatDP threshold = div(near, lower.width().raw(), FloatDP(pow(two,MAX_STEPS),dp));
+    FloatDP old_width(dp), new_width=add(near,lower.width().raw(),upper.width().raw());
     do {
+        old_width=new_width;
         FloatDPUpperBound ub(dp); FloatDPUpperInterval ivl(-ub,+ub); FloatDP val(dp); ub=val;
 
         // Apply Newton contractor on lower and upper strips
@@ -368,6 +370,7 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
             UpperIntervalType new_lower=splitpoint+(bounds-apply(function,slice))/apply(derivative,subdomain);
             if(definitely(new_lower.upper_bound()<lower.lower_bound())) { lower=UpperIntervalType(lower.lower_bound().raw(),lower.lower_bound().raw()); }
             else { lower=intersection(lower,new_lower); }
+            if(definitely(lower.is_empty())) { domain[variable]=lower; return true; }
         }
         if(upper.width().raw()>threshold) {
             splitpoint=upper.midpoint();
@@ -375,9 +378,12 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
             UpperIntervalType new_upper=splitpoint+(bounds-apply(function,slice))/apply(derivative,subdomain);
             if(definitely(new_upper.lower_bound()>upper.upper_bound())) { upper=UpperIntervalType(upper.upper_bound().raw(),upper.upper_bound().raw()); }
             else { upper=intersection(upper,new_upper); }
+            if(definitely(upper.is_empty())) { domain[variable]=upper; return true; }
         }
         subdomain[variable]=UpperIntervalType(lower.lower_bound(),upper.upper_bound());
-    } while(lower.width().raw()>threshold && upper.width().raw()>threshold);
+        new_width=add(near,lower.width().raw(),upper.width().raw());
+        // Stop if no further progress is made
+    } while(lower.width().raw()>threshold && upper.width().raw()>threshold && new_width<mul(near,old_width,FloatDP(0.75_x,dp)));
     domain=subdomain;
 
     return definitely(domain.is_empty());
-- 
2.43.0

