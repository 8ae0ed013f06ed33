From 532345bf97650204d756393e771a4f0af07bc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 01/31] fix: checked::modulus returned the minimum value for
 minimum % minimum

The absolute value of the divisor cannot be represented when the divisor is
the minimum value of a signed type, and the dividend was returned instead.
Only a divisor of -1 needs special treatment.
---
 include/boost/safe_numerics/checked_integer.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..c480dad 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -546,12 +546,9 @@ struct checked_operation<R, F,
             const R & u,
             std::true_type // R is signed
         ){
-            if(u >= 0)
-                return t % u;
-            checked_result<R> ux = checked::minus(u);
-            if(ux.exception())
-                return t;
-            return t % static_cast<R>(ux);
+            // t % -1 is always zero, but evaluating it overflows when
+            // t is the minimum value.
+            return (u == -1) ? checked_result<R>(0) : checked_result<R>(t % u);
         }
     }; // modulus_impl_detail
 
@@ -561,13 +558,12 @@ struct checked_operation<R, F,
                 "denominator is zero"
             );
 
-        // why to we need abs here? the sign of the modulus is the sign of the
-        // dividend. Consider -128 % -1  The result of this operation should be -1
+        // the sign of the modulus is the sign of the dividend.
+        // Consider -128 % -1  The result of this operation should be 0
         // but if I use t % u the x86 hardware uses the divide instruction
         // capturing the modulus as a side effect.  When it does this, it
         // invokes the operation -128 / -1 -> 128 which overflows a signed type
-        // and provokes a hardware exception.  We can fix this using abs()
-        // since -128 % -1 = -128 % 1 = 0
+        // and provokes a hardware exception.
         return modulus_impl_detail::modulus(t, u, typename std::is_signed<R>::type());
     }
 
-- 
2.43.0


From 91270b423bc814b516cf35869e4afba410ea5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 02/31] fix: a converted unsigned value below the minimum is a
 negative overflow

Converting an unsigned value which is smaller than the minimum of the target
range was reported as positive_overflow_error.
---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index c480dad..7deafa9 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From 2c81d595b59ed8627b451093749999f3ed5a46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 03/31] fix: shifts by the full width of an unsigned operand,
 and of zero

A shift count equal to the width of an unsigned type passed the check, which
is undefined behavior. 0 << n was reported as too large for n one less than
the width of a type.
---
 include/boost/safe_numerics/checked_integer.hpp      | 12 ++++++++----
 include/boost/safe_numerics/safe_base_operations.hpp |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 7deafa9..bc59ce1 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -612,7 +612,8 @@ struct checked_operation<R, F,
             // if right operand is
             // greater than or equal to the length in bits of the promoted left operand.
             if(
-                safe_compare::greater_than(
+                t != 0
+                && safe_compare::greater_than(
                     u,
                     std::numeric_limits<R>::digits - utility::significant_bits(t)
                 )
@@ -639,7 +640,8 @@ struct checked_operation<R, F,
                 // if right operand is
                 // greater than or equal to the length in bits of the promoted left operand.
                 if(
-                    safe_compare::greater_than(
+                    t != 0
+                    && safe_compare::greater_than(
                         u,
                         std::numeric_limits<R>::digits - utility::significant_bits(t)
                     )
@@ -677,7 +679,8 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        // greater than or equal to the length in bits of the left operand
+        if(u >= utility::bits_type<R>::value){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
@@ -736,7 +739,8 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        // greater than or equal to the length in bits of the left operand
+        if(u >= utility::bits_type<R>::value){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..27d68c6 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1494,7 +1494,7 @@ struct right_shift_result {
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
             ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+                utility::bits_type<result_base_type>::value - 1
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From f7f617e2e078480a3278f0c96d5fa8910687d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 04/31] fix: an ignored subtraction error continued with the
 sum of the operands

---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 27d68c6..ae01f37 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 04ea7dd8a80ec4fdbf1007fb590e60ddecb9e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 05/31] fix: an ignored conversion error continued with an
 indeterminate value

The member of the union which holds the error message was read as if it were
the result.  Continue with the value static_cast gives.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index ae01f37..d28279d 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,10 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            // if the error has been ignored, do what a static_cast does
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
-- 
2.43.0


From 3fa45a7c4c57630b20bafa4b3a7dd732432e3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 06/31] fix: precision_overflow_error is an arithmetic error

make_safe_numerics_action() says so, but the error condition did not.
---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..970f3cb 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -170,6 +170,7 @@ public:
         case safe_numerics_actions::arithmetic_error:
             return code == safe_numerics_error::positive_overflow_error
                 || code == safe_numerics_error::negative_overflow_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
                 || code == safe_numerics_error::domain_error;
-- 
2.43.0


From e58a8bbc2b10bf71308a236328692ecb8c0038d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 07/31] fix: intersect() was true for intervals which don't
 intersect

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..9eb13f4 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -198,7 +198,7 @@ constexpr inline interval<T> operator&(const interval<T> & t, const interval<T>
 // determine whether two intervals intersect
 template<typename T>
 constexpr inline boost::logic::tribool intersect(const interval<T> & t, const interval<T> & u){
-    return t.u >= u.l || t.l <= u.u;
+    return t.u >= u.l && t.l <= u.u;
 }
 
 template<typename T>
-- 
2.43.0


From 1f054c5bcb2547000eeb70241674cc2dfefc820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 08/31] fix: compound assignment operators return a reference
 to the left operand

---
 .../safe_numerics/safe_base_operations.hpp    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index d28279d..ead9c06 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -489,7 +489,7 @@ constexpr inline operator+(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<addition_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator+=(T & t, const U & u){
     t = static_cast<T>(t + u);
@@ -612,7 +612,7 @@ constexpr inline operator-(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<subtraction_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator-=(T & t, const U & u){
     t = static_cast<T>(t - u);
@@ -737,7 +737,7 @@ constexpr inline operator*(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<multiplication_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator*=(T & t, const U & u){
     t = static_cast<T>(t * u);
@@ -897,7 +897,7 @@ constexpr inline operator/(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<division_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator/=(T & t, const U & u){
     t = static_cast<T>(t / u);
@@ -1058,7 +1058,7 @@ constexpr inline operator%(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<modulus_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator%=(T & t, const U & u){
     t = static_cast<T>(t % u);
@@ -1396,7 +1396,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<left_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator<<=(T & t, const U & u){
     t = static_cast<T>(t << u);
@@ -1552,7 +1552,7 @@ typename std::enable_if<
     // exclude usage of << for file output here
     boost::safe_numerics::Numeric<T>()
     && legal_overload<right_shift_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator>>=(T & t, const U & u){
     t = static_cast<T>(t >> u);
@@ -1637,7 +1637,7 @@ constexpr inline operator|(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_or_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator|=(T & t, const U & u){
     t = static_cast<T>(t | u);
@@ -1701,7 +1701,7 @@ constexpr inline operator&(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_and_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator&=(T & t, const U & u){
     t = static_cast<T>(t & u);
@@ -1764,7 +1764,7 @@ constexpr inline operator^(const T & t, const U & u){
 template<class T, class U>
 typename std::enable_if<
     legal_overload<bitwise_xor_operator, T, U>::value,
-    T
+    T &
 >::type
 constexpr inline operator^=(T & t, const U & u){
     t = static_cast<T>(t ^ u);
-- 
2.43.0


From 9adb958b2530d8bf15cfce0f3b236e9b8e2217d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 09/31] fix: range of the result of bitwise operations on
 negative operands

The result type of | & ^ and ~ was declared to be non negative even when an
operand could be negative, so that negative values were held in types whose
numeric_limits exclude them, and later checks were omitted.
---
 .../safe_numerics/safe_base_operations.hpp    | 89 ++++++++++++-------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index ead9c06..344f202 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1580,6 +1580,53 @@ constexpr inline operator>>(
 /////////////////////////////////////////////////////////////////
 // bitwise operators
 
+// the range of the values which a bitwise operation can produce.  This is
+// an interval of non negative numbers unless the sign bit of a negative operand
+// can reach the result.
+template<class R, class T, class U>
+struct bitwise_range {
+private:
+    using r_type = typename std::make_unsigned<R>::type;
+
+    constexpr static bool t_negative(){
+        return safe_compare::less_than(base_value(std::numeric_limits<T>::min()), 0);
+    }
+    constexpr static bool u_negative(){
+        return safe_compare::less_than(base_value(std::numeric_limits<U>::min()), 0);
+    }
+    constexpr static r_type t_max(){
+        return static_cast<r_type>(base_value(std::numeric_limits<T>::max()));
+    }
+    constexpr static r_type u_max(){
+        return static_cast<r_type>(base_value(std::numeric_limits<U>::max()));
+    }
+    constexpr static R hull(const r_type & t){
+        return static_cast<R>(utility::round_out(t));
+    }
+
+public:
+    // bits of either operand appear in the result of | and ^
+    constexpr static R or_min(){
+        return t_negative() || u_negative() ? std::numeric_limits<R>::min() : R(0);
+    }
+    constexpr static R or_max(){
+        return t_negative() || u_negative()
+            ? std::numeric_limits<R>::max()
+            : hull(t_max() < u_max() ? u_max() : t_max());
+    }
+    // only bits found in both of the operands appear in the result of &
+    constexpr static R and_min(){
+        return t_negative() && u_negative() ? std::numeric_limits<R>::min() : R(0);
+    }
+    constexpr static R and_max(){
+        return
+            t_negative() && u_negative() ? std::numeric_limits<R>::max()
+            : t_negative() ? hull(u_max())
+            : u_negative() ? hull(t_max())
+            : hull(t_max() < u_max() ? t_max() : u_max());
+    }
+};
+
 // operator |
 template<class T, class U>
 struct bitwise_or_result {
@@ -1592,23 +1639,15 @@ private:
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using r_range = bitwise_range<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        r_range::or_min(),
+        r_range::or_max(),
         promotion_policy,
         exception_policy
     >;
@@ -1656,23 +1695,15 @@ private:
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using r_range = bitwise_range<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        r_range::and_min(),
+        r_range::and_max(),
         promotion_policy,
         exception_policy
     >;
@@ -1719,23 +1750,15 @@ struct bitwise_xor_result {
     // the operands are consider a logical array of bits.  That is, there is no
     // sense that these are signed numbers.
 
-    using r_type = typename std::make_unsigned<result_base_type>::type;
-    using r_type_interval_t = interval<r_type>;
+    using r_range = bitwise_range<result_base_type, T, U>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        r_range::or_min(),
+        r_range::or_max(),
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From 84b62a38ecfb695d88035a2d4230869adc652148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 10/31] fix: stream extraction alters a safe integer only if
 the input is valid

A value read out of range was stored before it was validated, a failed
extraction stored zero, and a failed extraction into an 8 bit type was not
reported at all.  safe<char> was written as a number but read as a character.
---
 .../safe_numerics/safe_base_operations.hpp    | 67 ++++++++++---------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 344f202..f6cc9e9 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1836,40 +1836,43 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        m_t = validated_cast(x);
-    }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        is >> m_t;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // character types are read as numbers - which is how they are written
+    using i_type = typename std::conditional<
+        std::is_same<T, char>::value
+        || std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value,
+        int,
+        T
+    >::type;
+
+    if(std::is_unsigned<i_type>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        int x = is.peek();
+        // if the input string starts with a '-', we know its an error
+        if(x == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            validated_cast(m_t);
     }
+    // note: this object isn't altered until the input has been found valid
+    i_type x = m_t;
+    is >> x;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
+        m_t = static_cast<T>(x);
+    }
+    else
+        m_t = validated_cast(x);
 }
 
 } // safe_numerics
-- 
2.43.0


From f2f1ece1497f831d973f5a121be063732af136fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 11/31] fix: conversion of checked_result and checked_result
 operator~ compile

---
 include/boost/safe_numerics/checked_result.hpp        | 11 ++++++-----
 .../boost/safe_numerics/checked_result_operations.hpp |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result.hpp b/include/boost/safe_numerics/checked_result.hpp
index c54c2a4..77ff68e 100644
--- a/include/boost/safe_numerics/checked_result.hpp
+++ b/include/boost/safe_numerics/checked_result.hpp
@@ -57,16 +57,17 @@ struct checked_result {
     // permit construct from another checked result type
     template<typename T>
     constexpr /*explicit*/ checked_result(const checked_result<T> & t) noexcept :
-        m_e(t.m_e)
+        m_e(t.m_e),
+        m_contents{
+            safe_numerics_error::success == t.m_e
+            ? contents(static_cast<R>(t.m_contents.m_r))
+            : contents(t.m_contents.m_msg)
+        }
     {
         static_assert(
             std::is_convertible<T, R>::value,
             "T must be convertible to R"
         );
-        if(safe_numerics_error::success == t.m_e)
-            m_contents.m_r = t.m_r;
-        else
-            m_contents.m_msg = t.m_msg;
     }
 
     constexpr bool exception() const {
diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..ac60442 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -777,8 +777,10 @@ typename std::enable_if<
 constexpr inline operator~(
     const checked_result<T> & t
 ){
-//    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked::bitwise_not<T>(static_cast<T>(t));
 }
 
 template<class T>
-- 
2.43.0


From 3b22a23b95d898dc7a8fdb5de01f89ed85170119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 12/31] fix: ignored conversion error of an operand was
 reported twice

---
 include/boost/safe_numerics/safe_base_operations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index f6cc9e9..13126bd 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -343,7 +343,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -354,7 +354,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From f86b288c0d1a7a4a7760e619ef0e159a0db5948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 13/31] fix: range of the result of modulus

The range was calculated from the end points of the operands, which does not
enclose the results: safe_unsigned_range<0, 10> % 7 had the range [0, 3].
The automatic policy even used the range of the quotient, with the result that
1999 % 1000 was silently calculated as 207.
---
 include/boost/safe_numerics/automatic.hpp     | 21 +-------
 include/boost/safe_numerics/interval.hpp      | 48 +++++++++++++++----
 .../safe_numerics/safe_base_operations.hpp    | 21 ++------
 3 files changed, 46 insertions(+), 44 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..397561d 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -255,25 +255,8 @@ public:
             checked::cast<temp_base_type>(base_value(std::numeric_limits<U>::max()))
         };
 
-        constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
-        }
-
-        constexpr static const r_interval_type r_interval = rx();
+        constexpr static const r_interval_type r_interval =
+            interval_detail::modulus(t_interval, u_interval);
 
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index 9eb13f4..e76aa54 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -138,19 +138,49 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
     );
 }
 
-// modulus of two intervals.  This will give a new range of for the modulus.
+// modulus of two intervals.  The result has the sign of the dividend, is no
+// further from zero than the dividend and is closer to zero than the divisor.
+namespace interval_detail {
+
+// the value furthest from zero of a and b - unless the dividend t can't get
+// that far
+template<typename T>
+constexpr inline T modulus_upper_bound(const T & t, const T & a, const T & b){
+    return static_cast<bool>(a <= t) && static_cast<bool>(b <= t)
+        ? (static_cast<bool>(a <= b) ? b : a)
+        : t;
+}
+template<typename T>
+constexpr inline T modulus_lower_bound(const T & t, const T & a, const T & b){
+    return static_cast<bool>(a >= t) && static_cast<bool>(b >= t)
+        ? (static_cast<bool>(a >= b) ? b : a)
+        : t;
+}
+
+// note: zero denominators don't produce a result
+template<typename T>
+constexpr inline interval<T> modulus(const interval<T> & t, const interval<T> & u){
+    const T zero(0);
+    // largest magnitude of the results for negative and positive denominators
+    const T a = static_cast<bool>(u.l >= zero) ? zero : static_cast<T>(-(u.l + T(1)));
+    const T b = static_cast<bool>(u.u <= zero) ? zero : static_cast<T>(u.u - T(1));
+    return interval<T>{
+        static_cast<bool>(t.l >= zero)
+            ? zero
+            : modulus_lower_bound(t.l, static_cast<T>(-a), static_cast<T>(-b)),
+        static_cast<bool>(t.u <= zero)
+            ? zero
+            : modulus_upper_bound(t.u, a, b)
+    };
+}
+
+} // interval_detail
+
 // note: presumes 0 is not included in the range of the denominator
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
     assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
-    );
+    return interval_detail::modulus(t, u);
 }
 
 template<typename T>
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 13126bd..975bb8d 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -980,21 +980,7 @@ private:
         constexpr const r_type_interval_t t = t_interval();
         constexpr const r_type_interval_t u = u_interval();
 
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return interval_detail::modulus(t, u);
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1010,9 +996,12 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            ! static_cast<bool>(ui.excludes(r_type(0)))
+            || ti.l.exception()
+            || ti.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From eef49b1bfe1dd218de562d0003ba82af275d550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 14/31] fix: left shift omitted checks for negative operands
 and invalid counts

---
 .../safe_numerics/safe_base_operations.hpp    | 64 +++++++++++--------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 975bb8d..b327dd0 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1264,6 +1264,29 @@ constexpr inline operator!=(const T & lhs, const U & rhs) {
 /////////////////////////////////////////////////////////////////////////
 // shift operators
 
+// the shift counts which can produce a result
+template<class R, class U>
+constexpr inline interval<checked_result<R>> shift_count_interval(){
+    const checked_result<R> u_min
+        = checked::cast<R>(base_value(std::numeric_limits<U>::min()));
+    return interval<checked_result<R>>(
+        static_cast<bool>(u_min >= checked_result<R>(0)) ? u_min : checked_result<R>(0),
+        checked::cast<R>(base_value(std::numeric_limits<U>::max()))
+    );
+}
+
+// note undesirable coupling with checked::shift right here !
+// true if some value of T is negative or some value of U isn't a valid shift count
+template<class R, class T, class U>
+constexpr inline bool shift_error_possible(){
+    return safe_compare::less_than(base_value(std::numeric_limits<T>::min()), 0)
+        || safe_compare::less_than(base_value(std::numeric_limits<U>::min()), 0)
+        || safe_compare::greater_than_equal(
+            base_value(std::numeric_limits<U>::max()),
+            utility::bits_type<R>::value
+        );
+}
+
 // left shift
 template<class T, class U>
 struct left_shift_result {
@@ -1305,17 +1328,17 @@ private:
 
     using r_type_interval_t = interval<r_type>;
 
-    constexpr static r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t_interval{
+    constexpr static r_type_interval_t t_interval(){
+        return r_type_interval_t(
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
             checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
-        };
-
-        constexpr const r_type_interval_t u_interval{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        };
-        return (t_interval << u_interval);
+        );
+    }
+    constexpr static r_type_interval_t u_interval(){
+        return shift_count_interval<result_base_type, U>();
+    }
+    constexpr static r_type_interval_t get_r_type_interval(){
+        return t_interval() << u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1336,7 +1359,7 @@ private:
             return true;
         if(! return_interval.includes(r_type_interval))
             return true;
-        return false;
+        return shift_error_possible<result_base_type, T, U>();
     }
 
     constexpr static const auto rl = return_interval.l;
@@ -1459,10 +1482,7 @@ struct right_shift_result {
     };
 
     constexpr static r_type_interval_t u_interval(){
-        return r_type_interval_t(
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
-        );
+        return shift_count_interval<result_base_type, U>();
     }
     constexpr static r_type_interval_t get_r_type_interval(){;
         return (t_interval() >> u_interval());
@@ -1480,19 +1500,9 @@ struct right_shift_result {
     };
 
     constexpr static bool exception_possible(){
-        constexpr const r_type_interval_t ri = r_type_interval;
-        constexpr const r_type_interval_t ti = t_interval();
-        constexpr const r_type_interval_t ui = u_interval();
-        return static_cast<bool>(
-            // note undesirable coupling with checked::shift right here !
-            ui.u > checked_result<result_base_type>(
-                utility::bits_type<result_base_type>::value - 1
-            )
-            || ti.l < checked_result<result_base_type>(0)
-            || ui.l < checked_result<result_base_type>(0)
-            || ri.l.exception()
-            || ri.u.exception()
-        );
+        return r_type_interval.l.exception()
+            || r_type_interval.u.exception()
+            || shift_error_possible<result_base_type, T, U>();
     }
 
     constexpr static auto rl = return_interval.l;
-- 
2.43.0


From d7579c07471ba591fa1228bf51364c8c98277a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 15/31] fix: automatic policy reported errors when operands
 don't fit the result type

---
 .../safe_numerics/safe_base_operations.hpp    | 112 +++++++++++++-----
 1 file changed, 83 insertions(+), 29 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b327dd0..73e627a 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -35,6 +35,8 @@
 namespace boost {
 namespace safe_numerics {
 
+struct automatic;
+
 ////////////////////////////////////////////////////////////////////////////////
 // compile time error dispatcher
 
@@ -359,6 +361,39 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
     return std::pair<R, R>(tr, ur);
 }
 
+// the type used to carry out an arithmetic operation
+template<class P, class R, class T, class U>
+struct operation_type {
+    using type = R;
+};
+
+// the automatic promotion policy selects the smallest type which can hold all the
+// results. This can be too small to hold the operands. For example, the difference
+// between two values in the interval [100, 200] is stored in 8 bits.
+template<class R, class T, class U>
+struct operation_type<automatic, R, T, U> {
+private:
+    constexpr static const int digits = std::max(std::initializer_list<int>{
+        std::numeric_limits<R>::digits,
+        std::numeric_limits<typename base_type<T>::type>::digits,
+        std::numeric_limits<typename base_type<U>::type>::digits
+    });
+    constexpr static const int bits = std::min(
+        std::numeric_limits<std::uintmax_t>::digits,
+        digits + (std::numeric_limits<R>::is_signed ? 1 : 0)
+    );
+public:
+    using type = typename std::conditional<
+        std::numeric_limits<R>::digits == digits,
+        R,
+        typename std::conditional<
+            std::numeric_limits<R>::is_signed,
+            typename boost::int_t<bits>::least,
+            typename boost::uint_t<bits>::least
+        >::type
+    >::type;
+};
+
 // Note: the following global operators will be found via
 // argument dependent lookup.
 namespace {
@@ -381,8 +416,10 @@ template<class T, class U>
 struct addition_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
+    using stored_type =
+        typename promotion_policy::template addition_result<T, U>::type;
     using result_base_type =
-        typename promotion_policy::template addition_result<T,U>::type;
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -455,7 +492,7 @@ private:
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -464,11 +501,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -503,8 +540,10 @@ template<class T, class U>
 struct subtraction_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type =
+    using stored_type =
         typename promotion_policy::template subtraction_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -578,7 +617,7 @@ public:
 
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -587,11 +626,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -626,8 +665,10 @@ template<class T, class U>
 struct multiplication_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type =
+    using stored_type =
         typename promotion_policy::template multiplication_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -703,7 +744,7 @@ private:
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -712,11 +753,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -752,8 +793,10 @@ template<class T, class U>
 struct division_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type =
+    using stored_type =
         typename promotion_policy::template division_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -852,7 +895,9 @@ private:
         constexpr const r_type_interval_t ri = get_r_type_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
-            static_cast<bool>(ui.includes(r_type(0)))
+            ! static_cast<bool>(ui.excludes(r_type(0)))
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
@@ -863,7 +908,7 @@ private:
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -872,11 +917,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -911,7 +956,10 @@ template<class T, class U>
 struct modulus_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type = typename promotion_policy::template modulus_result<T, U>::type;
+    using stored_type =
+        typename promotion_policy::template modulus_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -1002,6 +1050,8 @@ private:
             ! static_cast<bool>(ui.excludes(r_type(0)))
             || ti.l.exception()
             || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
@@ -1012,7 +1062,7 @@ private:
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -1021,11 +1071,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -1292,8 +1342,10 @@ template<class T, class U>
 struct left_shift_result {
 private:
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type =
+    using stored_type =
         typename promotion_policy::template left_shift_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -1368,7 +1420,7 @@ private:
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -1377,11 +1429,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
@@ -1438,8 +1490,10 @@ constexpr inline operator>>(
 template<class T, class U>
 struct right_shift_result {
     using promotion_policy = typename common_promotion_policy<T, U>::type;
-    using result_base_type =
+    using stored_type =
         typename promotion_policy::template right_shift_result<T, U>::type;
+    using result_base_type =
+        typename operation_type<promotion_policy, stored_type, T, U>::type;
 
     // if exception not possible
     constexpr static result_base_type
@@ -1511,7 +1565,7 @@ struct right_shift_result {
 public:
     using type =
         safe_base<
-            result_base_type,
+            stored_type,
             rl,
             ru,
             promotion_policy,
@@ -1520,11 +1574,11 @@ public:
 
     constexpr static type return_value(const T & t, const U & u){
         return type(
-            return_value(
+            static_cast<stored_type>(return_value(
                 t,
                 u,
                 std::integral_constant<bool, exception_possible()>()
-            ),
+            )),
             typename type::skip_validation()
         );
     }
-- 
2.43.0


From 49a14cd507fcb889082ae2884d725814160e7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 16/31] fix: minimum value % -1 was undefined when the check
 was omitted

---
 include/boost/safe_numerics/safe_base_operations.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 73e627a..9818988 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -964,9 +964,11 @@ private:
     // if exception not possible
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            % static_cast<result_base_type>(base_value(u));
+        // note: built-in % is undefined for minimum value % -1
+        return checked::modulus<result_base_type>(
+            static_cast<result_base_type>(base_value(t)),
+            static_cast<result_base_type>(base_value(u))
+        );
     }
 
     // if exception possible
-- 
2.43.0


From 8363ca628701069d27e5f9f96b5cff07b6782f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 17/31] fix: left shift of a negative checked_result to exactly
 the minimum overflowed

---
 include/boost/safe_numerics/checked_result_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index ac60442..c48c420 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -897,9 +897,10 @@ constexpr inline operator<<(
     if(6 == i){ // - (-t << u)
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
-        const checked_result<T> temp_t = t * checked_result<T>(2);
+        // note: -t might be greater than the maximum even though the
+        // result is equal to the minimum
         const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t << temp_u);
+        return t * (checked_result<T>(1) << temp_u) * checked_result<T>(2);
     }
     else
     if(7 == i){  // t >> -u
-- 
2.43.0


From 99bcda4a79fbbf9e782398a665fac66138fcb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 18/31] fix: conversion of a range type to a built-in type was
 checked when it can't fail

---
 .../safe_numerics/safe_base_operations.hpp    | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 9818988..aadd18d 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -132,11 +132,23 @@ struct validate_detail {
         }
     };
 
+    // the limits of type T
     template<typename T>
+    struct type_limits {
+        constexpr static typename base_type<T>::type min(){
+            return base_value(std::numeric_limits<T>::min());
+        }
+        constexpr static typename base_type<T>::type max(){
+            return base_value(std::numeric_limits<T>::max());
+        }
+    };
+
+    // note: T might have values which are never found outside of Limits
+    template<typename T, typename Limits = type_limits<T> >
     constexpr static R return_value(const T & t){
         constexpr const interval<r_type> t_interval{
-            checked::cast<R>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<R>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<R>(Limits::min()),
+            checked::cast<R>(Limits::max())
         };
         constexpr const interval<r_type> r_interval{r_type(Min), r_type(Max)};
 
@@ -239,12 +251,16 @@ operator R () const {
         ! r_interval.excludes(this_interval),
         "safe type cannot be constructed with this type"
     );
+    struct range_limits {
+        constexpr static Stored min(){ return Min; }
+        constexpr static Stored max(){ return Max; }
+    };
     return validate_detail<
         R,
         std::numeric_limits<R>::min(),
         std::numeric_limits<R>::max(),
         E
-    >::return_value(m_t);
+    >::template return_value<Stored, range_limits>(m_t);
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 281158ff542dd1eebfb840bbbd240ae7e47c3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 19/31] fix: round_out overflowed for values with all bits in
 use

---
 include/boost/safe_numerics/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/utility.hpp b/include/boost/safe_numerics/utility.hpp
index ef7e1ef..1c32bc1 100644
--- a/include/boost/safe_numerics/utility.hpp
+++ b/include/boost/safe_numerics/utility.hpp
@@ -239,13 +239,13 @@ template<typename T>
 constexpr inline T round_out(const T & t){
     if(t >= 0){
         const std::uint8_t sb = utility::significant_bits(t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ((T)1 << sb) - 1
             : std::numeric_limits<T>::max();
     }
     else{
         const std::uint8_t sb = utility::significant_bits(~t);
-        return (sb < sizeof(T) * 8)
+        return (sb < std::numeric_limits<T>::digits)
             ? ~(((T)1 << sb) - 1)
             : std::numeric_limits<T>::min();
     }
-- 
2.43.0


From 99c05b6df9e3a604e2f7e0e313ac470b5a922589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:16 +0000
Subject: [PATCH 20/31] fix: cpp promotion policy named no type for the
 unsigned version of a signed type

---
 include/boost/safe_numerics/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 077fbfc..8377bb9 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -132,7 +132,7 @@ public:
             // use signed type
             select_signed<T, U>,
         // clause 4 - otherwise use unsigned version of the signed type
-            std::make_signed< select_signed<T, U>>
+            typename std::make_unsigned< select_signed<T, U>>::type
         >::type >::type >::type
     >;
 
-- 
2.43.0


From e31a239bacb176fbf070ded5b27ae3c86f2eee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 21/31] fix: with the cpp policy the type of a shift depends on
 its left operand only

---
 include/boost/safe_numerics/cpp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/cpp.hpp b/include/boost/safe_numerics/cpp.hpp
index 8377bb9..f39c441 100644
--- a/include/boost/safe_numerics/cpp.hpp
+++ b/include/boost/safe_numerics/cpp.hpp
@@ -171,11 +171,13 @@ public:
     };
     template<typename T, typename U>
     struct left_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct right_shift_result {
-       using type = result_type<T, U>;
+       // section 5.8 - the type of the result is that of the promoted left operand
+       using type = integral_promotion<typename base_type<T>::type>;
     };
     template<typename T, typename U>
     struct bitwise_and_result {
-- 
2.43.0


From ad50b5d1928fa7ad2fcbc796928e978dbda229ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 22/31] fix: / and % truncated silently to a result type
 narrower than the operands

---
 .../safe_numerics/safe_base_operations.hpp    | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index aadd18d..772acfb 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -855,10 +855,22 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::divide(r.first, r.second);
 
+        if(rx.exception())
+            return r.first / r.second;
+
+        // the operands can be wider than the type of the result
+        const r_type ry = heterogeneous_checked_operation<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            temp_base,
+            dispatch_and_return<exception_policy, result_base_type>
+        >::cast(rx.m_contents.m_r);
+
         return
-            rx.exception()
-            ? r.first / r.second
-            : rx;
+            ry.exception()
+            ? static_cast<result_base_type>(rx.m_contents.m_r)
+            : ry.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
 
@@ -1020,10 +1032,22 @@ private:
             dispatch_and_return<exception_policy, temp_base>
         >::modulus(r.first, r.second);
 
+        if(rx.exception())
+            return r.first % r.second;
+
+        // the operands can be wider than the type of the result
+        const r_type ry = heterogeneous_checked_operation<
+            result_base_type,
+            std::numeric_limits<result_base_type>::min(),
+            std::numeric_limits<result_base_type>::max(),
+            temp_base,
+            dispatch_and_return<exception_policy, result_base_type>
+        >::cast(rx.m_contents.m_r);
+
         return
-            rx.exception()
-            ? r.first % r.second
-            : rx;
+            ry.exception()
+            ? static_cast<result_base_type>(rx.m_contents.m_r)
+            : ry.m_contents.m_r;
     }
 
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From f62bdfd84f001d5fcc7b9ee061c2d4ff13bfc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 23/31] fix: range of bitwise results when the policy's type
 doesn't hold the operands

---
 .../safe_numerics/safe_base_operations.hpp    | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 772acfb..7b9d1fb 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1698,24 +1698,42 @@ private:
     constexpr static R hull(const r_type & t){
         return static_cast<R>(utility::round_out(t));
     }
+    // the policy can name a type which doesn't hold all the bits of the operands
+    constexpr static bool truncated(){
+        return
+            safe_compare::greater_than(
+                base_value(std::numeric_limits<T>::max()),
+                std::numeric_limits<R>::max()
+            )
+            || safe_compare::greater_than(
+                base_value(std::numeric_limits<U>::max()),
+                std::numeric_limits<R>::max()
+            );
+    }
+    constexpr static bool or_sign(){
+        return t_negative() || u_negative() || truncated();
+    }
+    constexpr static bool and_sign(){
+        return (t_negative() && u_negative()) || truncated();
+    }
 
 public:
     // bits of either operand appear in the result of | and ^
     constexpr static R or_min(){
-        return t_negative() || u_negative() ? std::numeric_limits<R>::min() : R(0);
+        return or_sign() ? std::numeric_limits<R>::min() : R(0);
     }
     constexpr static R or_max(){
-        return t_negative() || u_negative()
+        return or_sign()
             ? std::numeric_limits<R>::max()
             : hull(t_max() < u_max() ? u_max() : t_max());
     }
     // only bits found in both of the operands appear in the result of &
     constexpr static R and_min(){
-        return t_negative() && u_negative() ? std::numeric_limits<R>::min() : R(0);
+        return and_sign() ? std::numeric_limits<R>::min() : R(0);
     }
     constexpr static R and_max(){
         return
-            t_negative() && u_negative() ? std::numeric_limits<R>::max()
+            and_sign() ? std::numeric_limits<R>::max()
             : t_negative() ? hull(u_max())
             : u_negative() ? hull(t_max())
             : hull(t_max() < u_max() ? t_max() : u_max());
-- 
2.43.0


From 7f4b35e3137fa0030a07da98a8eb953526ee15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 24/31] fix: the library did not compile without exceptions

---
 include/boost/safe_numerics/exception_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/exception_policies.hpp b/include/boost/safe_numerics/exception_policies.hpp
index 5523a9c..fab96dc 100644
--- a/include/boost/safe_numerics/exception_policies.hpp
+++ b/include/boost/safe_numerics/exception_policies.hpp
@@ -77,7 +77,7 @@ struct throw_exception {
         throw std::system_error(std::error_code(e), message);
     }
     #else
-    constexpr trap_exception()(const safe_numerics_error & e, const char * message);
+    // error will occur on operator call, as with trap_exception.
     #endif
 };
 
-- 
2.43.0


From 2232c5130632726ce2364ffb2454fb692ca67442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:29 +0000
Subject: [PATCH 25/31] fix: error codes made in different translation units
 were not comparable

---
 include/boost/safe_numerics/exception.hpp | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 970f3cb..a37e5b6 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,7 +81,20 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// std::error_category objects are compared by address. So there must be only
+// one of each kind in the whole program - not one in each translation unit.
+// They're never destroyed as they might be used while the program terminates.
+template<class Category>
+union category_instance {
+    Category category;
+    constexpr category_instance() noexcept : category() {}
+    ~category_instance(){}
+    static const category_instance value;
+};
+template<class Category>
+const category_instance<Category> category_instance<Category>::value {};
+
+class safe_numerics_error_category_t : public std::error_category {
 public:
     virtual const char* name() const noexcept{
         return "safe numerics error";
@@ -115,7 +128,10 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+static const std::error_category & safe_numerics_error_category
+    = category_instance<safe_numerics_error_category_t>::value.category;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,7 +162,7 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_t : public std::error_category {
 public:
     virtual const char* name() const noexcept {
         return "safe numerics error group";
@@ -188,7 +204,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const std::error_category & safe_numerics_actions_category
+    = category_instance<safe_numerics_actions_category_t>::value.category;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From e5eb4e5118dd9bb3e5bd756cb5a6a23cdf9c51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:29 +0000
Subject: [PATCH 26/31] fix: safe_numerics_actions could not be converted to
 std::error_condition

---
 include/boost/safe_numerics/exception.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index a37e5b6..b7f5359 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -209,6 +209,14 @@ public:
 static const std::error_category & safe_numerics_actions_category
     = category_instance<safe_numerics_actions_category_t>::value.category;
 
+// conversion of safe_numerics_actions to std::error_condition
+inline std::error_condition make_error_condition(const safe_numerics_actions & a){
+    return std::error_condition(
+        static_cast<int>(a),
+        safe_numerics_actions_category
+    );
+}
+
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
 // isn't being used and defining here it can lead duplicate symbol errors
-- 
2.43.0


From 3a191ac4b32fba2ded7ce803098f11d068be0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:03 +0000
Subject: [PATCH 27/31] fix: native.hpp, checked_default.hpp and
 range_value.hpp did not compile on their own

---
 include/boost/safe_numerics/checked_default.hpp | 2 ++
 include/boost/safe_numerics/native.hpp          | 2 ++
 include/boost/safe_numerics/range_value.hpp     | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index d71921e..ca158e7 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -29,6 +29,8 @@
 
 // usage example: checked<int>::add(t, u) ...
 
+#include <limits>
+
 #include <boost/logic/tribool.hpp>
 #include "checked_result.hpp"
 
diff --git a/include/boost/safe_numerics/native.hpp b/include/boost/safe_numerics/native.hpp
index 147ac82..81ddb04 100644
--- a/include/boost/safe_numerics/native.hpp
+++ b/include/boost/safe_numerics/native.hpp
@@ -10,6 +10,8 @@
 #include <type_traits>
 #include <limits>
 
+#include "safe_common.hpp"
+
 // policy which creates results types and values equal to that of C++ promotions.
 // When used in conjunction with a desired exception policy, traps errors but
 // does not otherwise alter the results produced by the program using it.
diff --git a/include/boost/safe_numerics/range_value.hpp b/include/boost/safe_numerics/range_value.hpp
index 3c01c76..378620b 100644
--- a/include/boost/safe_numerics/range_value.hpp
+++ b/include/boost/safe_numerics/range_value.hpp
@@ -7,7 +7,7 @@
 // accompanying file LICENSE_1_0.txt or copy at
 // http://www.boost.org/LICENSE_1_0.txt)
 
-#include <iosfwd>
+#include <ostream>
 
 // print range and value to a standard stream
 // make a simple wrapper
-- 
2.43.0


From f94fbca1510b7f79189d5bbce1ef7ff9874a6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:59 +0000
Subject: [PATCH 28/31] fix: comparison functions of checked:: did not compile
 for integers

---
 include/boost/safe_numerics/checked_default.hpp |  2 +-
 include/boost/safe_numerics/checked_integer.hpp | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_default.hpp b/include/boost/safe_numerics/checked_default.hpp
index ca158e7..95fa3e2 100644
--- a/include/boost/safe_numerics/checked_default.hpp
+++ b/include/boost/safe_numerics/checked_default.hpp
@@ -101,7 +101,7 @@ struct checked_operation{
     }
     constexpr static boost::logic::tribool
     equal(const R & t, const R & u) noexcept {
-        return t < u;
+        return t == u;
     }
     constexpr static checked_result<R>
     left_shift(const R & t, const R & u) noexcept {
diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index bc59ce1..570c59c 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -567,6 +567,19 @@ struct checked_operation<R, F,
         return modulus_impl_detail::modulus(t, u, typename std::is_signed<R>::type());
     }
 
+    ///////////////////////////////////
+    // comparison operations
+
+    constexpr static bool less_than(const R & t, const R & u) noexcept {
+        return t < u;
+    }
+    constexpr static bool greater_than(const R & t, const R & u) noexcept {
+        return t > u;
+    }
+    constexpr static bool equal(const R & t, const R & u) noexcept {
+        return t == u;
+    }
+
     ///////////////////////////////////
     // shift operations
 
-- 
2.43.0


From 0c39a3d36d5816bf0ff0f0e6662b51f915505523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:59 +0000
Subject: [PATCH 29/31] fix: intervals of checked_result could not be compared
 for equality

---
 include/boost/safe_numerics/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index e76aa54..342bac2 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -267,7 +267,7 @@ constexpr inline bool operator==(
     const interval<T> & u
 ){
     // intervals have the same limits
-    return t.l == u.l && t.u == u.u;
+    return static_cast<bool>(t.l == u.l) && static_cast<bool>(t.u == u.u);
 }
 
 template<typename T>
-- 
2.43.0


From 74b5c8cd88e460a942fb1287a468890bfec09057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:56 +0000
Subject: [PATCH 30/31] fix: enumerations and class types which convert to
 integers were not checked

Such types have no numeric_limits, so the range of their values was taken to
be [0, 0] and all checks were omitted: safe<int> * enumerator wrapped and
safe_signed_range<-10, 10> accepted any enumerator. Now they're promoted first.
---
 .../safe_numerics/safe_base_operations.hpp    | 100 +++++++++++++++++-
 1 file changed, 99 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 7b9d1fb..8a7881e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -96,6 +96,47 @@ public:
     }
 };
 
+/////////////////////////////////////////////////////////////////
+// operands which are neither safe nor numeric types
+
+// Enumerations (and other types which have a promotion to a numeric type) have
+// no numeric_limits. So they are replaced by the value they're promoted to.
+template<class T>
+struct is_operand :
+    public std::integral_constant<bool, is_safe<T>::value || Numeric<T>::value>
+{};
+
+template<class T>
+using promoted_type = typename std::decay<
+    decltype(+ std::declval<const T &>())
+>::type;
+
+template<class T, class = void>
+struct is_promotable : public std::false_type
+{};
+template<class T>
+struct is_promotable<
+    T,
+    typename std::enable_if<is_operand<promoted_type<T> >::value>::type
+> :
+    public std::integral_constant<bool, ! is_operand<T>::value>
+{};
+
+template<
+    class T,
+    typename std::enable_if<! is_promotable<T>::value, bool>::type = true
+>
+constexpr inline const T & promoted(const T & t){
+    return t;
+}
+template<
+    class T,
+    typename std::enable_if<is_promotable<T>::value, bool>::type = true
+>
+constexpr inline promoted_type<T> promoted(const T & t){
+    return + t;
+}
+
 /////////////////////////////////////////////////////////////////
 // validation
 
@@ -168,7 +209,7 @@ template<class Stored, Stored Min, Stored Max, class P, class E>
 template<class T>
 constexpr inline Stored safe_base<Stored, Min, Max, P, E>::
 validated_cast(const T & t) const {
-    return validate_detail<Stored,Min,Max,E>::return_value(t);
+    return validate_detail<Stored,Min,Max,E>::return_value(promoted(t));
 }
 
 /////////////////////////////////////////////////////////////////
@@ -417,6 +458,8 @@ template<template<class...> class F, class T, class U >
 using legal_overload =
     boost::mp11::mp_and<
         boost::mp11::mp_or< is_safe<T>, is_safe<U> >,
+        is_operand<T>,
+        is_operand<U>,
         boost::mp11::mp_valid<
             F,
             typename base_type<T>::type,
@@ -1907,6 +1950,61 @@ constexpr inline operator^=(T & t, const U & u){
     return t;
 }
 
+/////////////////////////////////////////////////////////////////
+// operators with a safe operand and a promotable one
+
+template<class T, class U>
+using is_safe_and_promotable = boost::mp11::mp_and<is_safe<T>, is_promotable<U> >;
+
+#define BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(OP)                              \
+template<                                                                      \
+    class T,                                                                   \
+    class U,                                                                   \
+    typename std::enable_if<is_safe_and_promotable<T, U>::value, int>::type = 0\
+>                                                                              \
+constexpr inline auto operator OP(const T & t, const U & u){                   \
+    return t OP promoted(u);                                                   \
+}                                                                              \
+template<                                                                      \
+    class T,                                                                   \
+    class U,                                                                   \
+    typename std::enable_if<is_safe_and_promotable<U, T>::value, int>::type = 0\
+>                                                                              \
+constexpr inline auto operator OP(const T & t, const U & u){                   \
+    return promoted(t) OP u;                                                   \
+}
+
+#define BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(OP)                               \
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(OP)                                      \
+template<                                                                      \
+    class T,                                                                   \
+    class U,                                                                   \
+    typename std::enable_if<is_safe_and_promotable<T, U>::value, int>::type = 0\
+>                                                                              \
+constexpr inline T & operator OP##=(T & t, const U & u){                       \
+    return t OP##= promoted(u);                                                \
+}
+
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(+)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(-)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(*)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(/)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(%)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(<<)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(>>)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(|)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(&)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERAND(^)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(<)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(>)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(<=)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(>=)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(==)
+BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS(!=)
+
+#undef BOOST_SAFE_NUMERICS_PROMOTED_OPERAND
+#undef BOOST_SAFE_NUMERICS_PROMOTED_OPERANDS
+
 /////////////////////////////////////////////////////////////////
 // stream helpers
 
-- 
2.43.0


From 6d9178454e0a9ad93a820f1d38f9c2f01366b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:29 +0000
Subject: [PATCH 31/31] fix: unary minus had the type of an operation with the
 host's int

The type of -x is that of the promoted operand. 0 - x uses the int of the
machine which runs the program, so that with the cpp policy of a machine
whose int has 16 bits -x has 32 bits.
---
 include/boost/safe_numerics/safe_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base.hpp b/include/boost/safe_numerics/safe_base.hpp
index 03c6edd..eef7e01 100644
--- a/include/boost/safe_numerics/safe_base.hpp
+++ b/include/boost/safe_numerics/safe_base.hpp
@@ -264,7 +264,7 @@ public:
         // according to the requirements of arithmetic correctness.
         // if this is an unsigned type and the promotion policy is automatic.
         // the result will be signed.
-        return 0 - *this;
+        return Stored(0) - *this;
     }
     /*   section 5.3.1 &10 of the C++ standard
     The operand of ~ shall have integral or unscoped enumeration type; 
-- 
2.43.0

