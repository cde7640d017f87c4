From 369f6004a5d4c5328d65935aaa58616f8102b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:41 +0000
Subject: [PATCH 01/21] fix: greater-than and less-than stop at the first
 differing digit

---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From fc321da201510d2c0edc33acc38d59f69b4af500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:41 +0000
Subject: [PATCH 02/21] fix: ordering of two negative numbers when they are
 equal

---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From 77a2f593f590837ae623338deac4fe468d1c2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 03/21] fix: subtracting numbers of opposite sign adds their
 magnitudes

---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 117852a3ad5266e2134a36aa83c66d5dfa79939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 04/21] fix: leading zero digits do not affect comparisons

---
 include/bignum/impl/bn_compare_impl.h | 59 ++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index cc45ab9..ba5601f 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,22 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Number of significant digits (high-order zeroes do not count)
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_num_digits(
+    const container_type& num
+) {
+    typename container_type::size_type numDigits = num.size();
+
+    while (numDigits && !num[numDigits-1]) {
+        --numDigits;
+    }
+
+    return numDigits;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +25,15 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+
+    if (len1 != len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,15 +52,18 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+
+    if (len1 > len2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (len1 < len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -63,15 +85,18 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+
+    if (len1 > len2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (len1 < len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -93,15 +118,18 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+
+    if (len1 < len2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (len1 > len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
@@ -123,15 +151,18 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type len1 = abs_val_num_digits(num1);
+    const typename container_type::size_type len2 = abs_val_num_digits(num2);
+
+    if (len1 < len2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (len1 > len2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = len1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
-- 
2.43.0


From 143abd63071da9b9dd12739e6ea0624a8cd52782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 05/21] fix: subtraction never reads past the digits of the
 larger number

---
 include/bignum/impl/bn_subtraction_impl.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..843a321 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
@@ -35,7 +33,7 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
@@ -52,11 +50,6 @@ void abs_val_sub(
         // onto the next number
         ++outIter;
         ++inIter;
-        
-        // determine when to stop counting
-        if (outIter == largerNum.size() && inIter >= smallerNum.size()) {
-            break;
-        }
     }
     
     // pop off any remaining zeroes
-- 
2.43.0


From 10015fa613304f3f6558e443bc41033ab4012305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 06/21] fix: dividing numbers whose digits fill their integer
 type

---
 include/bignum/impl/bn_division_impl.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..5243e0a 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -10,12 +10,12 @@ void abs_val_div(
     const container_t& divisor
 ) {
     typedef typename limits_t::base_single bn_single;
-    typedef typename limits_t::base_double bn_double;
     
-    // numerical limits
-    static constexpr bn_double SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + (bn_double)1;
-    static constexpr bn_double SINGLE_BASE_MAX = bn_max_limit<bn_single>();
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
+    // numerical limits. Digits can be as wide as their base so doubling one
+    // requires a larger type.
+    static constexpr bn_u64_t SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + (bn_u64_t)1;
+    static constexpr bn_u64_t SINGLE_BASE_MAX = bn_max_limit<bn_single>();
+    static constexpr bn_u64_t SINGLE_BASE_MIN = bn_min_limit<bn_single>();
     
     const auto shift_left_1 = [](container_t& container)->void
     {
@@ -25,14 +25,13 @@ void abs_val_div(
         }
 
         typename container_t::size_type curr = 0;
-        typename container_t::value_type carry = 0;
+        bn_u64_t carry = 0;
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_u64_t temp = ((bn_u64_t)container[curr] * 2) + carry;
+            carry = temp > SINGLE_BASE_MAX ? 1 : 0;
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 65206c4e636181fb0086a18e98baf6f621f00d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 07/21] fix: a number divided by an equal one is one, not zero

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..c2c7193 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -676,7 +676,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // std::deque throws exceptions when a memory error occurs
     try {
-        if (abs_val_is_gt(numData, num.numData))
+        if (abs_val_is_ge(numData, num.numData))
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
-- 
2.43.0


From 434dd2de48053082e47bec0a1b68b3527b245e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:57 +0000
Subject: [PATCH 08/21] fix: division by a zero without digits no longer hangs

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c2c7193..c73fc5c 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -657,7 +657,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (!abs_val_num_digits(num.numData))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
-- 
2.43.0


From ff2588d40390ca08fb89632accae2b8458872151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 09/21] fix: arithmetic never produces a negative zero

---
 include/bignum/impl/bn_type_impl.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c73fc5c..a5af366 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -488,7 +488,6 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
@@ -512,6 +511,11 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
         throw e;
     }
     
+    // zero has no sign
+    if (!abs_val_num_digits(numData)) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -577,6 +581,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         throw e;
     }
     
+    // zero has no sign
+    if (!abs_val_num_digits(numData)) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -624,6 +633,11 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         throw e;
     }
 
+    // zero has no sign
+    if (!abs_val_num_digits(numData)) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -641,8 +655,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
-    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -664,12 +676,14 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
+    // zero has no sign
+    if (!abs_val_num_digits(numData))
     {
+        descriptor = BN_POS;
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
         return *this;
     }
@@ -683,6 +697,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         else
         {
             numData = {bn_single{0}};
+            descriptor = BN_POS;
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From abadc916ec5b4a8ed444518c17c991ef7cc0a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 10/21] fix: multiplying two numbers without digits recursed
 until the stack overflowed

---
 include/bignum/impl/fourier_impl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..55462a2 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -45,8 +45,7 @@ void fft_complex(cmplx_list_t<flt_t>& x) {
     const cmplx_size_t<flt_t> len = x.size();
     
     // base case
-    if (len == 1) {
-        x = cmplx_list_t<flt_t>{x[0]};
+    if (len <= 1) {
         return;
     }
 
-- 
2.43.0


From bb464add4cbaede47adbc36bae164dd1d7a68062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 11/21] fix: FFT product columns no longer overflow the carry
 type

---
 include/bignum/impl/bn_multiplication_impl.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..065eca3 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,9 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -31,14 +31,17 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     container_t ret;
     ret.reserve(inverses.size());
 
-    for (cmplx_size_t<flt_t> i = 0, c = 0; i < inverses.size(); ++i) {
+    // a column sum can be far larger than the double-precision digit type
+    BN_UINT64 c = 0;
+    
+    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
         // drop imaginary part of the number
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const BN_UINT64 ci = c + (BN_UINT64)std::floor(x + 0.5);
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
-- 
2.43.0


From a3dc1466fee295c004f5564bcfd2bbdd41af6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 12/21] fix: naive multiplication truncated products to the
 width of one digit

---
 include/bignum/impl/bn_multiplication_impl.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 065eca3..eee8158 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -70,9 +70,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
     container_t ret{};
     
@@ -85,16 +85,16 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     ret.resize(totalLen);
     
     for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+        BN_UINT64 remainder = 0;
         
         for (unsigned j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const BN_UINT64 digit = remainder + (BN_UINT64)ret[index] + (BN_UINT64)a[j] * (BN_UINT64)b[i];
+            remainder = digit / NUM_BASE;
+            ret[index] = (bn_single)(digit % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
     }
     
     return ret;
-- 
2.43.0


From 8c1c99e8612f7adb8a97412deead41ea77bb7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 13/21] fix: products of wide digits were rounded by the
 floating-point FFT

---
 include/bignum/impl/bn_multiplication_impl.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index eee8158..2955aea 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -20,6 +20,21 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
+    // Rounding can only undo the errors of a floating-point FFT while the sums
+    // of digit products stay well below 2^53. Use exact integers otherwise.
+    static constexpr BN_UINT64 MAX_DIGIT = limits_t::SINGLE_BASE_MAX;
+    static constexpr BN_UINT64 MAX_DIGITS = ((BN_UINT64)1 << 42) / MAX_DIGIT / MAX_DIGIT;
+    
+    if (a.size() + b.size() > MAX_DIGITS) {
+        container_t product = mul_naive<limits_t, container_t>(a, b);
+        
+        while (product.size() && !product.back()) {
+            product.pop_back();
+        }
+        
+        return product;
+    }
+    
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
     
-- 
2.43.0


From 52ca77b7b2263219483e400f50ca6bc9ab9c3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 14/21] fix: comparisons of zeros of either sign, infinities
 and NaN

---
 include/bignum/impl/bn_type_impl.h | 77 +++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 16 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index a5af366..a78995b 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -279,14 +279,40 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
     return numData[iter];
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Position of a number on the number line, relative to zero
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+inline int bn_number_line_pos(const Bignum<limits_t, container_t>& num) {
+    switch (num.descriptor) {
+        case BN_NEG_INF:
+            return -2;
+        case BN_POS_INF:
+            return 2;
+        case BN_NAN:
+            return 3; // not on the number line
+        default:
+            break;
+    }
+    
+    if (!abs_val_num_digits(num.numData)) {
+        return 0;
+    }
+    
+    return num.descriptor == BN_NEG ? -1 : 1;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Basic comparison
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    if (bn_number_line_pos(*this) != bn_number_line_pos(num)) {
         return false;
     }
+    if (!isComputable(this->descriptor)) {
+        return true;
+    }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
 }
 
@@ -295,9 +321,12 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    if (bn_number_line_pos(*this) != bn_number_line_pos(num)) {
         return true;
     }
+    if (!isComputable(this->descriptor)) {
+        return false;
+    }
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
 }
         
@@ -306,12 +335,16 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
-    }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    if (this->isNan() || num.isNan()) {
         return false;
     }
+    
+    const int lhs = bn_number_line_pos(*this);
+    const int rhs = bn_number_line_pos(num);
+    
+    if (lhs != rhs || !isComputable(this->descriptor)) {
+        return lhs > rhs;
+    }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
@@ -325,12 +358,16 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
-    }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    if (this->isNan() || num.isNan()) {
         return false;
     }
+    
+    const int lhs = bn_number_line_pos(*this);
+    const int rhs = bn_number_line_pos(num);
+    
+    if (lhs != rhs || !isComputable(this->descriptor)) {
+        return lhs >= rhs;
+    }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_le<container_t>(this->numData, num.numData);
     }
@@ -344,11 +381,15 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    if (this->isNan() || num.isNan()) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+    
+    const int lhs = bn_number_line_pos(*this);
+    const int rhs = bn_number_line_pos(num);
+    
+    if (lhs != rhs || !isComputable(this->descriptor)) {
+        return lhs < rhs;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_gt<container_t>(this->numData, num.numData);
@@ -363,11 +404,15 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    if (this->isNan() || num.isNan()) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+    
+    const int lhs = bn_number_line_pos(*this);
+    const int rhs = bn_number_line_pos(num);
+    
+    if (lhs != rhs || !isComputable(this->descriptor)) {
+        return lhs <= rhs;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_ge<container_t>(this->numData, num.numData);
-- 
2.43.0


From 7f337f6ac4920f26b32ed1719f7094d39cecbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 15/21] fix: NaN and infinite operands no longer yield finite
 numbers

---
 include/bignum/impl/bn_type_impl.h | 43 +++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index a78995b..65e7828 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -499,9 +499,13 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite() && descriptor != num.descriptor)) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isInfinite() ? descriptor : num.descriptor);
+        }
         return *this;
     }
     
@@ -572,9 +576,13 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite() && descriptor == num.descriptor)) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isInfinite() ? descriptor : num.isNegative() ? BN_POS_INF : BN_NEG_INF);
+        }
         return *this;
     }
     
@@ -642,9 +650,13 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || !bn_number_line_pos(*this) || !bn_number_line_pos(num)) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isNegative() != num.isNegative() ? BN_NEG_INF : BN_POS_INF);
+        }
         return *this;
     }
 
@@ -694,9 +706,16 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            setDescriptor(BN_NAN);
+        }
+        else if (num.isInfinite()) {
+            clear();
+        }
+        else {
+            setDescriptor(isNegative() != num.isNegative() ? BN_NEG_INF : BN_POS_INF);
+        }
         return *this;
     }
 
-- 
2.43.0


From 3c5af82b6522e918b92e8b9bdcc15534f114693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 16/21] fix: arithmetic operators sliced the exception they
 rethrow

---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 65e7828..95fe334 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -551,13 +551,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     // zero has no sign
@@ -625,13 +625,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     // zero has no sign
@@ -681,13 +681,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     // zero has no sign
@@ -764,13 +764,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From e6feb106fb8bd27505823102a9526702cfac2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 17/21] fix: a copy assignment that runs out of memory leaves
 the target intact

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 95fe334..5c93538 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -428,8 +428,8 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
 template <class limits_t, class container_t>
 inline Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator=(const Bignum& num) {
-    descriptor = num.descriptor;
     numData = num.numData;
+    descriptor = num.descriptor;
     return *this;
 }
 
-- 
2.43.0


From 4828d815f921d0179badb47f14de27b69443593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 18/21] fix: numbers with 8-bit digits print as digits instead
 of raw bytes

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 5c93538..6db285f 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << (bn_u64_t)numList[iter]; // 8-bit digits are not characters
     }
 
     return ostr;
-- 
2.43.0


From 43fac790826a79cecb82ec8d58e444d188186fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 19/21] fix: nextPow2 ignored the upper half of 64-bit
 arguments

---
 include/bignum/impl/fourier_impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 55462a2..0918f67 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -32,6 +32,7 @@ num_t nextPow2(num_t n) {
     n |= n >> 4;
     n |= n >> 8;
     n |= n >> 16;
+    n |= (n >> 16) >> 16;
     return ++n;
 }
 
-- 
2.43.0


From 86689cb62087a291c7a1b98b78493ec4d1675d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 20/21] fix: dividing a number by itself in place no longer
 hangs

---
 include/bignum/impl/bn_division_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index 5243e0a..db875e8 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -7,8 +7,11 @@
 template <class limits_t, class container_t>
 void abs_val_div(
     container_t& dividend,
-    const container_t& divisor
+    const container_t& inDivisor
 ) {
+    // the dividend may be the divisor, too: it changes while it gets divided
+    const container_t divisor = inDivisor;
+
     typedef typename limits_t::base_single bn_single;
     
     // numerical limits. Digits can be as wide as their base so doubling one
-- 
2.43.0


From ffa3b86f235f9bb5249911a0e76d9210082ed6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 21/21] fix: products of 16-bit digit integers no longer
 overflow a signed int

---
 include/bignum/impl/bn_int_type_impl.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index a77795f..92f3542 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -120,29 +120,43 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
     return BNIntType<numType, intId>{(numType)~num};
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Type in which to compute: the language would promote unsigned 8 and 16-bit
+// integers to a signed int, which can overflow.
+///////////////////////////////////////////////////////////////////////////////
+template <typename numType, bool isSigned = ((numType)-1 < (numType)1)>
+struct BNIntPromote {
+    typedef numType type;
+};
+
+template <typename numType>
+struct BNIntPromote<numType, false> {
+    typedef decltype(numType{0} + 0u) type;
+};
+
 ///////////////////////////////////////////////////////////////////////////////
 // Binary operators returning a bn_int_type type
 ///////////////////////////////////////////////////////////////////////////////
 #define BN_INT_TYPE_BINARY_OP(op) \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const BNIntType<numType, intId>& bni) const { \
-        return BNIntType<numType, intId>{(numType)(num op bni.num)}; \
+        return BNIntType<numType, intId>{(numType)((typename BNIntPromote<numType>::type)num op bni.num)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const numType& n) const { \
-        return BNIntType<numType, intId>{(numType)(num op n)}; \
+        return BNIntType<numType, intId>{(numType)((typename BNIntPromote<numType>::type)num op n)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const BNIntType<numType, intId>& bni) { \
-        num op##= bni.num; \
+        num = (numType)((typename BNIntPromote<numType>::type)num op bni.num); \
         return *this; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const numType& n) { \
-        num op##= n; \
+        num = (numType)((typename BNIntPromote<numType>::type)num op n); \
         return *this; \
     }
     
@@ -190,12 +204,12 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 #define BN_INT_TYPE_BINARY_OP_R(op) \
     template <typename numType, BN_UINT64 intId> \
     constexpr numType operator op (const numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op bni.num; \
+        return (numType)((typename BNIntPromote<numType>::type)n op bni.num); \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline numType& operator op##= (numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op##= bni.num; \
+        return n = (numType)((typename BNIntPromote<numType>::type)n op bni.num); \
     }
 
     // Non-Assigned arithmetic
-- 
2.43.0

