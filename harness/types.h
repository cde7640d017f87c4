// Number types: the predefined ones and bases a user could define.
#pragma once
#include "bignum/bignum.h"
#define USER_BASE(NAME, UINT, BASE) \
    typedef BNIntType<UINT, BASE> NAME##_digit; \
    template <> constexpr bn_u64_t bn_min_limit<NAME##_digit>() { return 0; } \
    template <> constexpr bn_u64_t bn_max_limit<NAME##_digit>() { return (BASE) - 1; } \
    typedef BNLimitsType<NAME##_digit, NAME##_digit> NAME##_limits; \
    typedef Bignum<NAME##_limits, bn_default_container_t<NAME##_digit>> NAME##_num
