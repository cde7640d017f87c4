A = 'include/bignum/impl/bn_addition_impl.h'
S = 'include/bignum/impl/bn_subtraction_impl.h'
M = 'include/bignum/impl/bn_multiplication_impl.h'
D = 'include/bignum/impl/bn_division_impl.h'
C = 'include/bignum/impl/bn_compare_impl.h'
T = 'include/bignum/impl/bn_type_impl.h'
I = 'include/bignum/impl/bn_int_type_impl.h'
F = 'include/bignum/impl/fourier_impl.h'
E = 'src/bn_except.cpp'
SEEDS = []


def seed(ident, prop, edits, needs, breaks, demo, flags=''):
    SEEDS.append(dict(id=ident, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))


seed('c01-carry-out', 'C01', [(A,
    'if (outIter == outNum.size() && inIter >= inNum.size() && !remainder) {',
    'if (outIter == outNum.size() && inIter >= inNum.size() && (!remainder || outIter > inNum.size())) {')],
    'a carry that runs past the top digit of a sum whose right operand is shorter than the left one',
    '9990 + 10 loses its top digit: the carry out of the longer operand is dropped',
    '''
int main() {
    bignum_base10 a{BN_POS, {9, 9, 9, 0}}, b{BN_POS, {1, 0}}, want{BN_POS, {1, 0, 0, 0, 0}};
    return a + b == want ? 0 : 1;
}
''')

seed('c02-borrow-wrap', 'C02', [(S,
    'const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;',
    'const bn_single taken = (bn_single)(inDigit+numBorrowed);\n        const bn_double outDigit = (bn_double)largerNum[outIter]-taken;')],
    'a base that fills its digit type (lowp, medp, highp), a borrow into a position where the subtrahend has the largest digit',
    'the borrow is added to the subtrahend digit in the digit type, where 255+1 wraps to 0 and the borrow is lost',
    '''
int main() {
    bignum_lowp a{BN_POS, {2, 0, 0}}, b{BN_POS, {255, 1}}, want{BN_POS, {1, 0, 255}};
    bignum_lowp d = a - b;
    if (!(d == want)) return 1;
    bignum_base10 c{BN_POS, {2, 0, 0}}, e{BN_POS, {9, 1}}, f{BN_POS, {1, 0, 9}};
    return c - e == f ? 0 : 1;
}
''')

seed('c03-pi', 'C03', [(F,
    'pi = 3.1415926535897932384626433832795;',
    'pi = 3.14159265359;')],
    'products of 16-bit digits with several hundred digits, close to the size where the exact path takes over',
    'the twiddle factors of the FFT are only good to twelve digits, so large column sums round to the wrong integer',
    '''
int main() {
    // all-ones times all-ones in base 65536: (B^n - 1)^2 = B^2n - 2 B^n + 1
    bignum_medp a;
    const unsigned n = 500;
    for (unsigned i = 0; i < n; ++i) a.push_back(65535);
    bignum_medp p = a * a;
    if (p.size() != 2 * n) return 1;
    for (unsigned i = 0; i < 2 * n; ++i) {
        const unsigned want = i == 0 ? 1 : i < n ? 0 : i == n ? 65534 : 65535;
        if ((unsigned)p.getData()[i] != want) return 1;
    }
    return 0;
}
''')

seed('c05-wide-digits', 'C05', [(C,
    '''        if (num1[i] < num2[i]) {
            return true;
        }
        if (num1[i] > num2[i]) {
            return false;
        }
    }
    
    return false;
}

///////////////////////////////////////////////////////////////////////////////
// Less than or equal to implementation''',
    '''        const int diff = (int)num1[i] - (int)num2[i];
        if (diff) {
            return diff < 0;
        }
    }
    
    return false;
}

///////////////////////////////////////////////////////////////////////////////
// Less than or equal to implementation''')],
    'highp numbers of equal length whose first differing digits are more than 2^31 apart, compared with < (or > when negative)',
    'digits are compared by the sign of a 32-bit difference',
    '''
int main() {
    bignum_highp a{BN_POS, {1, 1}}, b{BN_POS, {0xFFFFFFF0u, 1}};
    return (a < b) && !(b < a) && a < bignum_highp(BN_POS, {2, 0}) ? 0 : 1;
}
''')

seed('c08-assign-empty', 'C08', [(T,
    '''    numData = num.numData;
    descriptor = num.descriptor;
    return *this;''',
    '''    if (!num.numData.empty()) {
        numData = num.numData;
    }
    descriptor = num.descriptor;
    return *this;''')],
    'copy assignment from a number without digits (zero, NaN, infinity) onto a number that has some',
    'the old digits survive the assignment',
    '''
int main() {
    bignum_base10 a{BN_POS, {4, 2}}, z, inf{BN_NEG_INF, {}};
    bignum_base10 b = a;
    a = z;
    b = inf;
    return a == z && a.size() == 0 && b.size() == 0 ? 0 : 1;
}
''')

seed('c10-neg-inf', 'C10', [(T,
    "    if (num.getDescriptor() == BN_NEG) {\n        ostr << '-';",
    "    if (num.isNegative()) {\n        ostr << '-';")],
    'writing negative infinity to a stream',
    'the sign branch also takes negative infinity, which prints as -0',
    '''
int main() {
    std::ostringstream s;
    s << bignum_base10(BN_NEG, {4, 2}) << ' ' << bignum_base10(BN_NEG_INF, {}) << ' ' << bignum_base10(BN_POS_INF, {});
    return s.str() == "-42 -INF +INF" ? 0 : 1;
}
''')

seed('c14-index-width', 'C14', [(T,
    '''Bignum<limits_t, container_t>::operator[](typename container_type::size_type iter) const {
    BN_ASSERT(iter < numData.size());''',
    '''Bignum<limits_t, container_t>::operator[](typename container_type::size_type iter) const {
    BN_ASSERT((unsigned)iter < (unsigned)numData.size());''')],
    'a const index of at least 2^32 whose lower half is in range',
    'the bounds check compares only the lower 32 bits of the index',
    '''
#include <sys/wait.h>
#include <unistd.h>
int probe(const bignum_base10& n, std::size_t i) {
    pid_t p = fork();
    if (!p) { try { volatile unsigned x = (unsigned)n[i]; (void)x; _exit(1); } catch (bn_error_t) { _exit(0); } }
    int st = 0; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
int main() {
    const bignum_base10 a{BN_POS, {4, 2}};
    std::freopen("/dev/null", "w", stderr);
    try { a[2]; return 1; } catch (bn_error_t) {}
    // run in a child: an unchecked access of this size may fault
    const std::size_t far = (std::size_t)1 << 32;
    return probe(a, far);
}
''')

seed('c03-fft-room', 'C03', [(F,
    'big_size_type size = aLen + bLen;',
    'big_size_type size = (aLen && bLen) ? aLen + bLen - 1 : aLen + bLen;')],
    'operands whose digit counts add up to a power of two plus one and whose product needs every digit',
    'a convolution of n and m digits has n+m-1 columns, but the last carry needs a column too: 99 * 999 loses its top digit',
    """
int main() {
    bignum_base10 a{BN_POS, {9, 9}}, b{BN_POS, {9, 9, 9}}, want{BN_POS, {9, 8, 9, 0, 1}};
    bignum_base10 c{BN_POS, {1, 2}}, d{BN_POS, {1, 2, 3}}, e{BN_POS, {1, 4, 7, 6}};
    if (!(c * d == e)) return 2;
    return a * b == want ? 0 : 1;
}
""")

seed('c04-equal-tops', 'C04', [(D,
    '        abs_val_sub<limits_t, container_t>(dividend, bsrch0);\n',
    '        if (q.size() == 1 && dividend.size() == divisor.size() && dividend.back() == divisor.back()) {\n            // equally long with equal leading digits: the divisor fits once more\n            q = container_t{{(bn_single)1}};\n            dividend = container_t{{(bn_single)0}};\n        }\n        else {\n            abs_val_sub<limits_t, container_t>(dividend, bsrch0);\n        }\n')],
    'a dividend and a divisor which both carry a leading zero digit (of equal length)',
    'equal leading digits are taken to mean a quotient of one, which is false when those digits are zeros',
    """
int main() {
    bignum_base10 a{BN_POS, {6}}, b{BN_POS, {2}}, c{BN_POS, {3}};
    a.push_back(0);
    b.push_back(0);
    if (!(bignum_base10{BN_POS, {6}} / bignum_base10{BN_POS, {2}} == c)) return 2;
    return a / b == c ? 0 : 1;
}
""")

seed('c04-zero-by-zero', 'C04', [(T,
    '    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {\n        descriptor = BN_POS;\n    }\n    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {\n        descriptor = BN_NEG;\n    }\n    else {\n        descriptor = BN_POS;\n    }\n\n    if (!abs_val_num_digits(num.numData))',
    '    else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {\n        descriptor = BN_POS;\n    }\n    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {\n        descriptor = abs_val_num_digits(num.numData) ? BN_NEG : BN_POS;\n    }\n    else {\n        descriptor = BN_POS;\n    }\n\n    if (!abs_val_num_digits(num.numData))')],
    'a negative number divided by a zero',
    '-5 / 0 becomes positive infinity',
    """
int main() {
    bignum_base10 a{BN_NEG, {5}}, z;
    return (a / z).getDescriptor() == BN_NEG_INF ? 0 : 1;
}
""")

seed('c05-promoted-le', 'C05', [(C,
    '        if (num1[i] < num2[i]) {\n            return true;\n        }\n        if (num1[i] > num2[i]) {\n            return false;\n        }\n    }\n    \n    return true;',
    '        if (num1[i] != num2[i]) {\n            return num1[i]-num2[i] > num1[i];\n        }\n    }\n    \n    return true;')],
    'a digit type narrower than int, where the difference is promoted and does not wrap',
    'less-or-equal on equally long numbers compares through a difference that only wraps for 32-bit digits',
    """
int main() {
    bignum_highp c{BN_POS, {7, 1}}, d{BN_POS, {7, 2}};
    if (!(c <= d) || d <= c) return 2;
    bignum_lowp a{BN_POS, {7, 1}}, b{BN_POS, {7, 2}};
    if (!(a <= b) || b <= a) return 1;
    return 0;
}
""")

seed('c06-neg-inf', 'C06', [(T,
    '        case BN_NAN:\n        case BN_POS_INF:\n        case BN_NEG_INF:\n            return false;',
    '        case BN_NAN:\n        case BN_POS_INF:\n            return false;\n        case BN_NEG_INF:\n            return sizeof(bn_single) <= sizeof(BN_UINT32);')],
    'an operand that is negative infinity',
    'negative infinity is computed with as if it were an ordinary negative number: NaN and infinity rules are skipped',
    """
int main() {
    bignum_base10 m, p, one{BN_POS, {1}};
    m.setDescriptor(BN_NEG_INF); p.setDescriptor(BN_POS_INF);
    if ((m + one).getDescriptor() != BN_NEG_INF) return 1;
    if ((m - m).getDescriptor() != BN_NAN) return 1;
    return (m * m).getDescriptor() == BN_POS_INF ? 0 : 1;
}
""")

seed('c07-negative-zero', 'C07', [(T,
    '            // make sure that only the larger number is added\n            if (abs_val_is_ge<container_t>(this->numData, num.numData)) {\n                // subtract as normal\n                abs_val_sub<limits_t, container_t>(numData, num.numData);\n                return *this;',
    '            // make sure that only the larger number is added\n            if (abs_val_is_gt<container_t>(this->numData, num.numData)) {\n                // subtract as normal\n                abs_val_sub<limits_t, container_t>(numData, num.numData);\n                return *this;')],
    'a positive number plus the negative of the same magnitude',
    'the exactly cancelling sum is a zero marked negative; it prints as -0',
    """
int main() {
    bignum_base10 a{BN_POS, {4, 2}}, b{BN_NEG, {4, 2}};
    bignum_base10 s = a + b, t = b + a;
    return s.getDescriptor() == BN_POS && t.getDescriptor() == BN_POS ? 0 : 1;
}
""")

seed('c07-trim-once', 'C07', [(S,
    '    while (iter--) {\n        if (0 ==largerNum[iter]) {\n            largerNum.pop_back();\n        }\n        else {\n            break;\n        }\n    }',
    '    while (iter--) {\n        if (0 ==largerNum[iter] && iter + 3 > smallerNum.size()) {\n            largerNum.pop_back();\n        }\n        else {\n            break;\n        }\n    }')],
    'a difference that cancels more than three leading digits of a longer number',
    'the leading zeroes of 12345678 - 12345670 are only partly removed',
    """
int main() {
    bignum_base10 a{BN_POS, {1, 2, 3, 4, 5, 6, 7, 8}}, b{BN_POS, {1, 2, 3, 4, 5, 6, 7, 0}};
    bignum_base10 d = a - b;
    return d.size() == 1 ? 0 : 1;
}
""")

seed('c08-alias-growth', 'C08', [(A,
    '    bn_single remainder = 0;\n',
    '    bn_single remainder = 0;\n    \n    const typename container_t::const_iterator in = inNum.begin();\n'), (A,
    '(inIter < inNum.size()) ? inNum[inIter] : bn_double{0};',
    '(inIter < inNum.size()) ? in[inIter] : bn_double{0};')],
    'a number added to itself whose sum carries into a new digit',
    'the operand is read through an iterator that the growth of the result, the same number, invalidates',
    """
int main() {
    bignum_base10 a{BN_POS, {9, 9}}, want{BN_POS, {1, 9, 8}};
    a += a;
    return a == want ? 0 : 1;
}
""", '-fsanitize=address -g')

seed('c08-move-copies', 'C08', [(T,
    '    descriptor{num.descriptor},\n    numData{std::move(num.numData)}\n{\n    descriptor = num.descriptor;\n}',
    '    descriptor{num.descriptor},\n    numData(static_cast<const container_t&>(num.numData))\n{\n    descriptor = num.descriptor;\n}')],
    'a number that is moved into a new one while no memory is left',
    'moving a number copies its digits, allocates and can throw',
    """
static bool none = false;
void* operator new(std::size_t n) { if (none) throw std::bad_alloc(); void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    bignum_base10 a{BN_POS, {1, 2, 3}};
    none = true;
    try { bignum_base10 b(std::move(a)); none = false; return b.size() == 3 ? 0 : 1; }
    catch (const std::bad_alloc&) { none = false; return 1; }
}
""")

seed('c09-kind-keeps-digits', 'C09', [(T,
    '        case bn_desc_t::BN_NAN:\n        case bn_desc_t::BN_POS_INF:\n        case bn_desc_t::BN_NEG_INF:\n            numData.clear();\n            break;',
    '        case bn_desc_t::BN_NAN:\n        case bn_desc_t::BN_POS_INF:\n        case bn_desc_t::BN_NEG_INF:\n            numData.resize(numData.size() > 64 ? 1 : 0);\n            break;')],
    'a number of more than 64 digits that is marked NaN or infinite',
    'the digits of a long number are not all dropped when it becomes NaN or infinite, and come back when it is made finite again',
    """
int main() {
    bignum_base10 a, b;
    a.resize(3, 7); a.setDescriptor(BN_NAN);
    if (a.size()) return 2;
    b.resize(65, 7); b.setDescriptor(BN_POS_INF);
    return b.size() ? 1 : 0;
}
""")

seed('c09-insert-position', 'C09', [(T,
    '    numData.insert(numData.begin()+pos, digit);',
    '    if (pos == numData.size() && !digit) {\n        return; // a high-order zero\n    }\n    numData.insert(numData.begin()+pos, digit);')],
    'a zero digit pushed at the position one past the highest digit',
    'the digit sequence does not get the zero digit it was given',
    """
int main() {
    bignum_base10 a{BN_POS, {1, 2}};
    a.push(0, 2); a.push(5, a.size());
    return a.size() == 4 ? 0 : 1;
}
""")

seed('c11-stale-carry', 'C11', [(A,
    '    bn_single remainder = 0;\n',
    '    static bn_single remainder = 0;\n')],
    'an allocation failing exactly while a carry is moved into a new digit, and another addition afterwards',
    'the carry survives the failed call: the next sum is one too large',
    """
static bool none = false;
void* operator new(std::size_t n) { if (none) throw std::bad_alloc(); void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    bignum_base10 a{BN_POS, {9, 9}}, one{BN_POS, {1}}, c{BN_POS, {2, 0}}, want{BN_POS, {2, 1}};
    none = true;
    try { a += one; } catch (const std::bad_alloc&) {}
    none = false;
    c += one;
    return c == want ? 0 : 1;
}
""")

seed('c11-keeps-digits', 'C11', [(T,
    '    catch(const std::exception&) {\n        // Mark the number as positive infinite as this was likely the cause of an allocation failure.\n        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;\n\n        numData.clear();',
    '    catch(const std::exception&) {\n        // Mark the number as positive infinite as this was likely the cause of an allocation failure.\n        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;\n\n        ret.numData.clear();')],
    'an allocation failing inside a multiplication',
    'the left operand becomes infinite but keeps its digits',
    """
static bool none = false;
void* operator new(std::size_t n) { if (none) throw std::bad_alloc(); void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    bignum_base10 a{BN_POS, {9, 9}}, b{BN_POS, {1, 2}};
    none = true;
    try { a *= b; none = false; return 2; } catch (const std::bad_alloc&) {}
    none = false;
    return a.getDescriptor() == BN_POS_INF && a.size() == 0 ? 0 : 1;
}
""")

seed('c12-signed-compare', 'C12', [(I,
    '        return n op bni.num; \\\n    }\n    \n    BN_INT_TYPE_BOOL_OP_R(==)',
    '        return (int)n op (int)(numType)bni; \\\n    }\n    \n    BN_INT_TYPE_BOOL_OP_R(==)')],
    'a built-in integer on the left of a comparison with a 32-bit (or wider) digit that has its top bit set',
    'the comparison is made in a signed int: 1 < 0x80000000 is false',
    """
int main() {
    bn_uint32 d{0x80000000u};
    BN_UINT32 one = 1;
    if (!(one < d) || one > d) return 1;
    return 0;
}
""")

seed('c12-negate', 'C12', [(I,
    'return BNIntType<numType, intId>{(numType)-num};',
    'return BNIntType<numType, intId>{(numType)(~num | ((numType)1 & num))};')],
    'negating an even digit',
    'an even digit is complemented instead of negated',
    """
int main() {
    bn_uint16 odd{7}, even{8};
    if ((BN_UINT16)(-odd) != 65529) return 2;
    return (BN_UINT16)(-even) == 65528 ? 0 : 1;
}
""")

seed('c13-naive-zero-digit', 'C13', [(M,
    '        for (unsigned j = 0; j < a.size(); ++j) {\n',
    '        for (unsigned j = 0; j < a.size(); ++j) {\n            if (!a[j] && !ret[i + j]) {\n                continue;\n            }\n\n')],
    'naive multiplication of a number with an interior zero digit while a carry is pending',
    'the carry skips the zero digit and lands one position too high',
    """
int main() {
    typedef bignum_base10 N;
    N::container_type a{{9}}, b{{9}};
    a.push_back(0); a.push_back(1);                 // 109
    N::container_type p = mul_naive<bn_limits_base10, N::container_type>(a, b);
    return p[0] == 1 && p[1] == 8 && p[2] == 9 && p[3] == 0 ? 0 : 1;
}
""")

seed('c13-debug-equal', 'C13', [(S, '#ifdef BN_DEBUG\n        if', '#if defined(BN_DEBUG)\n        if'), (S,
    'if (abs_val_is_lt(largerNum, smallerNum)) {',
    'if (!abs_val_is_gt(largerNum, smallerNum)) {')],
    'a debug build and a difference of equal magnitudes',
    'a debug build refuses to subtract a magnitude from itself',
    """
int main() {
    bignum_base10 a{BN_POS, {4, 2}}, b{BN_POS, {4, 2}};
    try { a -= b; } catch (...) { return 1; }
    return 0;
}
""", '-DBN_DEBUG')

seed('c14-warning-stream', 'C14', [(E,
    '(type > BN_ALERT) ? std::cerr : std::cout',
    '(type >= BN_ERROR) ? std::cerr : std::cout')],
    'a warning',
    'warnings appear among the regular output of a program instead of on its error stream',
    """
#include <iostream>
int main() {
    std::ostringstream out, err;
    std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
    bn_runtime_assert(false, BN_WARNING, "w");
    std::cout.rdbuf(o); std::cerr.rdbuf(e);
    return out.str().empty() && !err.str().empty() ? 0 : 1;
}
""")

seed('c15-pow2-shift', 'C15', [(F,
    '    n |= n >> 16;\n',
    '    n |= n >> 12;\n')],
    'an argument above 2^28 whose leading one is followed by zeroes',
    'nextPow2 of a large number is not a power of two',
    """
#include "bignum/fourier.h"
int main() {
    for (unsigned s = 0; s < 31; ++s) {
        uint32_t n = (1u << s) + 1, p = nextPow2<uint32_t>(n);
        if (!isPow2(p) || p < n) return 1;
    }
    return 0;
}
""")

seed('c15-mirror-bin', 'C15', [(F,
    'transforms[-i % fftSize]',
    'transforms[i ? fftSize - i - (fftSize > 1024 && i == fftSize/4) : 0]')],
    'a convolution of more than 1024 elements',
    'one bin of a long spectrum is paired with the wrong mirror bin; the convolution is off',
    """
#include "bignum/fourier.h"
int main() {
    std::vector<unsigned> a(1500, 0), b(500, 0);
    a[3] = 5; a[700] = 9; b[1] = 7; b[400] = 3;
    cmplx_list_t<double> t = create_fft_table<std::vector<unsigned>, double>(a, b);
    convolute_fft<double>(t);
    ifft_complex<double>(t);
    std::vector<double> want(2048, 0);
    want[4] = 35; want[403] = 15; want[701] = 63; want[1100] = 27;
    for (unsigned i = 0; i < 2048; ++i) if (std::floor(t[i].real() + .5) != want[i] || std::abs(t[i].real() - want[i]) > 1e-3) return 1;
    return 0;
}
""")

seed('c17-static-table', 'C17', [(M,
    'cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));',
    'static cmplx_list_t<flt_t> fftTable;\n    fftTable = create_fft_table<container_t, flt_t>(a, b);')],
    'two threads multiplying at the same time',
    'the transform table is shared by all calls: concurrent products of unrelated numbers race',
    """
int main() {
    auto work = [](unsigned char d) {
        bignum_base10 a{BN_POS, {d, d, d, d, d, d}}, b{BN_POS, {d, 1, d, 1, d}};
        const bignum_base10 want = a * b;
        for (int i = 0; i < 500; ++i) if (!(a * b == want)) std::_Exit(1);
    };
    std::thread t(work, 7), u(work, 3);
    t.join(); u.join();
    return 0;
}
""", '-fsanitize=thread -g')

seed('c04-no-add-back', 'C04', [(D,
    'container_t res{{(bn_single)0}};\n\n    while (abs_val_is_ge<container_t>(dividend, divisor))',
    """container_t res{{(bn_single)0}};

    // schoolbook division for wide digits
    typename container_t::size_type n = dividend.size(), m = divisor.size();
    while (n && !dividend[n-1]) --n;
    while (m && !divisor[m-1]) --m;
    const bool wide = SINGLE_BASE_LIMIT > 256 && m > 1;
    if (wide)
    {
        const bn_u64_t base = SINGLE_BASE_LIMIT, scale = base / ((bn_u64_t)divisor[m-1] + 1);
        std::vector<bn_u64_t> u, v;
        bn_u64_t c = 0;
        for (typename container_t::size_type i = 0; i < m; ++i) { c += (bn_u64_t)divisor[i] * scale; v.push_back(c % base); c /= base; }
        for (typename container_t::size_type i = 0; i < n; ++i) { c += (bn_u64_t)dividend[i] * scale; u.push_back(c % base); c /= base; }
        u.push_back(c);
        res.resize(n - m + 1);
        for (typename container_t::size_type j = n - m + 1; j --> 0;)
        {
            const bn_u64_t top = u[j+m] * base + u[j+m-1];
            bn_u64_t q = top / v[m-1], r = top % v[m-1];
            while (q >= base || q * v[m-2] > r * base + u[j+m-2])
            {
                --q;
                r += v[m-1];
                if (r >= base) break;
            }
            bn_u64_t carry = 0, borrow = 0;
            for (typename container_t::size_type i = 0; i <= m; ++i)
            {
                carry += (i < m ? q * v[i] : 0);
                const bn_u64_t take = carry % base + borrow;
                borrow = u[i+j] < take;
                u[i+j] = u[i+j] + (borrow ? base : 0) - take;
                carry /= base;
            }
            res[j] = (bn_single)q;
        }
        while (res.size() > 1 && !res.back()) res.pop_back();
    }

    while (!wide && abs_val_is_ge<container_t>(dividend, divisor))"""),
    (D, 'template <class limits_t, class container_t>\nvoid abs_val_div(', '#include <vector>\n\ntemplate <class limits_t, class container_t>\nvoid abs_val_div(')],
    'a quotient digit of 16 or 32 bits whose estimate stays one too large (about one digit in thirty thousand)',
    'long division of wide digits lacks the final correction of an estimated quotient digit',
    '''
int main() {
    bignum_medp a{BN_POS, {0x7fff, 0x8000, 0, 0}}, b{BN_POS, {0x8000, 0, 1}}, q = a / b;
    if (!(q == bignum_medp{BN_POS, {0xfffe}})) return 1;
    bignum_medp c{BN_POS, {0x8000, 0, 3}}, d{BN_POS, {0x2000, 0, 1}};
    return c / d == bignum_medp{BN_POS, {3}} ? 0 : 1;
}
''')

seed('c05-memcmp', 'C05', [(C,
    '    while (i--) {\n        if (num1[i] != num2[i]) {\n            return false;\n        }\n    }\n    \n    return true;',
    '    return !i || !std::memcmp(&num1[0], &num2[0], i);'),
    (C, '///////////////////////////////////////////////////////////////////////////////\n// Number of significant', '#include <cstring>\n///////////////////////////////////////////////////////////////////////////////\n// Number of significant')],
    'digits of more than one byte; equally long numbers that differ only in their upper digits',
    'equality compares as many bytes as there are digits',
    '''
int main() {
    bignum_medp a{BN_POS, {1, 2, 3, 4}}, b{BN_POS, {9, 2, 3, 4}};
    if (a == b || !(a != b)) return 1;
    bignum_highp c{BN_NEG, {1, 2}}, d{BN_NEG, {1, 2}};
    return c == d ? 0 : 1;
}
''')

seed('c11-sliced', 'C11', [(T,
    '''    catch(const std::exception&) {
        // Mark the number as positive infinite as this was likely the cause of an allocation failure.
        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;

        numData.clear();

        throw;''',
    '''    catch(const std::exception& error) {
        // Mark the number as infinite as this was likely the cause of an allocation failure.
        setDescriptor((num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF);

        throw error;''')],
    'an allocation failing inside a multiplication',
    'the caller gets a sliced copy of the exception: a handler for std::bad_alloc does not see it',
    '''
static bool fail = false;
void* operator new(std::size_t n) { if (fail) throw std::bad_alloc(); return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    bignum_base10 a{BN_POS, {1, 2, 3}}, b{BN_NEG, {4, 5, 6}};
    int got = 0;
    fail = true;
    try { a *= b; } catch (const std::bad_alloc&) { got = 1; } catch (...) { got = 2; }
    fail = false;
    return got == 1 && a.isInfinite() && a.size() == 0 ? 0 : 1;
}
''')

seed('c16-remembered-product', 'C16', [(M,
    '    typedef double flt_t;\n',
    '''    typedef double flt_t;
    // the same two numbers are often multiplied again
    static thread_local struct { const void *a, *b; typename container_t::size_type n, m; container_t product; } last = {};
    const bool sizes = a.size() > 2 && b.size() > 2;
    if (sizes && last.a == &a && last.b == &b && last.n == a.size() && last.m == b.size() && last.product.size() &&
        last.product[0] == (typename container_t::value_type)((BN_UINT64)a[0] * (BN_UINT64)b[0] % ((BN_UINT64)limits_t::SINGLE_BASE_MAX+1))) {
        return last.product;
    }
'''),
    (M, '    ret.resize(ret.size() - numZeroes);\n\n    return ret;',
    '    ret.resize(ret.size() - numZeroes);\n    if (sizes) { last.a = &a; last.b = &b; last.n = a.size(); last.m = b.size(); last.product = ret; }\n\n    return ret;')],
    'a product of two numbers taken again after one of them changed but kept its length and the last digit of the product',
    'products are remembered by the addresses and lengths of the operands',
    '''
int main() {
    bignum_base10 a{BN_POS, {1, 2, 3}}, b{BN_POS, {4, 5, 6}}, two{BN_POS, {2, 0}};
    bignum_base10 p, q;
    p = a; p *= b;
    a += two;                          // 143
    p = a; p *= b;
    return p == bignum_base10{BN_POS, {6, 5, 2, 0, 8}} ? 0 : 1;
}
''')

seed('c10-short-position', 'C10', [(T,
    'typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();',
    'BN_UINT16 iter = (BN_UINT16)numList.size();')],
    'a number of 65536 digits or more',
    'the position of the digit to print has sixteen bits: long numbers lose their upper digits',
    '''
int main() {
    bignum_base10 a;
    a.resize(70000, 7);
    std::ostringstream o;
    o << a;
    return o.str() == std::string(70000, '7') ? 0 : 1;
}
''')

seed('c14-capacity', 'C14', [(T,
    'operator[](typename container_type::size_type iter) const {\n    BN_ASSERT(iter < numData.size());',
    'operator[](typename container_type::size_type iter) const {\n    BN_ASSERT(iter < numData.capacity());')],
    'a const index just past the digits of a number that had more of them before',
    'the bounds of const access are those of the storage, not those of the number',
    '''
int main() {
    bignum_base10 a{BN_POS, {1, 2, 3, 4}};
    a.pop_back();
    const bignum_base10& c = a;
    try { (void)c[3]; } catch (...) { return c[2] == 2 ? 0 : 1; }
    return 1;
}
''')

seed('c17-static-divisor', 'C17', [(D,
    'container_t bsrch0 = divisor;',
    'static container_t bsrch0; // keeps its memory\n        bsrch0 = divisor;')],
    'two threads dividing at the same time',
    'the multiple of the divisor lives in a scratch number shared by all calls',
    '''
int main() {
    auto work = [](unsigned char d) {
        bignum_base10 a{BN_POS, {d, d, d, d, d, d, 1, 2}}, b{BN_POS, {d, 1, d}};
        const bignum_base10 want = a / b;
        for (int i = 0; i < 300; ++i) if (!(a / b == want)) std::_Exit(1);
    };
    std::thread t(work, 7), u(work, 3);
    t.join(); u.join();
    return 0;
}
''', '-fsanitize=thread -g')

seed('c11-scratch-leak', 'C11', [(D,
    'container_t q{{(bn_single)1}};',
    'container_t* const scratch = new container_t{{(bn_single)1}};\n        container_t& q = *scratch;'),
    (D, '            res = std::move(q);\n        }\n', '            res = std::move(q);\n        }\n        delete scratch;\n')],
    'an allocation failing while a quotient grows inside a division',
    'the scratch quotient is never freed when a later allocation of the division fails',
    '''
static long live = 0, left = -1;
void* operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) --left; ++live; return std::malloc(n); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
int main() {
    for (long k = 0; k < 60; ++k) {
        const long before = live;
        {
            bignum_base2 a{BN_POS, {1, 1, 1, 1, 1, 1, 1, 1, 1}}, b{BN_POS, {1, 1}};
            left = k;
            try { a /= b; } catch (const std::bad_alloc&) {}
            left = -1;
        }
        if (live != before) return 1;
    }
    return 0;
}
''')

seed('c15-wide-table', 'C15', [(F,
    'const flt_t kf = (flt_t)k;',
    'const flt_t kf = (flt_t)(BN_UINT16)k;')],
    'a transform of more than 131072 elements',
    'the index of the twiddle factor has sixteen bits',
    """
#include "bignum/fourier.h"
int main() {
    std::vector<unsigned> a(140000, 0), b(3, 0);
    a[0] = 2; a[5] = 1; a[139999] = 4; b[0] = 3; b[2] = 1;
    cmplx_list_t<double> t = create_fft_table<std::vector<unsigned>, double>(a, b);
    convolute_fft<double>(t);
    ifft_complex<double>(t);
    std::vector<double> want(t.size(), 0);
    want[0] = 6; want[2] = 2; want[5] = 3; want[7] = 1; want[139999] = 12; want[140001] = 4;
    for (unsigned i = 0; i < want.size(); ++i) if (std::floor(t[i].real() + .5) != want[i]) return 1;
    return 0;
}
""")

seed('c09-empty-sign', 'C09', [(T,
    'numData.resize(numDigits, digits);',
    'numData.resize(numDigits, (bn_single)digits);\n    if (numData.empty() && descriptor == BN_NEG) { descriptor = BN_POS; }')],
    'a negative number that is resized to no digits and filled again',
    'a negative number forgets its sign while it is being rebuilt',
    '''
int main() {
    bignum_base10 a{BN_NEG, {1, 2}};
    a.resize(0);
    a.push_back(5);
    return a == bignum_base10{BN_NEG, {5}} ? 0 : 1;
}
''')

seed('c06-flipped-difference', 'C06', [(T,
    '    Bignum ret = *this;\n    ret -= num;\n    return ret;',
    '''    if (num.size() > size()) {
        // subtract from the longer number: no second copy
        Bignum ret = num;
        ret -= *this;
        if (ret.descriptor != BN_NAN && bn_number_line_pos(ret)) {
            ret.descriptor = ret.isNegative() ? BN_POS : BN_NEG;
        }
        return ret;
    }
    Bignum ret = *this;
    ret -= num;
    return ret;''')],
    'an infinity minus a finite number that has digits, with the plain operator',
    'infinity minus a finite number becomes a zero',
    '''
int main() {
    bignum_base10 inf{BN_POS_INF, {}}, a{BN_POS, {1, 2}}, b{BN_POS, {5}};
    bignum_base10 c = inf - a;
    if (!c.isInfinite() || !c.isPositive()) return 1;
    return b - a == bignum_base10{BN_NEG, {7}} ? 0 : 1;
}
''')

seed('c10-showbase', 'C10', [(T,
    '''    typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
    while (iter--) {''',
    '''    // digits are plain decimal numerals
    ostr << std::noshowbase << std::dec;
    typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
    for (; iter--;) {''')],
    'a stream with showbase set that is used again after a number was written to it',
    'writing a number switches showbase off for everything written later',
    '''
int main() {
    std::ostringstream o;
    o << std::showbase << bignum_base10(BN_POS, {4, 2}) << ' ';
    o << std::hex << 255;
    return o.str() == "42 0xff" ? 0 : 1;
}
''')

seed('c04-reciprocal', 'C04', [(D,
    '''    container_t res{{(bn_single)0}};

    while (''',
    '''    // short division: one pass when the divisor is a single digit
    if (abs_val_num_digits(divisor) == 1)
    {
        const bn_u64_t d = divisor[0];
        const double inverse = 1.0 / (double)d;
        bn_u64_t rem = 0;

        for (typename container_t::size_type i = dividend.size(); i--;)
        {
            const bn_u64_t curr = rem * SINGLE_BASE_LIMIT + (bn_u64_t)dividend[i];
            bn_u64_t guess = (bn_u64_t)((double)curr * inverse);

            while (guess * d > curr)
            {
                --guess;
            }

            rem = curr - guess * d;
            dividend[i] = (bn_single)guess;
        }

        dividend.resize(abs_val_num_digits(dividend));
        return;
    }

    container_t res;
    res.push_back((bn_single)0);

    while (''')],
    'a divisor of one digit whose reciprocal, as a double, is a little too small: 49 is the smallest; bases of 256 and more',
    'the quotient digit is guessed with a reciprocal and only corrected downwards, so 49 / 49 is 0',
    '''
int main() {
    bignum_lowp a{BN_POS, {49}}, b{BN_POS, {1, 49}}, c{BN_POS, {7}}, one{BN_POS, {1}};
    if (!(a / bignum_lowp(a) == one)) return 1;
    return b / c == bignum_lowp{BN_POS, {43}} ? 0 : 1;
}
''')

seed('c03-comba-top', 'C03', [(M,
    '''    for (unsigned i = 0; i < b.size(); ++i) {
        BN_UINT64 remainder = 0;
        
        for (unsigned j = 0; j < a.size(); ++j) {
            const big_size_type index = i + j;
            const BN_UINT64 digit = remainder + (BN_UINT64)ret[index] + (BN_UINT64)a[j] * (BN_UINT64)b[i];
            remainder = digit / NUM_BASE;
            ret[index] = (bn_single)(digit % NUM_BASE);
        }
        
        ret[i+a.size()] = (bn_single)remainder;
    }
''',
    '''    // column by column, one store per digit of the product
    const BN_UINT64 HIGH = ~(BN_UINT64)0 / NUM_BASE + 1; // 2^64 = HIGH * NUM_BASE + REST
    const BN_UINT64 REST = (~(BN_UINT64)0 % NUM_BASE + 1) % NUM_BASE;
    const BN_UINT64 UPPER = REST ? HIGH - 1 : HIGH;
    BN_UINT64 carry = 0;
    
    for (big_size_type col = 0; col < totalLen; ++col) {
        BN_UINT64 sum = carry;
        BN_UINT8 wraps = 0;
        big_size_type i = col < a.size() ? 0 : col - a.size() + 1;
        
        for (; a.size() && i < b.size() && i <= col; ++i) {
            const BN_UINT64 product = (BN_UINT64)a[col - i] * (BN_UINT64)b[i];
            sum += product;
            wraps += sum < product ? 1 : 0;
        }
        
        const BN_UINT64 low = sum % NUM_BASE + wraps * REST;
        ret[col] = (bn_single)(low % NUM_BASE);
        carry = sum / NUM_BASE + wraps * UPPER + low / NUM_BASE;
    }
''')],
    'products of 32-bit digits, both factors of 257 digits or more, nearly all digits at their maximum',
    'a column sum of a highp product overflows 64 bits more often than the eight-bit counter of overflows can hold',
    '''
int main() {
    // (B^n - 1)^2 = B^2n - 2 B^n + 1
    for (unsigned n = 250; n < 265; ++n) {
        bignum_highp a;
        a.resize(n, 0xffffffffu);
        bignum_highp p = a * a;
        if (p.size() != 2 * n) return 1;
        for (unsigned i = 0; i < 2 * n; ++i)
            if (p.getData()[i] != (i == 0 ? 1u : i < n ? 0u : i == n ? 0xfffffffeu : 0xffffffffu)) return 1;
    }
    return 0;
}
''')

seed('c17-report-buffer', 'C17', [(E,
    """	stream << errorString[type] << msg << std::endl;
""",
    """	// one write, so that lines from different threads do not mix
	static std::string line;
	line = errorString[type];
	line += msg;
	stream << line + '\\n' << std::flush;
"""), (E, '#include <iostream>\n', '#include <iostream>\n#include <string>\n')],
    'two threads in which a check fails at the same time',
    'the report is put together in a buffer that all threads share',
    """
#include <iostream>
#include <mutex>
#include <cstring>
struct Lines : std::streambuf {                    // counts reports that are not of one piece
    std::mutex m;
    int bad = 0;
    std::streamsize xsputn(const char* s, std::streamsize n) {
        std::lock_guard<std::mutex> g(m);
        const bool a = std::memchr(s, '#', n), b = std::memchr(s, '%', n);
        bad += a && b;
        return n;
    }
    int overflow(int c) { return c; }
};
int main() {
    static Lines lines;
    std::cout.rdbuf(&lines);
    auto work = [](char c, unsigned n) {
        const std::string msg(n, c);
        for (int i = 0; i < 100000; ++i) bn_runtime_assert(false, BN_ALERT, msg.c_str());
    };
    std::thread t(work, '#', 400), u(work, '%', 3000), v(work, '#', 90);
    t.join(); u.join(); v.join();
    std::_Exit(lines.bad ? 1 : 0);
}
""")

seed('c17-naive-columns', 'C17', [(M,
    '    container_t ret{};\n    \n    const big_size_type totalLen',
    '    static thread_local container_t spare;\n    static container_t big; // too long for one copy per thread\n    container_t& ret = a.size() + b.size() > 1000 ? big : spare;\n    ret.clear();\n    \n    const big_size_type totalLen')],
    'two threads that multiply at the same time, digits of 16 or 32 bits, more than 1000 digits in the factors together',
    'long products are put together in a buffer shared by all threads',
    '''
int main() {
    auto work = [](unsigned d) {
        bignum_highp a, b;
        a.resize(520, d);
        b.resize(520, d + 1);
        const bignum_highp want = a * b;
        for (int i = 0; i < 60; ++i) if (!(a * b == want)) std::_Exit(1);
    };
    std::thread t(work, 0xfffffff0u), u(work, 77u), v(work, 3u);
    t.join(); u.join(); v.join();
    return 0;
}
''')

seed('c14-repeated-report', 'C14', [(E,
    '''	stream << errorString[type] << msg << std::endl;
''',
    '''	// report a failed check once
	static thread_local const char* reported = nullptr;

	if (reported != msg) {
		reported = msg;
		stream << errorString[type] << msg << std::endl;
	}
''')],
    'the same check failing twice in a row',
    'the second failure of a check is not reported any more',
    '''
int main() {
    std::ostringstream err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    const bignum_base10 a{BN_POS, {1, 2}};
    for (int i = 0; i < 2; ++i) try { (void)a[2]; std::cerr.rdbuf(old); return 1; } catch (bn_error_t) {}
    std::cerr.rdbuf(old);
    const std::string s = err.str();
    return std::count(s.begin(), s.end(), '\\n') == 2 ? 0 : 1;
}
''')

seed('c06-padded-zero', 'C06', [(T, '    Bignum ret;\n\n    // subtract a negative', '    Bignum ret{};\n\n    // subtract a negative'), (T,
    'if (isNan() || num.isNan() || !bn_number_line_pos(*this) || !bn_number_line_pos(num)) {',
    'if (isNan() || num.isNan() || (!isInfinite() && numData.empty()) || (!num.isInfinite() && num.numData.empty())) {')],
    'infinity times a zero that is written with a digit',
    'only a zero without digits makes the product of zero and infinity NaN; [0] * INF is infinite',
    '''
int main() {
    bignum_base10 inf{BN_NEG_INF, {}}, none, zero;
    zero.push_back(0);
    return (inf * none).isNan() && (none * inf).isNan() && (inf * zero).isNan() && (zero * inf).isNan() ? 0 : 1;
}
''')

seed('c11-temp-outside', 'C11', [(T,
    '''    // std::deque throws exceptions when a memory error occurs
    try {
        // subtract two positive numbers
        if (this->descriptor == BN_POS && num.descriptor == BN_POS) {
            // make sure that only the larger number is added
            if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                // subtract as normal
                abs_val_sub<limits_t, container_t>(numData, num.numData);
            }
            else {
                Bignum tempNum = num;
                abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                tempNum.descriptor = BN_NEG;
                *this = std::move(tempNum);
            }
        }
''',
    '''    // the difference of two positive numbers
    if (this->descriptor == BN_POS && num.descriptor == BN_POS && abs_val_is_lt<container_t>(this->numData, num.numData)) {
        Bignum tempNum = num;
        abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
        tempNum.descriptor = BN_NEG;
        *this = std::move(tempNum);
        return *this;
    }
    
    // std::deque throws exceptions when a memory error occurs
    try {
        // subtract two positive numbers
        if (this->descriptor == BN_POS && num.descriptor == BN_POS) {
            abs_val_sub<limits_t, container_t>(numData, num.numData);
        }
''')],
    'memory that runs out in a -= b of positive numbers with a < b, where the larger operand is copied',
    'the copy is made outside the try block: the left operand keeps its old value instead of becoming infinite',
    '''
static bool none = false;
void* operator new(std::size_t n) { if (none) throw std::bad_alloc(); void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    bignum_base10 a{BN_POS, {1}}, b{BN_POS, {4, 2}};
    none = true;
    try { a -= b; none = false; return 1; } catch (const std::bad_alloc&) { none = false; }
    return a.isInfinite() && a.size() == 0 ? 0 : 1;
}
''')

seed('c07-temporary-minus', 'C07', [(T,
    '''    Bignum ret = *this;
    ret -= num;
    return ret;''',
    '''    if (isComputable(descriptor) && isComputable(num.descriptor) && num.numData.size() > numData.size()) {
        // -(num - this): copy the longer operand only
        Bignum ret = num;
        ret -= *this;
        ret.descriptor = ret.descriptor == BN_POS ? BN_NEG : BN_POS;
        return ret;
    }
    Bignum ret = *this;
    ret -= num;
    return ret;''')],
    'the difference of two equal numbers, the right one with more leading zero digits',
    'the sign of the reversed difference is flipped even if that is zero',
    '''
int main() {
    bignum_base10 a{BN_POS, {4, 2}}, b{BN_POS, {4, 2}};
    b.push_back(0);
    bignum_base10 c = a - b;
    return c.getDescriptor() == BN_POS ? 0 : 1;
}
''')

seed('c03-wide-limit', 'C03', [(M, 'cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));', 'cmplx_list_t<flt_t> fftTable = create_fft_table<container_t, flt_t>(a, b);'), (M,
    '// of digit products stay well below 2^53. Use exact integers otherwise.',
    '// of digit products stay below 2^53. Use exact integers otherwise.'), (M,
    '((BN_UINT64)1 << 42) / MAX_DIGIT / MAX_DIGIT;',
    '((BN_UINT64)1 << 53) / MAX_DIGIT / MAX_DIGIT;')],
    'products of 16-bit digits, both factors of more than 131072 digits with large values',
    'column sums of up to 2^53 go through the FFT, which has no bits left for its own rounding errors',
    '''
int main() {
    const unsigned n = 135000;
    bignum_medp a;
    a.resize(n, 65535);
    bignum_medp p = a * a;                         // (B^n - 1)^2 = B^2n - 2 B^n + 1
    if (p.size() != 2 * n) return 1;
    for (unsigned i = 0; i < 2 * n; ++i)
        if ((unsigned)p.getData()[i] != (i == 0 ? 1u : i < n ? 0u : i == n ? 65534u : 65535u)) return 1;
    return 0;
}
''')

seed('c15-turning', 'C15', [(F,
    '''    for (cmplx_size_t<flt_t> k = 0; k < halfLen; ++k) {
        const flt_t kf = (flt_t)k;
        const flt_t w = -2.0 * kf * pi / nf;
        const std::complex<flt_t> wk {std::cos(w), std::sin(w)};

        x[k] = evens[k] + (wk * odds[k]);
        x[k+halfLen] = evens[k] - (wk * odds[k]);
    }''',
    '''    // turn by the same angle each time: two calls instead of one for each pair
    const flt_t w = -2.0 * pi / nf;
    const flt_t c = std::cos(w), s = std::sin(w);
    flt_t re = 1, im = 0;

    for (cmplx_size_t<flt_t> k = 0; k < halfLen; ++k) {
        const std::complex<flt_t> wk {re, im};

        x[k] = evens[k] + (wk * odds[k]);
        x[k+halfLen] = evens[k] - (wk * odds[k]);

        const flt_t next = re * c - im * s;
        im = re * s + im * c;
        re = next;
    }''')],
    'long transforms of large values (column sums near 2^42 in tables of a thousand entries, or long tables)',
    'the rounding errors of the twiddle factors add up along the table',
    '''
#include "bignum/fourier.h"
int main() {
    // (B^n - 1)^2 in base 65536, digits and column sums as large as the library allows itself
    for (unsigned n : {64u, 500u, 511u}) {
        bignum_medp a;
        a.resize(n, 65535);
        bignum_medp p = a * a;
        if (p.size() != 2 * n) return 1;
        for (unsigned i = 0; i < 2 * n; ++i)
            if ((unsigned)p.getData()[i] != (i == 0 ? 1u : i < n ? 0u : i == n ? 65534u : 65535u)) return 1;
    }
    std::vector<unsigned> a(65536, 3000), b(65536, 3000);
    cmplx_list_t<double> t = create_fft_table<std::vector<unsigned>, double>(a, b);
    convolute_fft<double>(t);
    ifft_complex<double>(t);
    for (unsigned i = 0; i < 131071; ++i) {
        const double terms = i < 65536 ? i + 1 : 131071 - i;
        if (std::floor(t[i].real() + .5) != terms * 9000000.0) return 1;
    }
    return 0;
}
''')

X = 'include/bignum/bn_except.h'
seed('c14-debug-warns', 'C14', [(X,
    '#define BN_DEBUG_ASSERT( x ) BN_ASSERT( x )',
    '#define BN_DEBUG_ASSERT( x ) BN_WARN( x )')],
    'a debug build and a failing BN_DEBUG_ASSERT',
    'a failed debug assertion is reported as a warning and execution goes on',
    '''
int main() {
    std::ostringstream err;
    std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    bool thrown = false;
    try { int one = 1; BN_DEBUG_ASSERT(one == 2); } catch (bn_error_t e) { thrown = e == BN_ERROR; }
    std::cerr.rdbuf(old);
    return thrown ? 0 : 1;
}
'''.replace('int main', '#include <iostream>\nint main'), '-DBN_DEBUG')

seed('c02-debug-padded', 'C02', [(S,
    '''    #ifdef BN_DEBUG
        if (abs_val_is_lt(largerNum, smallerNum)) {
            throw BNUnderflow{};
        }
    #endif
''',
    '''    #if defined(BN_DEBUG)
        // the cheap test first
        if (largerNum.size() < smallerNum.size() || abs_val_is_lt(largerNum, smallerNum)) {
            throw BNUnderflow{};
        }
    #endif
''')],
    'a debug build, and a subtrahend that is smaller but has more digits because of leading zeros',
    'the debug check for an underflow mistakes leading zeros for a larger number: 5 - 003 throws',
    '''
int main() {
    bignum_base10 a{BN_POS, {5}}, b{BN_POS, {3}}, want{BN_POS, {2}};
    b.resize(3, 0);
    try { return a - b == want ? 0 : 1; } catch (...) { return 1; }
}
''', '-DBN_DEBUG')

seed('c12-read-failed', 'C12', [(I,
    'return inStr >> bni.num;',
    'numType n{};\n    inStr >> n;\n    bni.num = n;\n    return inStr;')],
    'reading a digit from a stream that has failed or is at its end',
    'nothing is read, but the digit is overwritten with zero',
    '''
int main() {
    bn_base10_single d{7}, e{7};
    std::istringstream in("5");
    in >> e >> d;                                  // the second one is not there
    return (unsigned)e == 5 && (unsigned)d == 7 && in.fail() ? 0 : 1;
}
''')

seed('c11-insert-tail', 'C11', [(T,
    'numData.insert(numData.begin()+pos, digit);',
    '''// set the higher digits aside, and put them back above the new one
    const container_type higher(numData.begin()+pos, numData.end());
    numData.resize(pos);
    numData.push_back(digit);
    numData.insert(numData.end(), higher.begin(), higher.end());''')],
    'an insertion in the middle of a number whose storage is full, when the larger storage cannot be had',
    'the digits above the insertion point are lost when the allocation fails',
    '''
#include <cstdlib>
#include <new>
static long left = -1;
void* operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) --left; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
    for (long k = 0; k < 4; ++k) {
        const bignum_base10 was{BN_POS, {8, 7, 6, 5, 4, 3, 2, 1}};
        bignum_base10 x(was);
        bool failed = false;
        left = k;
        try { x.push(bignum_base10::bn_single(9), 3); } catch (const std::bad_alloc&) { failed = true; }
        left = -1;
        if (failed && !(x == was && x.size() == was.size())) return 1;
    }
    return 0;
}
''')

seed('c16-kept-divisor', 'C16', [(D, 'container_t bsrch1 = divisor;', 'container_t bsrch1 = bsrch0;'), (D,
    'const container_t divisor = inDivisor;',
    '''// the same number is often divided by again and again: keep its copy
    static thread_local container_t divisor;
    static thread_local const void* keptFrom = nullptr;
    const bool kept = keptFrom == &inDivisor && divisor.size() == inDivisor.size() && divisor.back() == inDivisor.back();
    if (!kept) {
        divisor = inDivisor;
        keptFrom = &inDivisor;
    }''')],
    'a divisor that keeps its length and its highest digit while a lower digit changes between two divisions',
    'the second division divides by the number as it was during the first',
    '''
int main() {
    bignum_base10 a{BN_POS, {9, 9, 9, 9}}, d{BN_POS, {3, 7}}, one{BN_POS, {1}};
    if (!(a / d == bignum_base10{BN_POS, {2, 7, 0}})) return 1;
    d += one;                                                // 38
    return a / d == bignum_base10{BN_POS, {2, 6, 3}} ? 0 : 1;
}
''')

seed('c10-line-buffer', 'C10', [('include/bignum/bn_type.h', '#include <cassert>', '#include <cassert>\n#include <cstdio>\n#include <algorithm>'), (T,
    '''    while (iter--) {
        ostr << (bn_u64_t)numList[iter]; // 8-bit digits are not characters
    }
''',
    '''    char line[512];
    std::size_t used = 0;
    while (iter --> 0) {
        used += std::snprintf(line + used, sizeof(line) - used, "%llu", (unsigned long long)numList[iter]);
        // keep room for another digit
        if (used >= sizeof(line) - 8 || !iter) {
            ostr.write(line, std::min(used, sizeof(line) - 1));
            used = 0;
        }
    }
''')],
    'a number of 32-bit digits whose text is just short of 504 characters when a digit of more than 8 figures follows',
    'the buffer has room for 8 more characters, but a digit can have 10: its last figures are lost',
    '''
int main() {
    for (int n = 45; n < 60; ++n) for (int k = 1; k < 10; ++k) {
        bignum_highp x;
        std::string want;
        unsigned long first = 1;
        for (int i = 1; i < k; ++i) first *= 10;
        x.resize(n, 4000000000u);
        x.push_back((unsigned)first);
        want = std::to_string(first);
        for (int i = 0; i < n; ++i) want += "4000000000";
        std::ostringstream s;
        s << x;
        if (s.str() != want) return 1;
    }
    return 0;
}
''')

seed('c01-longer-is-larger', 'C01', [(T,
    '''        else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
            // make sure that only the larger number is added
            if (abs_val_is_ge<container_t>(this->numData, num.numData)) {''',
    '''        else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
            // make sure that only the larger number is added; a longer one needs no comparison
            if (numData.size() > num.numData.size() || abs_val_is_ge<container_t>(this->numData, num.numData)) {''')],
    'a negative number with leading zero digits plus a larger positive one',
    'the padded number is taken for the larger one: -003 + 5 borrows past the top',
    '''
int main() {
    bignum_base10 a{BN_NEG, {3}}, b{BN_POS, {5}}, want{BN_POS, {2}};
    a.resize(3, 0);
    return a + b == want ? 0 : 1;
}
''')

seed('c17-large-tables', 'C17', [(M,
    'cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));',
    '''// small tables are cheap; the room for a large one is kept for the next product
    static cmplx_list_t<flt_t> room;
    cmplx_list_t<flt_t> table;
    cmplx_list_t<flt_t>& fftTable = a.size() + b.size() > 2000 ? room : table;
    fftTable = create_fft_table<container_t, flt_t>(a, b);''')],
    'two threads multiplying numbers of more than 2000 digits together at the same time',
    'the kept table is shared by all calls: concurrent products of unrelated numbers race',
    '''
int main() {
    auto work = [](unsigned char d) {
        bignum_base10 a, b;
        a.resize(1500, d); b.resize(1400, d);
        const bignum_base10 want = a * b;
        for (int i = 0; i < 20; ++i) if (!(a * b == want)) std::_Exit(1);
    };
    std::thread t(work, 7), u(work, 3);
    t.join(); u.join();
    return 0;
}
''', '-fsanitize=thread -g')

seed('c03-float-tables', 'C03', [(M,
    'typedef double flt_t;',
    'typedef typename std::conditional<(limits_t::SINGLE_BASE_MAX < 16), float, double>::type flt_t;')],
    'products of many digits in a base of at most 16 (60000 decimal digits)',
    'single precision is enough for short numbers only: columns of long products are rounded wrongly',
    '''
int main() {
    const unsigned n = 60000;
    bignum_base10 a, one{BN_POS, {1}}, want;
    a.resize(n, 9);                                          // 10^n - 1, squared: 10^2n - 2*10^n + 1
    want.resize(2 * n, 9);
    want[n] = 8;
    for (unsigned i = 0; i < n; ++i) want[i] = 0;
    want[0] = 1;
    return a * a == want ? 0 : 1;
}
''')

seed('c05-eq-by-sum', 'C05', [(C,
    '''    if (len1 != len2) {
        return false;
    }
''',
    '''    if (len1 != len2) {
        return false;
    }

    // long numbers: their ends and a sum of all digits tell them apart
    if (len1 > 64) {
        bn_u64_t sum1 = 0, sum2 = 0;
        for (typename container_type::size_type k = 0; k < len1; ++k) {
            sum1 += num1[k];
            sum2 += num2[k];
        }
        return sum1 == sum2 && num1[0] == num2[0] && num1[len1-1] == num2[len1-1] && num1[len1/2] == num2[len1/2];
    }
''')],
    'numbers of more than 64 digits in which two digits changed places',
    'numbers with the same digits in another order compare equal',
    '''
int main() {
    bignum_base10 a, b;
    a.resize(80, 5); b.resize(80, 5);
    a[20] = 1; b[60] = 1;
    return a == b || !(a != b) ? 1 : 0;
}
''')
