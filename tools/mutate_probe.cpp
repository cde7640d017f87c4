#include <sstream>
#include "bignum/bignum.h"
#include "bignum/fourier.h"
template <class N> void all() {
    N a, b{BN_POS, {1}}; a = b + a; a = b - a; a = b * a; a = b / a;
    a += b; a -= b; a *= b; a /= b; (void)(a < b); (void)(a == b); std::ostringstream o; o << a; a.push_back(1); a.pop_back(); a.push(1, 0); a.pop(0);
    a.resize(3, 1); a[0] = 1; a.setDescriptor(BN_NAN); a.clear();
}
template void all<bignum_base10>(); template void all<bignum_lowp>(); template void all<bignum_highp>();
