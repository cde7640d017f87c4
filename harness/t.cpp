// One number type, chosen on the command line: -DTYPE_<name>
#ifdef RAW
#include "raw.h"
#elif defined(THREADS)
#include "thr.h"
#else
#include "drv.h"
#endif
#include "types.h"
#if defined(TYPE_lowp)
DRIVE(lowp, bignum_lowp, 256, 1, 256);
#elif defined(TYPE_medp)
DRIVE(medp, bignum_medp, 256, 2, 65536);
#elif defined(TYPE_highp)
DRIVE(highp, bignum_highp, 256, 4, 4294967296ULL);
#elif defined(TYPE_b2)
DRIVE(b2, bignum_base2, 2, 1, 2);
#elif defined(TYPE_b8)
DRIVE(b8, bignum_base8, 8, 1, 8);
#elif defined(TYPE_b10)
DRIVE(b10, bignum_base10, 10, 1, 10);
#elif defined(TYPE_b16)
DRIVE(b16, bignum_base16, 16, 1, 16);
#elif defined(TYPE_b3)
USER_BASE(b3, BN_UINT8, 3);
DRIVE(b3, b3_num, 3, 1, 3);
#elif defined(TYPE_b100)
USER_BASE(b100, BN_UINT8, 100);
DRIVE(b100, b100_num, 100, 1, 100);
#elif defined(TYPE_b1000)
USER_BASE(b1000, BN_UINT16, 1000);
DRIVE(b1000, b1000_num, 1000, 1, 1000);
#elif defined(TYPE_b256)
USER_BASE(b256, BN_UINT16, 256);
DRIVE(b256, b256_num, 256, 1, 256);
#elif defined(TYPE_b32k)
USER_BASE(b32k, BN_UINT16, 32768);
DRIVE(b32k, b32k_num, 32, 3, 32768);
#elif defined(TYPE_b64k)
USER_BASE(b64k, BN_UINT32, 65536);
DRIVE(b64k, b64k_num, 256, 2, 65536);
#elif defined(TYPE_b1g)
USER_BASE(b1g, BN_UINT32, 1000000000);
DRIVE(b1g, b1g_num, 1000, 3, 1000000000);
#elif defined(TYPE_w8)
typedef BNLimitsType<BN_UINT8, BN_UINT64> w8_limits;
typedef Bignum<w8_limits, bn_default_container_t<BN_UINT8>> w8_num;
DRIVE(w8, w8_num, 256, 1, 256);
#else
#error "no type"
#endif
