#include "drv.h"
/* Standalone/CompactFIPS202/C/TweetableFIPS202.c */
typedef unsigned long long u64;
int crypto_hash_shake128(uint8_t *h, u64 d, const uint8_t *m, u64 n);
int crypto_hash_shake256(uint8_t *h, u64 d, const uint8_t *m, u64 n);
int crypto_hash_sha3224(uint8_t *h, const uint8_t *m, u64 n);
int crypto_hash_sha3256(uint8_t *h, const uint8_t *m, u64 n);
int crypto_hash_sha3384(uint8_t *h, const uint8_t *m, u64 n);
int crypto_hash_sha3512(uint8_t *h, const uint8_t *m, u64 n);

static void co_fn(Ctx *c)
{
    size_t n = I(c, "n"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    int rc;
    switch (I(c, "f")) {
    case 1: rc = crypto_hash_shake128(o, n, d, m); break;
    case 2: rc = crypto_hash_shake256(o, n, d, m); break;
    case 3: rc = crypto_hash_sha3224(o, d, m); break;
    case 4: rc = crypto_hash_sha3256(o, d, m); break;
    case 5: rc = crypto_hash_sha3384(o, d, m); break;
    default: rc = crypto_hash_sha3512(o, d, m);
    }
    Rc(c, rc);
    Eq(c, "out", o, n);
}
static const OpDef ops[] = {{"co.fn", co_fn}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
