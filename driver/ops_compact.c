#include "drv.h"
/* Standalone/CompactFIPS202/C: what is declared in the sources themselves */
typedef unsigned long long u64;
void Keccak(unsigned rate, unsigned cap, const uint8_t *in, u64 n, uint8_t delim, uint8_t *out, u64 outn);
#ifdef SHORT_LENGTHS     /* Keccak-readable-and-compact.c */
typedef unsigned inlen; typedef int outlen;
#else
typedef u64 inlen; typedef u64 outlen;
#endif
void FIPS202_SHAKE128(const uint8_t *in, inlen n, uint8_t *out, outlen outn);
void FIPS202_SHAKE256(const uint8_t *in, inlen n, uint8_t *out, outlen outn);
void FIPS202_SHA3_224(const uint8_t *in, inlen n, uint8_t *out);
void FIPS202_SHA3_256(const uint8_t *in, inlen n, uint8_t *out);
void FIPS202_SHA3_384(const uint8_t *in, inlen n, uint8_t *out);
void FIPS202_SHA3_512(const uint8_t *in, inlen n, uint8_t *out);

static void co_keccak(Ctx *c)
{
    size_t n = I(c, "n"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    Keccak(I(c, "rate"), I(c, "cap"), d, m, I(c, "delim"), o, n);
    Eq(c, "out", o, n);
}
static void co_fn(Ctx *c)
{
    size_t n = I(c, "n"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    switch (I(c, "f")) {
    case 1: FIPS202_SHAKE128(d, m, o, n); break;
    case 2: FIPS202_SHAKE256(d, m, o, n); break;
    case 3: FIPS202_SHA3_224(d, m, o); break;
    case 4: FIPS202_SHA3_256(d, m, o); break;
    case 5: FIPS202_SHA3_384(d, m, o); break;
    default: FIPS202_SHA3_512(d, m, o);
    }
    Eq(c, "out", o, n);
}
static const OpDef ops[] = {{"co.keccak", co_keccak}, {"co.fn", co_fn}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
