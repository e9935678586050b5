#include "drv.h"
#include "KeccakHash.h"
#include "SimpleFIPS202.h"

static void kh_init(Ctx *c)
{
    Rc(c, Keccak_HashInitialize(OBJ(c, Keccak_HashInstance), I(c, "rate"), I(c, "cap"), I(c, "fl"), I(c, "delim")));
}
static void kh_update(Ctx *c)
{
    size_t n; const uint8_t *d = In(c, "d", &n);
    Rc(c, Keccak_HashUpdate(OBJ(c, Keccak_HashInstance), d, I(c, "nbits")));
}
static void kh_final(Ctx *c)
{
    size_t n = Dlen(c, "out"); uint8_t *o = Out(c, n);
    int rc = Keccak_HashFinal(OBJ(c, Keccak_HashInstance), o);
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static void kh_squeeze(Ctx *c)
{
    size_t n = (I(c, "nbits") + 7) / 8; uint8_t *o = Out(c, n);
    Rc(c, Keccak_HashSqueeze(OBJ(c, Keccak_HashInstance), o, I(c, "nbits")));
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static void kh_one(Ctx *c)
{
    size_t n = Dlen(c, "out"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    int rc = -1;
    switch (I(c, "f")) {
    case 1: rc = SHAKE128(o, n, d, m); break;
    case 2: rc = SHAKE256(o, n, d, m); break;
    case 3: rc = SHA3_224(o, d, m); break;
    case 4: rc = SHA3_256(o, d, m); break;
    case 5: rc = SHA3_384(o, d, m); break;
    case 6: rc = SHA3_512(o, d, m); break;
    }
    Rc(c, rc);
    Eq(c, "out", o, n);
}
static const OpDef ops[] = {
    {"kh.init", kh_init}, {"kh.update", kh_update}, {"kh.final", kh_final}, {"kh.squeeze", kh_squeeze}, {"kh.one", kh_one}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
