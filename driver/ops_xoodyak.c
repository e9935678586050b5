#include "drv.h"
#include "Xoodyak.h"
#define D OBJ(c, Xoodyak_Instance)
static void xk_init(Ctx *c)
{
    size_t k, i, t; const uint8_t *K = In(c, "k", &k), *id = In(c, "id", &i), *ctr = In(c, "c", &t);
    Xoodyak_Initialize(D, K, k, id, i, ctr, t);
}
static void xk_absorb(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Xoodyak_Absorb(D, d, n); }
static void crypt_(Ctx *c, void (*f)(Xoodyak_Instance *, const uint8_t *, uint8_t *, size_t))
{
    size_t n; const uint8_t *d; uint8_t *o;
    if (I(c, "ip")) d = o = InOut(c, "d", &n);
    else { d = In(c, "d", &n); o = Out(c, n); }
    f(D, d, o, n);
    Eq(c, "out", o, n);
}
static void xk_enc(Ctx *c) { crypt_(c, Xoodyak_Encrypt); }
static void xk_dec(Ctx *c) { crypt_(c, Xoodyak_Decrypt); }
static void xk_squeeze(Ctx *c) { size_t n = I(c, "n"); uint8_t *o = Out(c, n); Xoodyak_Squeeze(D, o, n); Eq(c, "out", o, n); }
static void xk_key(Ctx *c) { size_t n = I(c, "n"); uint8_t *o = Out(c, n); Xoodyak_SqueezeKey(D, o, n); Eq(c, "out", o, n); }
static void xk_ratchet(Ctx *c) { Xoodyak_Ratchet(D); }
static const OpDef ops[] = {{"xk.init", xk_init}, {"xk.absorb", xk_absorb}, {"xk.enc", xk_enc}, {"xk.dec", xk_dec}, {"xk.squeeze", xk_squeeze},
    {"xk.key", xk_key}, {"xk.ratchet", xk_ratchet}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
