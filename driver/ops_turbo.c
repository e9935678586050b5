#include "drv.h"
#include "TurboSHAKE.h"

static void ts_init(Ctx *c) { Rc(c, TurboSHAKE_Initialize(OBJ(c, TurboSHAKE_Instance), I(c, "cap"))); }
static void ts_absorb(Ctx *c)
{
    size_t n; const uint8_t *d = In(c, "d", &n);
    Rc(c, TurboSHAKE_Absorb(OBJ(c, TurboSHAKE_Instance), d, n));
}
static void ts_last(Ctx *c) { Rc(c, TurboSHAKE_AbsorbDomainSeparationByte(OBJ(c, TurboSHAKE_Instance), I(c, "delim"))); }
static void ts_squeeze(Ctx *c)
{
    size_t n = I(c, "n"); uint8_t *o = Out(c, n);
    Rc(c, TurboSHAKE_Squeeze(OBJ(c, TurboSHAKE_Instance), o, n));
    Eq(c, "out", o, n);
}
static void ts_one(Ctx *c)
{
    size_t n = I(c, "n"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    int rc = TurboSHAKE(I(c, "cap"), d, m, I(c, "delim"), o, n);
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static const OpDef ops[] = {
    {"ts.init", ts_init}, {"ts.absorb", ts_absorb}, {"ts.last", ts_last}, {"ts.squeeze", ts_squeeze}, {"ts.one", ts_one}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
