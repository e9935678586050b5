#include "drv.h"
#include "KeccakSponge.h"

static void sp_init(Ctx *c) { Rc(c, KeccakWidth1600_SpongeInitialize(OBJ(c, KeccakWidth1600_SpongeInstance), I(c, "rate"), I(c, "cap"))); }
static void sp_absorb(Ctx *c)
{
    size_t n; const uint8_t *d = In(c, "d", &n);
    Rc(c, KeccakWidth1600_SpongeAbsorb(OBJ(c, KeccakWidth1600_SpongeInstance), d, n));
}
static void sp_last(Ctx *c) { Rc(c, KeccakWidth1600_SpongeAbsorbLastFewBits(OBJ(c, KeccakWidth1600_SpongeInstance), I(c, "delim"))); }
static void sp_squeeze(Ctx *c)
{
    size_t n = I(c, "n"); uint8_t *o = Out(c, n);
    Rc(c, KeccakWidth1600_SpongeSqueeze(OBJ(c, KeccakWidth1600_SpongeInstance), o, n));
    Eq(c, "out", o, n);
}
static void sp_one(Ctx *c)
{
    size_t n = I(c, "n"), m; const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    int rc = KeccakWidth1600_Sponge(I(c, "rate"), I(c, "cap"), d, m, I(c, "delim"), o, n);
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static const OpDef ops[] = {
    {"sp.init", sp_init}, {"sp.absorb", sp_absorb}, {"sp.last", sp_last}, {"sp.squeeze", sp_squeeze}, {"sp.one", sp_one}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
