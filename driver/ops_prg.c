#include "drv.h"
#include "KeccakPRG.h"
#define D OBJ(c, KeccakWidth1600_SpongePRG_Instance)
static void prg_init(Ctx *c) { Rc(c, KeccakWidth1600_SpongePRG_Initialize(D, I(c, "cap"))); }
static void prg_feed(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Rc(c, KeccakWidth1600_SpongePRG_Feed(D, d, n)); }
static void prg_fetch(Ctx *c)
{
    size_t n = I(c, "n"); uint8_t *o = Out(c, n);
    Rc(c, KeccakWidth1600_SpongePRG_Fetch(D, o, n));
    Eq(c, "out", o, n);
}
static void prg_forget(Ctx *c) { Rc(c, KeccakWidth1600_SpongePRG_Forget(D)); }
static const OpDef ops[] = {{"prg.init", prg_init}, {"prg.feed", prg_feed}, {"prg.fetch", prg_fetch}, {"prg.forget", prg_forget}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
