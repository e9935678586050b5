#include "drv.h"
#include "KangarooTwelve.h"
#define D OBJ(c, KangarooTwelve_Instance)
#define OUTLEN size_t n = I(c, "rc") == 0 ? Dlen(c, "out") : 40; uint8_t *o = Out(c, n);
static void outcheck(Ctx *c, int rc, const uint8_t *o, size_t n)
{
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static void kt_init(Ctx *c) { Rc(c, KangarooTwelve_Initialize(D, I(c, "sec"), I(c, "fl"))); }
static void kt_update(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Rc(c, KangarooTwelve_Update(D, d, n)); }
static void kt_final(Ctx *c) { size_t m; const uint8_t *s = In(c, "c", &m); OUTLEN outcheck(c, KangarooTwelve_Final(D, o, s, m), o, n); }
static void kt_squeeze(Ctx *c) { OUTLEN outcheck(c, KangarooTwelve_Squeeze(D, o, I(c, "n")), o, n); }
static void kt_one(Ctx *c)
{
    size_t m, k; const uint8_t *d = In(c, "d", &m), *s = In(c, "c", &k); int sec = I(c, "sec"), rc; OUTLEN
    if (I(c, "f") && sec == 128) rc = KT128(d, m, o, I(c, "l"), s, k);
    else if (I(c, "f") && sec == 256) rc = KT256(d, m, o, I(c, "l"), s, k);
    else rc = KangarooTwelve(sec, d, m, o, I(c, "l"), s, k);
    outcheck(c, rc, o, n);
}
static const OpDef ops[] = {{"kt.init", kt_init}, {"kt.update", kt_update}, {"kt.final", kt_final}, {"kt.squeeze", kt_squeeze}, {"kt.one", kt_one}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
