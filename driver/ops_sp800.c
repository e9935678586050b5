#include "drv.h"
#include "SP800-185.h"
/* rb selects the security strength: fixed by the call that initialized the instance */
static int is128(Ctx *c)
{
    int *s = &c->user[Idef(c, "i", 1) - 1];
    if (has(c, "rb")) { int v = I(c, "rb") == 168; if (Idef(c, "rc", 0) == 0 && strstr(c->op, ".init")) *s = v; return v; }
    return *s;
}
#define V(name, args) (is128(c) ? name##128 args : name##256 args)
#define V2(name, suf, args) (is128(c) ? name##128##suf args : name##256##suf args)
#define CUSTOM size_t sm; const uint8_t *s = In(c, "s", &sm); size_t sn = I(c, "sn");
static void outcheck(Ctx *c, int rc, const uint8_t *o, size_t n)
{
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
#define OUTLEN size_t n = I(c, "rc") == 0 ? Dlen(c, "out") : 40; uint8_t *o = Out(c, n);
#define COMMON(p, T, name) \
static void p##_update(Ctx *c) { size_t m; const uint8_t *d = In(c, "d", &m); T *x = OBJ(c, T); Rc(c, V2(name, _Update, (x, d, I(c, "n")))); } \
static void p##_final(Ctx *c) { OUTLEN T *x = OBJ(c, T); outcheck(c, V2(name, _Final, (x, o)), o, n); } \
static void p##_squeeze(Ctx *c) { OUTLEN T *x = OBJ(c, T); outcheck(c, V2(name, _Squeeze, (x, o, I(c, "l"))), o, n); }
COMMON(cs, cSHAKE_Instance, cSHAKE)
COMMON(km, KMAC_Instance, KMAC)
COMMON(ph, ParallelHash_Instance, ParallelHash)
static void cs_init(Ctx *c)
{
    size_t q; CUSTOM const uint8_t *nm = In(c, "nm", &q); cSHAKE_Instance *x = OBJ(c, cSHAKE_Instance);
    Rc(c, V2(cSHAKE, _Initialize, (x, I(c, "fl"), nm, I(c, "nb"), s, sn)));
}
static void cs_one(Ctx *c)
{
    size_t q, m; CUSTOM OUTLEN const uint8_t *nm = In(c, "nm", &q), *d = In(c, "d", &m);
    outcheck(c, V(cSHAKE, (d, I(c, "n"), o, I(c, "l"), nm, I(c, "nb"), s, sn)), o, n);
}
static void km_init(Ctx *c)
{
    size_t q; CUSTOM const uint8_t *k = In(c, "k", &q); KMAC_Instance *x = OBJ(c, KMAC_Instance);
    Rc(c, V2(KMAC, _Initialize, (x, k, I(c, "kn"), I(c, "fl"), s, sn)));
}
static void km_one(Ctx *c)
{
    size_t q, m; CUSTOM OUTLEN const uint8_t *k = In(c, "k", &q), *d = In(c, "d", &m);
    outcheck(c, V(KMAC, (k, I(c, "kn"), d, I(c, "n"), o, I(c, "l"), s, sn)), o, n);
}
static size_t tuple(Ctx *c, TupleElement *t)
{
    int j, n = nlist(c, "t");
    for (j = 0; j < n; j++) {
        size_t m; t[j].input = InList(c, "t", j, &m); t[j].inputBitLen = 8 * m;
    }
    if (n && I(c, "bad")) t[0].inputBitLen = t[0].inputBitLen >= 8 ? t[0].inputBitLen - I(c, "bad") : I(c, "bad");
    return n;
}
static void th_init(Ctx *c)
{
    CUSTOM TupleHash_Instance *x = OBJ(c, TupleHash_Instance);
    Rc(c, V2(TupleHash, _Initialize, (x, I(c, "fl"), s, sn)));
}
static void th_update(Ctx *c)
{
    TupleElement t[16]; size_t n = tuple(c, t); TupleHash_Instance *x = OBJ(c, TupleHash_Instance);
    Rc(c, V2(TupleHash, _Update, (x, t, n)));
}
static void th_final(Ctx *c) { OUTLEN TupleHash_Instance *x = OBJ(c, TupleHash_Instance); outcheck(c, V2(TupleHash, _Final, (x, o)), o, n); }
static void th_squeeze(Ctx *c) { OUTLEN TupleHash_Instance *x = OBJ(c, TupleHash_Instance); outcheck(c, V2(TupleHash, _Squeeze, (x, o, I(c, "l"))), o, n); }
static void th_one(Ctx *c)
{
    TupleElement t[16]; size_t k = tuple(c, t); CUSTOM OUTLEN
    outcheck(c, V(TupleHash, (t, k, o, I(c, "l"), s, sn)), o, n);
}
static void ph_init(Ctx *c)
{
    CUSTOM ParallelHash_Instance *x = OBJ(c, ParallelHash_Instance);
    Rc(c, V2(ParallelHash, _Initialize, (x, has(c, "be") ? (size_t)1 << I(c, "be") : I(c, "blk"), I(c, "fl"), s, sn)));
}
static void ph_one(Ctx *c)
{
    size_t m; CUSTOM OUTLEN const uint8_t *d = In(c, "d", &m);
    outcheck(c, V(ParallelHash, (d, I(c, "n"), I(c, "blk"), o, I(c, "l"), s, sn)), o, n);
}
static const OpDef ops[] = {
    {"cs.init", cs_init}, {"cs.update", cs_update}, {"cs.final", cs_final}, {"cs.squeeze", cs_squeeze}, {"cs.one", cs_one},
    {"km.init", km_init}, {"km.update", km_update}, {"km.final", km_final}, {"km.squeeze", km_squeeze}, {"km.one", km_one},
    {"th.init", th_init}, {"th.update", th_update}, {"th.final", th_final}, {"th.squeeze", th_squeeze}, {"th.one", th_one},
    {"ph.init", ph_init}, {"ph.update", ph_update}, {"ph.final", ph_final}, {"ph.squeeze", ph_squeeze}, {"ph.one", ph_one}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
