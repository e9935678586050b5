/* Deck function, sessions, wide block ciphers of one permutation.  DK, SANE, SANSE, WBC, WBCAE: prefixes; MASK COMP EXP ONE: functions. */
#define CC0(a, b) a##b
#define CC(a, b) CC0(a, b)
#define D ((DKT *)Ob(c, "deck", sizeof(DKT), __alignof__(DKT)))
#define DSANE ((SANET *)Ob(c, "sane", sizeof(SANET), __alignof__(SANET)))
#define DSANSE ((SANSET *)Ob(c, "sanse", sizeof(SANSET), __alignof__(SANSET)))
#define NB(bits) (((size_t)(bits) + 7) / 8)
static void dk_mask(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Rc(c, MASK(D, d, I(c, "b"))); }
static void dk_comp(Ctx *c)
{
    size_t n; const uint8_t *d = In(c, "d", &n);
    Rc(c, COMP(D, d, I(c, "b"), (I(c, "ini") ? FLAG(INIT) : 0) | (I(c, "last") ? FLAG(LAST_PART) : 0)));
}
static void result(Ctx *c, int rc, const uint8_t *o, size_t n)
{
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static void dk_exp(Ctx *c)
{
    size_t n = NB(I(c, "b")); uint8_t *o = Out(c, n);
    result(c, EXP(D, o, I(c, "b"), (I(c, "sh") ? FLAG(SHORT) : 0) | (I(c, "last") ? FLAG(LAST_PART) : 0)), o, n);
}
static void dk_one(Ctx *c)
{
    size_t k, n = NB(I(c, "m")); const uint8_t *d = In(c, "d", &k); uint8_t *o = Out(c, n);
    result(c, ONE(D, d, I(c, "b"), o, I(c, "m"), (I(c, "ini") ? FLAG(INIT) : 0) | (I(c, "sh") ? FLAG(SHORT) : 0)), o, n);
}
static void sane_init(Ctx *c)
{
    size_t k, n; const uint8_t *K = In(c, "k", &k), *d = In(c, "d", &n); uint8_t *t = Out(c, 16);
    result(c, CC(SANE, _Initialize)(DSANE, K, I(c, "kb"), d, I(c, "b"), t), t, 16);
}
static void sanse_init(Ctx *c) { size_t k; const uint8_t *K = In(c, "k", &k); Rc(c, CC(SANSE, _Initialize)(DSANSE, K, I(c, "kb"))); }
#define WRAP(name, fn, T, TL) static void name(Ctx *c) \
{ \
    size_t m, k; const uint8_t *d = In(c, "d", &m), *a = In(c, "a", &k); size_t n = NB(I(c, "b")); uint8_t *o = Out(c, n), *t = Out(c, TL); \
    Rc(c, fn(T, d, o, I(c, "b"), a, I(c, "ab"), t)); \
    Eq(c, "out", o, n); Eq(c, "tag", t, TL); \
}
#define UNWRAP(name, fn, T) static void name(Ctx *c) \
{ \
    size_t m, k, g; const uint8_t *d = In(c, "c", &m), *a = In(c, "a", &k), *t = In(c, "t", &g); size_t n = NB(I(c, "b")); uint8_t *o = Out(c, n); \
    Rc(c, fn(T, d, o, I(c, "b"), a, I(c, "ab"), t)); \
    Eq(c, "out", o, n); \
}
WRAP(sane_wrap, CC(SANE, _Wrap), DSANE, 16)
WRAP(sanse_wrap, CC(SANSE, _Wrap), DSANSE, 32)
UNWRAP(sane_unwrap, CC(SANE, _Unwrap), DSANE)
UNWRAP(sanse_unwrap, CC(SANSE, _Unwrap), DSANSE)
static void wbc(Ctx *c, int dec)
{
    size_t m, k; const uint8_t *d = In(c, "d", &m), *w = In(c, "w", &k); size_t n = NB(I(c, "b")); uint8_t *o = Out(c, n);
    Rc(c, (dec ? CC(WBC, _Decipher) : CC(WBC, _Encipher))(D, d, o, I(c, "b"), w, I(c, "wb")));
    Eq(c, "out", o, n);
}
static void wbc_e(Ctx *c) { wbc(c, 0); }
static void wbc_d(Ctx *c) { wbc(c, 1); }
static void wbcae_e(Ctx *c)
{   /* the plaintext buffer has room for the redundancy */
    size_t m, k; const uint8_t *d = In(c, "d", &m), *w = In(c, "w", &k); size_t n = NB(I(c, "b") + 128); uint8_t *p = Out(c, n), *o = Out(c, n);
    memcpy(p, d, m);
    Rc(c, CC(WBCAE, _Encipher)(D, p, o, I(c, "b"), w, I(c, "wb")));
    Eq(c, "out", o, n);
}
static void wbcae_d(Ctx *c)
{
    size_t m, k; const uint8_t *d = In(c, "d", &m), *w = In(c, "w", &k); size_t n = NB(I(c, "b") + 128); uint8_t *o = Out(c, n);
    Rc(c, CC(WBCAE, _Decipher)(D, d, o, I(c, "b"), w, I(c, "wb")));
    Eq(c, "out", o, n);
}
static const OpDef ops[] = {{P "mask", dk_mask}, {P "comp", dk_comp}, {P "exp", dk_exp}, {P "one", dk_one}, {P "sane.init", sane_init}, {P "sane.wrap", sane_wrap},
    {P "sane.unwrap", sane_unwrap}, {P "sanse.init", sanse_init}, {P "sanse.wrap", sanse_wrap}, {P "sanse.unwrap", sanse_unwrap},
    {P "wbc.e", wbc_e}, {P "wbc.d", wbc_d}, {P "wbcae.e", wbcae_e}, {P "wbcae.d", wbcae_d}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
