/* One instance of the (Pl)SnP interface.  Defines table CAT(tab_, PFX).
   PFX: KeccakP1600times4...; TYPE: state type; PL: 1 for parallel; P: parallelism; L: lane bytes; W: state bytes. */
#define CAT0(a, b) a##b
#define CAT(a, b) CAT0(a, b)
#define F(x) CAT(PFX, x)
#define ST ((TYPE *)Ob(c, TYPENAME, sizeof(TYPE), __alignof__(TYPE)))
#if PL
#define INST(j) , (unsigned)(j)
#else
#define INST(j)
#endif
static void F(_op)(Ctx *c)
{
    TYPE *s = ST;
    const char *op = c->op + 4;
    size_t n;
    int j = (int)Idef(c, "j", 1) - 1;
    if (!strcmp(op, "init")) {
        F(_StaticInitialize)();
#if PL
        F(_InitializeAll)(s);
#else
        F(_Initialize)(s);
#endif
    } else if (!strcmp(op, "addb")) {
        unsigned char b = (unsigned char)I(c, "b");
        unsigned off = (unsigned)I(c, "off"), jj = (unsigned)j;
        (void)jj;
#if PL
        F(_AddByte)(s, jj, b, off);
#else
        F(_AddByte)(s, b, off);
#endif
    } else if (!strcmp(op, "add")) {
        const uint8_t *d = In(c, "d", &n);
        F(_AddBytes)(s INST(j), d, I(c, "off"), n);
    } else if (!strcmp(op, "over")) {
        const uint8_t *d = In(c, "d", &n);
        F(_OverwriteBytes)(s INST(j), d, I(c, "off"), n);
    } else if (!strcmp(op, "zero")) {
        F(_OverwriteWithZeroes)(s INST(j), I(c, "n"));
    } else if (!strcmp(op, "ext")) {
        uint8_t *o = Out(c, n = I(c, "n"));
        F(_ExtractBytes)(s INST(j), o, I(c, "off"), n);
        Eq(c, "out", o, n);
    } else if (!strcmp(op, "extadd")) {
        if (I(c, "inpl")) {
            uint8_t *o = InOut(c, "d", &n);
            F(_ExtractAndAddBytes)(s INST(j), o, o, I(c, "off"), n);
            Eq(c, "out", o, n);
        } else {
            const uint8_t *d = In(c, "d", &n);
            uint8_t *o = Out(c, n);
            F(_ExtractAndAddBytes)(s INST(j), d, o, I(c, "off"), n);
            Eq(c, "out", o, n);
        }
    } else if (!strcmp(op, "perm")) {
        int nr = (int)I(c, "nr");
        switch (nr) {
#if PL
#if KECCAK
        case 4: F(_PermuteAll_4rounds)(s); break;
        case 24: F(_PermuteAll_24rounds)(s); break;
#endif
        case 6: F(_PermuteAll_6rounds)(s); break;
        case 12: F(_PermuteAll_12rounds)(s); break;
        default: Fail(c, "no such round count", 0);
#else
#if KECCAK
        case 24: if (c->step % 2 == 0) { F(_Permute_24rounds)(s); break; } F(_Permute_Nrounds)(s, nr); break;
        case 12: if (c->step % 2 == 0) { F(_Permute_12rounds)(s); break; } F(_Permute_Nrounds)(s, nr); break;
        default: F(_Permute_Nrounds)(s, nr);
#else
        case 12: F(_Permute_12rounds)(s); break;
        case 6: F(_Permute_6rounds)(s); break;
#ifdef Xoodoo_HasNround
        default: F(_Permute_Nrounds)(s, nr);
#else
        default: Fail(c, "no such round count", 0);
#endif
#endif
#endif
        }
#if PL
    } else if (!strcmp(op, "addl")) {
        const uint8_t *d = In(c, "d", &n);
        F(_AddLanesAll)(s, d, I(c, "lc"), I(c, "lo"));
    } else if (!strcmp(op, "overl")) {
        const uint8_t *d = In(c, "d", &n);
        F(_OverwriteLanesAll)(s, d, I(c, "lc"), I(c, "lo"));
    } else if (!strcmp(op, "extl") || !strcmp(op, "extaddl")) {
        size_t lc = I(c, "lc"), lo = I(c, "lo"), k, a;
        uint8_t *o, *got;
        n = L * ((P - 1) * lo + lc);
        if (op[3] == 'l') {
            o = Out(c, n);
            F(_ExtractLanesAll)(s, o, lc, lo);
        } else {
            const uint8_t *d = In(c, "d", 0);
            o = Out(c, n);
            F(_ExtractAndAddLanesAll)(s, d, o, lc, lo);
        }
        got = malloc(P * lc * L + 1);
        for (k = 0; k < P; k++) memcpy(got + k * lc * L, o + k * lo * L, lc * L);
        Eq(c, "out", got, P * lc * L);
        free(got);
        for (a = 0; a < n; a++)
            if (lo == 0 ? a >= lc * L : a % (lo * L) >= lc * L)
                if (o[a] != OUTPAT(a)) { Fail(c, "output", "wrote between the blocks"); break; }
#endif
#if KECCAK && (defined(FAST24) || defined(FAST12))
    } else if (!strcmp(op, "fast")) {
        const uint8_t *d = In(c, "d", &n);
        size_t r = 0;
#if PL
#define FARGS (s, I(c, "lc"), I(c, "lo"), I(c, "ls"), d, n)
#else
#define FARGS (s, I(c, "lc"), d, n)
#endif
        if (I(c, "nr") == 24) {
#ifdef FAST24
            r = FAST24 FARGS;
#endif
        } else {
#ifdef FAST12
            r = FAST12 FARGS;
#endif
        }
        EqI(c, "ret", (long long)r);
#undef FARGS
#endif
    } else {
        Fail(c, "no such operation here", op);
    }
}
#undef CAT0
#undef CAT
#undef F
#undef ST
#undef INST
#undef PFX
#undef TYPE
#undef TYPENAME
#undef PL
#undef P
#undef L
#undef KECCAK
#undef FAST24
#undef FAST12
