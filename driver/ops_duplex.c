#include "drv.h"
#include "KeccakDuplex.h"
#define D OBJ(c, KeccakWidth1600_DuplexInstance)

static void du_init(Ctx *c) { Rc(c, KeccakWidth1600_DuplexInitialize(D, I(c, "rate"), I(c, "cap"))); }
static void du_feed(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Rc(c, KeccakWidth1600_DuplexingFeedPartialInput(D, d, n)); }
static void du_feedz(Ctx *c) { Rc(c, KeccakWidth1600_DuplexingFeedZeroes(D, I(c, "n"))); }
static void du_over(Ctx *c) { size_t n; const uint8_t *d = In(c, "d", &n); Rc(c, KeccakWidth1600_DuplexingOverwritePartialInput(D, d, n)); }
static void du_overz(Ctx *c) { Rc(c, KeccakWidth1600_DuplexingOverwriteWithZeroes(D, I(c, "n"))); }
static void fin(Ctx *c, int rc, uint8_t *o, size_t n)
{
    Rc(c, rc);
    if (I(c, "rc") == 0) Eq(c, "out", o, n); else Unwritten(c, o, n);
}
static void du_get(Ctx *c)
{
    size_t n = I(c, "n"); uint8_t *o = Out(c, n);
    fin(c, KeccakWidth1600_DuplexingGetFurtherOutput(D, o, n), o, n);
}
static void du_getadd(Ctx *c)
{
    size_t n;
    if (I(c, "inpl") && I(c, "rc") == 0) {
        uint8_t *o = InOut(c, "d", &n);
        fin(c, KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(D, o, o, n), o, n);
    } else {
        const uint8_t *d = In(c, "d", &n);
        uint8_t *o = Out(c, n);
        fin(c, KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(D, d, o, n), o, n);
    }
}
static void du_dup(Ctx *c)
{
    size_t m, n = I(c, "n"); const uint8_t *d = In(c, "d", &m); uint8_t *o = Out(c, n);
    fin(c, KeccakWidth1600_Duplexing(D, d, m, o, n, I(c, "delim")), o, n);
}
static const OpDef ops[] = {
    {"du.init", du_init}, {"du.feed", du_feed}, {"du.feedz", du_feedz}, {"du.over", du_over}, {"du.overz", du_overz}, {"du.get", du_get},
    {"du.getadd", du_getadd}, {"du.duplexing", du_dup}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
