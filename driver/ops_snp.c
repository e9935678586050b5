#include "drv.h"
#include "config.h"
#include "align.h"
#define OUTPAT(a) ((uint8_t)(0x5A + (a) * 7))

#ifdef XKCP_has_KeccakP1600
#include "KeccakP-1600-SnP.h"
#define PFX KeccakP1600
#define TYPE KeccakP1600_state
#define TYPENAME "K1"
#define PL 0
#define P 1
#define L 8
#define KECCAK 1
#ifdef KeccakF1600_FastLoop_supported
#define FAST24 KeccakF1600_FastLoop_Absorb
#endif
#ifdef KeccakP1600_12rounds_FastLoop_supported
#define FAST12 KeccakP1600_12rounds_FastLoop_Absorb
#endif
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
#define PFX KeccakP1600times2
#define TYPE KeccakP1600times2_states
#define TYPENAME "K2"
#define PL 1
#define P 2
#define L 8
#define KECCAK 1
#ifdef KeccakF1600times2_FastLoop_supported
#define FAST24 KeccakF1600times2_FastLoop_Absorb
#endif
#ifdef KeccakP1600times2_12rounds_FastLoop_supported
#define FAST12 KeccakP1600times2_12rounds_FastLoop_Absorb
#endif
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
#define PFX KeccakP1600times4
#define TYPE KeccakP1600times4_states
#define TYPENAME "K4"
#define PL 1
#define P 4
#define L 8
#define KECCAK 1
#ifdef KeccakF1600times4_FastLoop_supported
#define FAST24 KeccakF1600times4_FastLoop_Absorb
#endif
#ifdef KeccakP1600times4_12rounds_FastLoop_supported
#define FAST12 KeccakP1600times4_12rounds_FastLoop_Absorb
#endif
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
#define PFX KeccakP1600times8
#define TYPE KeccakP1600times8_states
#define TYPENAME "K8"
#define PL 1
#define P 8
#define L 8
#define KECCAK 1
#ifdef KeccakF1600times8_FastLoop_supported
#define FAST24 KeccakF1600times8_FastLoop_Absorb
#endif
#ifdef KeccakP1600times8_12rounds_FastLoop_supported
#define FAST12 KeccakP1600times8_12rounds_FastLoop_Absorb
#endif
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_Xoodoo
#include "Xoodoo-SnP.h"
#define PFX Xoodoo
#define TYPE Xoodoo_state
#define TYPENAME "X1"
#define PL 0
#define P 1
#define L 4
#define KECCAK 0
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_Xoodootimes4
#include "Xoodoo-times4-SnP.h"
#define PFX Xoodootimes4
#define TYPE Xoodootimes4_states
#define TYPENAME "X4"
#define PL 1
#define P 4
#define L 4
#define KECCAK 0
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_Xoodootimes8
#include "Xoodoo-times8-SnP.h"
#define PFX Xoodootimes8
#define TYPE Xoodootimes8_states
#define TYPENAME "X8"
#define PL 1
#define P 8
#define L 4
#define KECCAK 0
#include "snp_tmpl.h"
#endif
#ifdef XKCP_has_Xoodootimes16
#include "Xoodoo-times16-SnP.h"
#define PFX Xoodootimes16
#define TYPE Xoodootimes16_states
#define TYPENAME "X16"
#define PL 1
#define P 16
#define L 4
#define KECCAK 0
#include "snp_tmpl.h"
#endif

static void snp(Ctx *c)
{
    int s = (int)Idef(c, "i", 1) - 1;
    if (!strcmp(c->op, "snp.init")) c->user[s] = (S(c, "k")[0] == 'K' ? 0 : 100) + (int)I(c, "p");
    switch (c->user[s]) {
#ifdef XKCP_has_KeccakP1600
    case 1: KeccakP1600_op(c); break;
#endif
#ifdef XKCP_has_KeccakP1600times2
    case 2: KeccakP1600times2_op(c); break;
#endif
#ifdef XKCP_has_KeccakP1600times4
    case 4: KeccakP1600times4_op(c); break;
#endif
#ifdef XKCP_has_KeccakP1600times8
    case 8: KeccakP1600times8_op(c); break;
#endif
#ifdef XKCP_has_Xoodoo
    case 101: Xoodoo_op(c); break;
#endif
#ifdef XKCP_has_Xoodootimes4
    case 104: Xoodootimes4_op(c); break;
#endif
#ifdef XKCP_has_Xoodootimes8
    case 108: Xoodootimes8_op(c); break;
#endif
#ifdef XKCP_has_Xoodootimes16
    case 116: Xoodootimes16_op(c); break;
#endif
    default: fprintf(stderr, "driver error: no implementation for %d\n", c->user[s]); _Exit(3);
    }
}
static const OpDef ops[] = {
    {"snp.init", snp}, {"snp.addb", snp}, {"snp.add", snp}, {"snp.over", snp}, {"snp.zero", snp}, {"snp.perm", snp},
    {"snp.ext", snp}, {"snp.extadd", snp}, {"snp.addl", snp}, {"snp.overl", snp}, {"snp.extl", snp}, {"snp.extaddl", snp},
    {"snp.fast", snp}, {0, 0}};
__attribute__((constructor)) static void reg(void) { drv_register(ops); }
