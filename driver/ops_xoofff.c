#include "drv.h"
#include "XoofffModes.h"
#define P "xof."
#define DKT Xoofff_Instance
#define SANET XoofffSANE_Instance
#define SANSET XoofffSANSE_Instance
#define SANE XoofffSANE
#define SANSE XoofffSANSE
#define WBC XoofffWBC
#define WBCAE XoofffWBCAE
#define FLAG_INIT Xoofff_FlagInit
#define FLAG_LAST_PART Xoofff_FlagLastPart
#define FLAG_SHORT Xoofff_FlagXoofffie
#define FLAG(x) FLAG_##x
#define MASK Xoofff_MaskDerivation
#define COMP Xoofff_Compress
#define EXP Xoofff_Expand
#define ONE Xoofff
#include "deck_tmpl.h"
