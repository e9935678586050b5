#include "drv.h"
#include "KravatteModes.h"
#define P "kra."
#define DKT Kravatte_Instance
#define SANET Kravatte_SANE_Instance
#define SANSET Kravatte_SANSE_Instance
#define SANE Kravatte_SANE
#define SANSE Kravatte_SANSE
#define WBC Kravatte_WBC
#define WBCAE Kravatte_WBCAE
#define FLAG(x) KRAVATTE_FLAG_##x
#define MASK Kravatte_MaskDerivation
#define COMP Kra
#define EXP Vatte
#define ONE Kravatte
#include "deck_tmpl.h"
