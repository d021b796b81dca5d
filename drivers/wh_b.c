#define WHNAME wh_b
#define WHTITLE "32 keys per node, 256-bit instructions"
#define INDEXRESEARCH_VERIF_KPN 32u
#define INDEXRESEARCH_VERIF_HMAPINIT 1u
#define INDEXRESEARCH_VERIF_SLAB 4096lu
#include "wh_shim.h"
