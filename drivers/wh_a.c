#define WHNAME wh_a
#define WHTITLE "16 keys per node"
#define INDEXRESEARCH_VERIF_KPN 16u
#define INDEXRESEARCH_VERIF_HMAPINIT 2u
#define INDEXRESEARCH_VERIF_SLAB 4096lu
#include "wh_shim.h"
