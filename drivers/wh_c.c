#define WHNAME wh_c
#define WHTITLE "128 keys per node"
#define INDEXRESEARCH_VERIF_HMAPINIT 4u
#define INDEXRESEARCH_VERIF_SLAB 8192lu
#include "wh_shim.h"
