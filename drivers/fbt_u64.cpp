#define FBT_KEY 1
#define FBT_NAME "u64"
#define FBT_ADD fbt_u64
#include "fbtree.h"
