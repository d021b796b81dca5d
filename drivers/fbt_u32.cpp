#define FBT_KEY 3
#define FBT_NAME "u32"
#define FBT_ADD fbt_u32
#include "fbtree.h"
