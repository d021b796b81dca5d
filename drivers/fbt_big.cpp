#define FBT_KEY 1
#define FBT_NAME "big"
#define FBT_ADD fbt_big
#include "fbtree.h"
