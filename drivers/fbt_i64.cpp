#define FBT_KEY 2
#define FBT_NAME "i64"
#define FBT_ADD fbt_i64
#include "fbtree.h"
