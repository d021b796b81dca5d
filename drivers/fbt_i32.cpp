#define FBT_KEY 4
#define FBT_NAME "i32"
#define FBT_ADD fbt_i32
#include "fbtree.h"
