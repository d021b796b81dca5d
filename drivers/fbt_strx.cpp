#define FBT_KEY 0
#define FBT_NAME "strx"
#define FBT_ADD fbt_strx
#include "fbtree.h"
