#define FBT_KEY 0
#define FBT_NAME "str"
#define FBT_ADD fbt_str
#include "fbtree.h"
