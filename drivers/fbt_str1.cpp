#define FBT_KEY 0
#define FBT_NAME "str1"
#define FBT_ADD fbt_str1
#include "fbtree.h"
