#define OMCS_LOCK
#define PLAIN
#define NO_FAA
#define omcs_impl omcs_nofaa
#define offset offset_c
#include "optiql_omcs.inc"
const LockOps ops_omcs_nofaa = OMCS_TABLE("omcs-plain-nofaa");
