#define OMCS_LOCK
#define PLAIN
#define omcs_impl omcs_plain
#define offset offset_b
#include "optiql_omcs.inc"
const LockOps ops_omcs_plain = OMCS_TABLE("omcs-plain");
