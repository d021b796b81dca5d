#define OMCS_LOCK
#define OMCS_OFFSET
#define OMCS_OP_READ
#define omcs_impl omcs_opread
#define offset offset_e
#include "optiql_omcs.inc"
const LockOps ops_omcs_opread = OMCS_TABLE("omcs-opread");
