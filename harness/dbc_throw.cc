#define VNS mode_throw
#define MODENAME "throw"
#define KIND 1
#define RISTRA_REQUIRE_ON
#define RISTRA_DBC_THROW
#include "dbc.inc"
