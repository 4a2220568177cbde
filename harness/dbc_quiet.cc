#define VNS mode_quiet
#define MODENAME "quiet"
#define KIND 3
#define RISTRA_REQUIRE_ON
#include "dbc.inc"
