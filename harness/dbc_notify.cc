#define VNS mode_notify
#define MODENAME "notify"
#define KIND 2
#define RISTRA_REQUIRE_ON
#define RISTRA_DBC_NOTIFY
#include "dbc.inc"
