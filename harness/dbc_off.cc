#define VNS mode_off
#define MODENAME "off"
#define KIND 4
#define RISTRA_DBC_THROW
#include "dbc.inc"
