#define PFX(x) c_##x
#include "soe_body.inc"
