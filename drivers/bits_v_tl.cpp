#define VNAME sdsl_bt
#define VSTR "tl"
#include "bits_variant.inc"
