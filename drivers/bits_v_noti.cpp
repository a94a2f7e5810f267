#define VNAME sdsl_bn
#define VSTR "noti"
#include "bits_variant.inc"
