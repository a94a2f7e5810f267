#define VNAME sdsl_bb
#define VSTR "bmi2"
#include "bits_variant.inc"
