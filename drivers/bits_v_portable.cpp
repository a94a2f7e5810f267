#define VNAME sdsl_bp
#define VSTR "portable"
#include "bits_variant.inc"
