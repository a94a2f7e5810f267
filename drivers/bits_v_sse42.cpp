#define VNAME sdsl_bs
#define VSTR "sse42"
#include "bits_variant.inc"
