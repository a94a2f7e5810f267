CONSTANTS
 W = 64
 Ns = {1, 2, 63, 64, 65, 128, 129, 1000, 4095, 4096, 4097, 4160, 8192, 70000, 262143, 262144, 262145, 300000}
 U = {0, 1, 31, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 500, 511, 512, 640, 999, 1023, 1024, 2047, 2048, 3000, 4031, 4032, 4033, 4094, 4095, 4096, 4097, 4098, 4159, 4160, 5000, 8127, 8128, 8191, 8192, 12287, 12288, 20000, 65535, 65536, 69999, 131071, 131072, 200000, 258047, 258048, 262079, 262080, 262142, 262143, 262144, 262145, 280000, 299999}
 Gen = TRUE
 K = 150
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANT Inside
CHECK_DEADLOCK FALSE
