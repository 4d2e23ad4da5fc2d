#include "src/crc.c"
