from .common import *
P = Prop(
 "C32", "Time conversions round as documented and never overflow in their range",
 "Converting a 34Q30 time to ticks of a given frequency yields the nearest tick, and the round-up and round-down variants the least tick not before and the greatest not after it; counter to time is exact up to truncation. Conversions are correct for negative times and for expressions as arguments. No conversion whose exact product fits 64 bits overflows, and a tick count converted to time and back is preserved up to 2^29 Hz.",
 ["inputs"], "Eight frequencies from 1 Hz to 2^30 Hz (incl. non powers of two), times within two units of the tick and half-tick boundaries of 20 tick counts up to 4e9, positive and negative.",
 "Tests use a few positive times; rounding at boundaries, negative times and expression arguments are where fixed-point macros go wrong.",
 ["include/embc/time.h"],
 [("time to counter", "include/embc/time.h EMBC_TIME_TO_COUNTER"), ("counter to time", "include/embc/time.h EMBC_COUNTER_TO_TIME"), ("float conversion", "include/embc/time.h EMBC_F64_TO_TIME")],
 "other", TECH, NOTE,
 "The conversions are interpreted abstractly at the boundary neighbourhoods and compared with floor-division definitions in 64-bit arithmetic; overflow or an undefined shift is an alarm.",
 jobs=[Eva("time", "plat.c", ["H_TIME"], slevel=300000, timeout=800)],
 quick32=True)
