from .common import *
J = lambda n, d, **k: Eva(n, "plat.c", [d], slevel=100000, timeout=400, **k)
P = Prop(
 "C33", "Platform primitives: allocation indirection, bit tricks and base macros",
 "Allocation goes through exactly the registered allocator with the requested size, cleared allocation zeroes exactly that size, and a null result, a null free or an unregistered allocator is fatal rather than returned. Counting leading zeros and rounding up to a power of two are exact for all 32-bit values. The range, sign, rounding, container-of, array-size, struct-init and error-exit macros satisfy their definitions, also for expressions as arguments.",
 ["inputs", "call sequences"], "All 32-bit values for the bit functions; power of two up to 2^31; one sequence of allocator registrations with every failing step; macro operands over a range around their limits.",
 "Tests check a few values; the bit tricks quantify over all words and the allocator failure paths are never taken in tests.",
 ["src/platform.c", "include/embc/platform.h", "include/embc/cdef.h"],
 [("allocator", "src/platform.c embc_allocator_set"), ("bit functions", "include/embc/platform.h embc_clz"), ("base macros", "include/embc/cdef.h")],
 "other", TECH, NOTE,
 "Each primitive is interpreted abstractly over its whole input range, one interval per power of two for the bit functions, and compared with its definition.",
 jobs=[J("allocator", "H_ALLOC", functions=["embc_allocator_set"]), J("bits", "H_CLZ"), J("memory", "H_MEM"), J("macros", "H_CDEF")],
 quick32=True, big_endian=True)
