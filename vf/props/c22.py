from .common import *
def S(lo, hi, **k): return Eva(f"balloc_sizes_{max(lo,0)}", "balloc.c", ["H_SIZES", f"LO={lo}", f"HI={hi}"], slevel=100000, opts=HEAP, timeout=800, **k)
P = Prop(
 "C22", "Buffer allocator returns disjoint, large enough buffers and loses none",
 "Every buffer allocated from the buffer allocator has a capacity of at least the requested size, taken from the smallest sufficient size class, starts empty, and its header and storage lie inside the allocator's memory disjoint from all other outstanding buffers. Requests of zero or beyond the largest class are fatal; an exhausted class is fatal or, in the unsafe variant, yields null. A freed buffer returns to its own size class, so the configured number of buffers of each class can always be allocated again.",
 ["inputs", "histories"], "Requested sizes from -1 to beyond the 4096-byte maximum over eight size classes (quick: the neighbourhoods of the class limits; thorough: every size); all histories of three allocations, a free and an allocation over two (thorough: three) classes of 0 to 2 buffers; a class of 300 buffers and classes up to 32768 bytes.",
 "Tests allocate a few sizes from well-stocked classes; class boundaries and exhaustion of neighbouring classes need specific sizes and histories.",
 ["src/memory/buffer.c", "include/embc/memory/buffer.h", "include/embc/platform/stdlib.h"],
 [("size class computation, pool lists and free callback", "src/memory/buffer.c"), ("count leading zeros", "include/embc/platform/stdlib.h")],
 "other", TECH, NOTE,
 "The allocator is interpreted abstractly on a region of exactly the reported instance size for every size and history in the scope; addresses, capacities and contents are compared with a ghost model, and at the end every class must supply exactly its configured count.",
 jobs=[S(-1, 130, tiers=Q, functions=["embc_buffer_alloc*"]), S(252, 260, tiers=Q), S(510, 516, tiers=Q), S(1022, 1028, tiers=Q), S(2046, 2052, tiers=Q), S(4092, 4100, tiers=Q),
       S(-1, 2100, tiers=T), S(2100, 4100, tiers=T),
       Eva("balloc_history", "balloc.c", ["H_HIST", "NPOOL=2"], slevel=100000, opts=HEAP),
       Eva("balloc_large", "balloc.c", ["H_LARGE"], ticks=20000, slevel=500000, opts=HEAP),
       Eva("balloc_history3", "balloc.c", ["H_HIST", "NPOOL=3"], slevel=400000, opts=HEAP, tiers=T, timeout=800)])
