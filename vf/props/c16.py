from .common import *
P = Prop(
 "C16", "Memory pool hands out disjoint in-bounds blocks and loses none",
 "Every block allocated from a pool lies inside the pool's memory, is pointer-aligned and at least the requested size, and never overlaps another allocated block; writing to the full block never disturbs other blocks or the pool. The pool is empty exactly when all its blocks are allocated, and then allocation is fatal or, in the unsafe variant, returns null. Freed blocks become available again, so the configured number of blocks can always be allocated.",
 ["histories", "inputs"], "Pools of 1 to 3 blocks of seven block sizes, all histories of 5 (thorough: 7) allocations and frees in any order.",
 "Tests exercise one size and order; header and rounding errors show only for particular sizes or after particular free orders.",
 ["src/memory/pool.c", "include/embc/memory/pool.h"],
 [("size computation and free list", "src/memory/pool.c")],
 "other", TECH, NOTE,
 "Every history in the scope is interpreted abstractly on a memory region of exactly the reported instance size; each block is filled and later compared, and its address is checked against the pool and all live blocks.",
 jobs=[Eva("pool", "pool.c", ["H_POOL", "STEPS=5"], slevel=100000, opts=HEAP, functions=["embc_pool_*"], tiers=Q),
       Eva("pool_large", "pool.c", ["H_POOL", "H_LARGE"], ticks=20000, slevel=500000, opts=HEAP),
       Eva("pool7", "pool.c", ["H_POOL", "STEPS=7"], slevel=400000, opts=HEAP, tiers=T, timeout=800)])
