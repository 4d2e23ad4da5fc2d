from .common import *
P = Prop(
 "C18", "Block allocator returns disjoint ranges and finds free room when it exists",
 "Every range allocated from the block allocator lies inside the managed memory, starts on a block boundary, covers the requested size and never overlaps another allocated range. Allocation fails (null, or fatal in the asserting variant) exactly when no run of free blocks is large enough, for any requested size, and takes the first such run. Freed ranges become available again, and freeing memory outside the managed range or blocks that are not allocated is fatal.",
 ["histories", "inputs"], "Managed memories of up to 10 blocks with three block sizes and partial tail blocks; all histories of three allocations, a free, an allocation, a free and an allocation over several sizes; managed memories of 8 to 131 blocks completely filled with runs of one to five blocks, every second one freed and allocated again; runs of 300 to 1000 blocks among 2100; requested sizes up to the 32-bit maximum.",
 "Tests cover a few sizes; the bitmap search depends on the exact occupancy pattern and byte boundaries.",
 ["src/memory/block.c", "include/embc/memory/block.h"],
 [("allocation bitmap and greedy search", "src/memory/block.c")],
 "other", TECH, NOTE,
 "Every history in the scope is interpreted abstractly with the allocator state in a region of exactly the reported size; results are compared with a ghost occupancy map.",
 jobs=[Eva("mblock_history", "mblock.c", ["H_HIST", "NBLK=10"], slevel=300000, opts=UA, tiers=Q, functions=["embc_mblock_*"]),
       Eva("mblock_history_deep", "mblock.c", ["H_HIST", "H_DEEP", "NBLK=9"], slevel=900000, opts=UA, tiers=T, timeout=850),
       Eva("mblock_bitmap", "mblock.c", ["H_BITMAP", "NBLK=131"], ticks=2000, slevel=300000, opts=UA, allow_unreached=["fatal", "exhausted"]),
       Eva("mblock_wide", "mblock.c", ["H_WIDE", "NBLK=2"], ticks=20000, slevel=300000, opts=UA, allow_unreached=["fatal", "exhausted"]),
       Eva("mblock_large", "mblock.c", ["H_LARGE", "NBLK=11"], slevel=100000, opts=UA, allow_unreached=["exhausted"])])
