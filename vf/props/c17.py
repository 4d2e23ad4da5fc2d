from .common import *
P = Prop(
 "C17", "Object pool destroys an object exactly when its last reference drops",
 "An object allocated from an object pool lies inside the pool, never overlaps another live object, and is either passed once to the constructor or zeroed. Decrementing returns true and runs the destructor exactly once when the last reference is dropped, and returns false without touching the object before that; an object stays intact and unavailable until its destructor returns, even when constructor or destructor use the same pool. Returned objects become available again, and allocation from an exhausted pool is fatal.",
 ["histories", "inputs"], "Pools of 1 to 3 objects of several sizes with and without constructor and destructor, all histories of 5 (thorough: 6) allocate, increment and decrement operations; constructors and destructors that allocate or release in the same pool.",
 "Tests use one size and at most one extra reference; interleaved references and reuse need particular histories.",
 ["src/memory/object_pool.c", "include/embc/memory/object_pool.h"],
 [("reference count in the element header and free list", "src/memory/object_pool.c")],
 "other", TECH, NOTE,
 "Every history in the scope is interpreted abstractly on a memory region of exactly the reported instance size; reference counts, constructor and destructor calls, addresses and contents are compared with a ghost model.",
 jobs=[Eva("object_pool", "pool.c", ["H_OBJ", "STEPS=5", "SZMAX=3"], slevel=100000, opts=HEAP, functions=["embc_object_pool_*"], tiers=Q),
       Eva("object_pool_nested", "pool.c", ["H_OBJ", "H_NEST"], slevel=100000, opts=HEAP + REC(10)),
       Eva("object_pool_large", "pool.c", ["H_OBJ", "H_LARGE", "NREF=300"], ticks=20000, slevel=500000, opts=HEAP),
       Eva("object_pool6", "pool.c", ["H_OBJ", "STEPS=6", "SZMAX=6"], slevel=900000, opts=HEAP, tiers=T, timeout=850)])
