from .common import *
P = Prop(
 "C11", "Integer map holds exactly the latest value for every key",
 "For every history of put, remove and get, an integer map returns for each key exactly the most recently put value that was not removed, reports the previous value on put (null for a new key) and remove, reports absence of other keys, and its length is the number of keys present; growth of the table loses nothing. A traversal visits every entry that stays in the map exactly once and then ends, even when entries are added or removed during it. Freeing the map releases every allocation, and the generated type-specific wrappers behave identically.",
 ["histories", "inputs"], "All histories of up to 3 puts, a remove and a put over colliding and non-colliding keys (negative, equal bin before and after growth); 17-entry growth histories; every traversal position combined with every put or remove; all traversals over the growth threshold; two simultaneous traversals at all positions with a removal; keys that differ only in their upper half; 270 entries (thorough: 1040).",
 "Tests use few keys in separate bins; chain handling, growth with chained entries and traversal under modification need specific key combinations.",
 ["src/collections/intmap.c", "include/embc/collections/intmap.h"],
 [("open hashing with chained bins, resize and iterator fix-up on remove", "src/collections/intmap.c"), ("EMBC_INTMAP_DEFINE wrappers", "include/embc/collections/intmap.h")],
 "other", TECH, NOTE,
 "The map sources are interpreted abstractly under every operation history in the scope, with a heap model that tracks ownership; lookups, lengths, previous values, traversal contents and the number of live allocations are compared with a ghost map.",
 assumptions=["allocation succeeds (out of memory is fatal by the headers)"],
 jobs=[Eva("intmap_history", "intmap.c", ["H_HISTORY"], slevel=50000, opts=HEAP, functions=["embc_intmap_*"]),
       Eva("intmap_grow", "intmap.c", ["H_GROW"], slevel=50000, opts=HEAP, allow_unreached=["remove_absent", "removed"]),
       Eva("intmap_iterate", "intmap.c", ["H_ITER"], slevel=50000, opts=HEAP),
       Eva("intmap_large_keys", "intmap.c", ["H_HISTORY", "H_BIGKEYS"], slevel=50000, opts=HEAP, skip32=True),
       Eva("intmap_two_iterators", "intmap.c", ["H_ITER2"], slevel=50000, opts=HEAP),
       Eva("intmap_iterate_grow", "intmap.c", ["H_ITERGROW"], slevel=50000, opts=HEAP, allow_unreached=["remove_absent", "removed"]),
       Eva("intmap_many", "intmap.c", ["H_MANY"], slevel=400000, opts=HEAP[:-1] + ["600"], ticks=5000, allow_unreached=["remove_absent", "removed"]),
       Eva("intmap_many_1040", "intmap.c", ["H_MANY", "NM=1040"], slevel=900000, opts=HEAP[:-1] + ["2500"], ticks=20000, tiers=T, timeout=850, soft=True, skip32=True, allow_unreached=["remove_absent", "removed"]),
       Eva("intmap_wrappers", "intmap.c", ["H_WRAP"], slevel=50000, opts=HEAP, allow_unreached=["remove_absent", "removed"])])
