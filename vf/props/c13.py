from .common import *
P = Prop(
 "C13", "Hash map is keyed by the user's equivalence, not by the hash",
 "For every history of puts, a hash map with user-supplied hash and equivalence functions returns for each key the most recently put value of an equivalent key and reports absence of keys that have no equivalent, even when keys share a hash or a bin or have negative hashes. Put reports the previous value, or null for a new key, and length is the number of distinct keys. Creation without either callback is refused, and freeing releases every allocation.",
 ["histories", "inputs"], "All histories of up to 3 (thorough: 4) puts over four key classes including equal hashes, equal bins, negative hashes and wide hashes that agree in their low bits, two objects per class; 270 entries.",
 "Tests use few keys with distinct hashes; equal-hash keys and negative hashes need specific callbacks.",
 ["src/collections/hashmap.c", "include/embc/collections/hashmap.h"],
 [("chained bins compared by hash and equivalence", "src/collections/hashmap.c")],
 "other", TECH, NOTE,
 "The hash map sources are interpreted abstractly under every put history in the scope; gets, lengths, previous values and live allocations are compared with a ghost map. Removal and iteration are declared but not implemented in the repository, so they are outside this property (see C34).",
 assumptions=["allocation succeeds (out of memory is fatal by the headers)"],
 jobs=[Eva("hashmap", "hashmap.c", ["H_MAP"], slevel=50000, opts=HEAP, tiers=Q, functions=["embc_hashmap_*"]),
       Eva("hashmap_hashes", "hashmap.c", ["H_HASHES"], slevel=50000, opts=HEAP),
       Eva("hashmap_many", "hashmap.c", ["H_MANY"], slevel=400000, opts=HEAP[:-1] + ["600"], ticks=5000),
       Eva("hashmap_deep", "hashmap.c", ["H_DEEP"], slevel=400000, opts=HEAP, tiers=T, timeout=800)],
 quick32=True)
