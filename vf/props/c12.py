from .common import *
P = Prop(
 "C12", "String map is keyed by string content and owns its keys",
 "For every history of put, remove and get, a string map returns for each key string exactly the most recently put and not removed value, matching by string content even when different strings have the same hash, when one is a prefix of another, or after the caller reuses its key storage. It reports the previous value on put (null for a new key) and remove, reports absence otherwise, and its length is the number of keys present. Freeing the map releases every allocation, and removed keys are released exactly once.",
 ["histories", "inputs"], "All histories of the scope over five keys with equal hashes, shared bins, prefixes and non-ASCII bytes; keys in the first and last bins; 270 entries.",
 "Tests use a few distinct words; colliding keys and key ownership need specific strings and later reuse of the caller's storage.",
 ["src/collections/strmap.c", "include/embc/collections/strmap.h"],
 [("hash, string comparison and key duplication", "src/collections/strmap.c")],
 "other", TECH, NOTE,
 "The string map sources are interpreted abstractly under every history in the scope with an ownership-tracking heap; results, lengths and live allocations are compared with a ghost map.",
 assumptions=["allocation succeeds (out of memory is fatal by the headers)"],
 jobs=[Eva("strmap", "strmap.c", ["H_MAP"], slevel=50000, opts=UA, tiers=Q, functions=["embc_strmap_*"]),
       Eva("strmap_long", "strmap.c", ["H_LONG"], slevel=50000, ticks=2000, opts=UA, allow_unreached=["remove_absent", "removed"]),
       Eva("strmap_bins", "strmap.c", ["H_BINS"], slevel=50000, ticks=2000, opts=UA, allow_unreached=["remove_absent", "removed"]),
       Eva("strmap_many", "strmap.c", ["H_MANY"], slevel=400000, opts=UA[:-2] + ["600", "-unsafe-arrays"], ticks=5000, allow_unreached=["remove_absent", "removed"]),
       Eva("strmap_deep", "strmap.c", ["H_DEEP"], slevel=400000, opts=UA, tiers=T, timeout=800)],
 quick32=True)
