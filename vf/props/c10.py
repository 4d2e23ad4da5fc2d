from .common import *
P = Prop(
 "C10", "Linked-list operations preserve order, membership and structure",
 "After any list operation (add to head or tail, insert before or after an entry, remove, replace, append one list to another, remove head or tail) the list contains exactly the expected entries in the expected order, is consistently linked in both directions, and unrelated lists and entries are untouched. Queries (emptiness, length, membership, index lookup and peeking at either end) report exactly that content. The foreach macros visit every entry once, in order or reverse order, and the safe variant tolerates removal of the visited entry.",
 ["histories", "inputs"], "All configurations of two lists with up to 3 (thorough: 4) and 2 entries, every operation and every argument entry; the queries also on a list of 400 (thorough: 3000) entries.",
 "Tests check a handful of lists; a broken back link or a wrong neighbour shows only under a later operation on a particular configuration.",
 ["include/embc/collections/list.h", "src/collections/list.c"],
 [("inline list primitives and traversal macros", "include/embc/collections/list.h"), ("length, index and append operations", "src/collections/list.c")],
 "other", TECH, NOTE,
 "Starting from an arbitrary well-formed configuration of two lists, one arbitrary operation with arbitrary valid arguments is interpreted abstractly; the resulting links of every node are compared with a ghost sequence model. Because the configuration before the operation is arbitrary (within the size bound) the step argument covers every history that stays within the bound.",
 jobs=[Eva("list_mutate", "list.c", ["H_MUTATE"], slevel=50000, functions=["embc_list_*"]),
       Eva("list_query", "list.c", ["H_QUERY"], slevel=50000),
       Eva("list_long", "list.c", ["H_LONG", "LONG=400"], slevel=400000, tiers=Q, ticks=10000), Eva("list_long", "list.c", ["H_LONG", "LONG=3000"], slevel=400000, tiers=T, timeout=1500, ticks=100000),
       Eva("list_foreach", "list.c", ["H_FOREACH"], slevel=50000, tiers=Q),
       Eva("list_foreach4", "list.c", ["H_FOREACH", "MAXA=4"], slevel=100000, tiers=T)],
 quick32=True)
