from .common import *
S = lambda *f: ["src/" + x + ".c" for x in f]
J = lambda n, d, x, **k: Eva(n, "dbc.c", [d], slevel=100000, opts=UA, extra=x, timeout=400, **k)
P = Prop(
 "C37", "Calls that violate a contract stop before they touch memory",
 "A null instance given to a function of the memory pool, the block allocator (finalize excepted), the buffer (inline accessors excepted), the state machine, the pseudo-random sequence, the command line, the asynchronous sink, the framer (finalize excepted), the integer map or the asynchronous source (open excepted) stops in embc_fatal before any memory is touched. So do null data or text of a buffer access, null memory or a null block of a pool or block allocator, allocation sizes that are not positive, a null buffer, allocator or HAL callback and ports and payload lengths beyond the limits of the framer, writes, reads and cursor or erase positions outside a buffer, and freeing mblock ranges which are foreign or not allocated. The maps instead treat a null map as empty when asked for its length or to free it.",
 ["inputs"], "133 violating calls (130 contracts), numeric arguments over ranges beyond their limits.".replace("133 violating calls (130 contracts)", "About 130 violating calls"),
 "Tests exercise a few of the contracts; a check that moved behind the first access or disappeared stays unnoticed.",
 ["src/memory/", "src/stream/", "src/collections/", "src/fsm.c", "src/lfsr.c", "src/pattern_32a.c", "src/cli.c"],
 [("contract checks", "src/memory/buffer.c")],
 "other", TECH, NOTE,
 "Every violating call is interpreted abstractly: it must end in the fatal handler, without an invalid access before and without returning.",
 jobs=[J("memory", "H_MEMORY", S("memory/pool", "memory/object_pool", "memory/block", "memory/buffer")),
       J("logic", "H_LOGIC", S("fsm", "lfsr", "pattern_32a", "cli", "cstr")),
       J("maps", "H_MAPS", S("collections/intmap", "collections/strmap", "collections/hashmap", "event_manager")),
       J("stream", "H_STREAM", S("stream/async", "stream/async_sink", "stream/async_source", "stream/framer", "memory/buffer", "crc"))],
 quick32=True)
