from .common import *
from .. import effects
from .c38 import IR, TR
P = Prop(
 "C39", "Heap use is confined to documented functions and the application's allocator",
 "Only the constructors (new, allocate), insertion into a map and scheduling an event allocate memory, and only the matching destructors, map removals and replacements release any, so that frame reception and transmission, buffers, pools, streams, parsing and state machines run without a heap. All memory is taken from and returned to the allocator that the application set with embc_allocator_set().",
 ["inputs", "histories"], "Every call site of a heap function in the library, in inline functions and in the code that the typed-map macros generate; every public function.",
 "The tests run on a host with a working malloc() and do not observe who allocates.",
 ["src", "include/embc"],
 [("allocator", "src/platform.c"), ("constructors and maps", "src/collections, src/memory/buffer.c, src/event_manager.c, include/embc/collections/intmap.h"), ("all other functions", "src, include/embc")],
 "proof", IR.replace("effect analysis (which parameters and globals each function writes, keeps, returns)", "call-graph effect analysis (heap use)"),
 "Decides every function of the current tree; the application's callbacks may allocate as they like. Amounts and balance are decided by C11 to C14.",
 "All call sites of heap functions are enumerated on LLVM IR and traced through the call graph, and through functions whose address is taken, to the public functions that reach them. Direct use of the C library's heap is a violation, apart from passing malloc() and free() to embc_allocator_set().",
 assumptions=["the application's callbacks and handlers are outside the library"],
 trusted=TR,
 rule="each public function that reaches a heap primitive is one that is documented to allocate or to release; the primitive is embc_alloc() or embc_free()",
 extra=[effects.heap])
