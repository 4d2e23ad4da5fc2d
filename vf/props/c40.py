from .common import *
from .. import effects
from .c38 import IR, TR
P = Prop(
 "C40", "Input arguments are neither changed nor kept, and queries change nothing",
 "A function never writes through a parameter that its declaration makes pointer-to-const, and neither such an argument nor the address of a result variable nor a structure documented as copied is kept after the call returns, except the block given to embc_stream_source_configure(). Query functions (lengths, lookups, list searches and peeks, time until the next event, validation, remaining space) change nothing except their result arguments.",
 ["inputs", "histories"], "Every pointer parameter of every public and inline function, for all inputs.",
 "The tests keep their arguments alive and do not compare them afterwards; a retained address shows only when the caller reuses the memory.",
 ["src", "include/embc"],
 [("declarations", "include/embc"), ("definitions", "src")],
 "proof", IR,
 "Decides every pointer parameter of the current tree; memory reached through pointers stored in an argument is only covered for query functions.",
 "For every function the set of parameters, and of memory reached through them, that it writes or whose address it stores is computed on LLVM IR as a fixpoint over the call graph, and compared with the declared types and the list of query functions.",
 assumptions=["the application's callbacks and handlers do not write through what they are given", "C library functions are described by a table in vf/effects.py"],
 trusted=TR,
 rule="const parameters are in no write set; const, result and copied parameters are in no keep set; the write set of a query holds only its result parameters",
 extra=[effects.borrowed])
