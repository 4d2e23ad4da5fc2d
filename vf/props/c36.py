from .common import *
J = lambda n, d, *x, **k: Eva(n, "lib.c", [d, *x], slevel=1000000, timeout=400, **k)
T = ("HV_KEEP=100",)
P = Prop(
 "C36", "Host library services route fatal errors, text and memory to the host",
 "A fatal error reaches the installed handler exactly once with its file, line, message and user data; without a handler it is printed. Every log message printed after a print handler is installed reaches exactly that handler once, fully formatted and null-terminated, with text beyond the internal buffer cut off and never overflowing it; without a handler it goes to standard output. Memory comes from the host allocator, cleared, is returned to it once, and freeing null does nothing.",
 ["inputs", "call sequences"], "Installing, replacing and removing both handlers; extreme and ordinary line numbers; texts shorter and longer than the internal buffer; allocations of 1 to 32 bytes with and without failure.",
 "No test calls the host library services: they are only reachable from the shared library.",
 ["src/lib.c", "include/embc/lib.h"],
 [("handlers", "src/lib.c embc_lib_fatal_set, embc_lib_print_set"), ("text", "src/lib.c embc_lib_printf_"), ("memory", "src/lib.c embc_lib_alloc")],
 "other", TECH, NOTE,
 "The host library is interpreted abstractly with recording handlers, a recording host allocator and a model of the C formatter; texts and calls are compared exactly.",
 assumptions=["the C formatter is modelled for %s %d %c %%"],
 jobs=[J("fatal", "H_FATAL", *T, functions=["embc_fatal", "embc_lib_fatal_set"]), J("print", "H_PRINT", *T, functions=["embc_lib_print_set"]),
       J("long_text", "H_LONG", "HV_KEEP=100"), J("heap", "H_HEAP", *T, functions=["embc_lib_alloc", "embc_lib_free", "embc_lib_initialize"])])
