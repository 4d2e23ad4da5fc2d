from .common import *
J = lambda d, slevel=100000, **k: Eva("buffer_" + d[0].lower()[2:], "buffer.c", d, slevel=slevel, **k)
P = Prop(
 "C21", "Buffer operations stay within bounds and keep cursor, length and reserve",
 "From every valid buffer state, every write, copy, string write, integer write, read, seek, erase, reset and clear either performs exactly its documented effect on contents, cursor and length, or is fatal because it would exceed the capacity less the reserve (writes), the length (reads, seeks) or the valid range (erase); the truncating string write instead writes what fits and reports truncation. Afterwards cursor is at most length, length is at most capacity, and storage, reserve and all other bytes are unchanged.",
 ["inputs", "histories"], "All cursor, length and reserve combinations of buffers up to 9 bytes, every operation and every size, index and string length around and beyond the limits; a 65535-byte buffer at positions and sizes around 256, 32768 and the end.",
 "Tests use one or two states per operation; off-by-one limits show only at exact cursor, length and reserve combinations.",
 ["src/memory/buffer.c", "include/embc/memory/buffer.h"],
 [("bounds assertions and cursor updates", "src/memory/buffer.c")],
 "other", TECH, NOTE,
 "One arbitrary operation from an arbitrary state satisfying the documented invariant (an inductive step, so every history is covered for these capacities), compared byte for byte with a ghost buffer; the fatal report must occur exactly when the ghost model says so.",
 jobs=[J(["H_WRITE", "NRES=4"], functions=["embc_buffer_*"]), J(["H_COPY", "CAP=5", "NRES=4"]), J(["H_STR", "NRES=4"]), J(["H_WINT", "NRES=4"]),
       J(["H_READ", "NRES=4"]), J(["H_ERASE", "CAP=6", "NRES=3"], tiers=Q), J(["H_ERASE", "CAP=9", "NRES=4"], tiers=T), J(["H_MISC", "NRES=4"]),
       J(["H_LARGE", "CAP=65535"], slevel=1000000)],
 big_endian=True)
