from .common import *
P = Prop(
 "C23", "Integer encoding and decoding are exact in both byte orders for every value",
 "Encoding a value of 8 to 64 bits with the byte-buffer macros, the cursor functions or the buffer write functions stores exactly the bytes of that value in the named byte order and changes no other byte; decoding returns exactly the encoded value, for every value. The cursor functions and buffer operations advance by exactly the size of the value, and a buffer's length always covers what was written. Buffer accesses that do not fit are fatal.",
 ["inputs"], "Every value of every width and byte order, through all three interfaces, at several cursor positions.",
 "Tests encode a few constants; sign extension, truncation and byte swaps show only for specific bit patterns.",
 ["include/embc/bbuf.h", "src/memory/buffer.c", "include/embc/memory/buffer.h"],
 [("encode and decode macros", "include/embc/bbuf.h"), ("buffer read and write macros", "src/memory/buffer.c")],
 "proof", GTECH, GNOTE,
 "Each accessor is compiled to IR at three optimisation levels and interpreted with one symbolic affine variable per input bit; the resulting bytes and values are compared with the definition of the byte order, bit by bit.",
 extra=[G("endian")], trusted=GTRUST, rule=GRULE)
