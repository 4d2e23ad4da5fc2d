from .common import *
P = Prop(
 "C24", "Each CRC is exact polynomial division and can be continued block by block",
 "The 8, 16 and 32-bit CRC functions equal bit-serial division by x^8+x^2+x+1 (reflected), x^16+x^12+x^5+1 and the reflected IEEE 802.3 polynomial with all-ones initialisation and final inversion, for all data and for every previous CRC passed in, so computing in blocks equals computing at once. Every error burst no longer than the CRC changes the result. Null or empty data leaves the CRC unchanged, and exactly the given bytes are read.",
 ["inputs"], "All data bytes and all previous CRC values for lengths 0 to 257 (selected above 40; thorough: to 300), and one block of 66000 fixed bytes.",
 "Tests check a few known vectors; a wrong tap or mask can leave them intact and data-dependent errors need specific bytes.",
 ["src/crc.c", "include/embc/crc.h"],
 [("bit-serial and byte-wise division", "src/crc.c")],
 "proof", GTECH, GNOTE,
 "The functions are interpreted over symbolic data and previous CRC; the affine form of every result bit is compared with polynomial division, and burst detection is decided by the rank of the derived syndrome columns.",
 extra=[G("crc")], trusted=GTRUST, rule=GRULE)
