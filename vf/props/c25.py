from .common import *
P = Prop(
 "C25", "Pseudo-random sequence has full period and its follower finds every error",
 "From every non-zero state the generator steps the polynomial x^16+x^14+x^13+x^11+1, whose sequence repeats only after exactly 65535 steps; the 8, 16 and 32-bit outputs are the next bits of the same sequence and a zero state or seed never sticks. A follower joins an intact stream at any position after two bytes without reporting errors. It reports every corrupted byte, counts one or two errors for it, and follows without errors again after three intact bytes.",
 ["inputs", "histories"], "All 65535 states and seeds, every stream position, every corruption value of a byte.",
 "Tests compare a few outputs from the initial seed; the period and arbitrary join positions and corruptions are beyond samples.",
 ["src/lfsr.c", "include/embc/lfsr.h"],
 [("shift register step", "src/lfsr.c"), ("stream following and resynchronisation", "src/lfsr.c embc_lfsr_follow_u8")],
 "proof", GTECH, GNOTE,
 "The step matrix is derived from the code by affine interpretation and compared with the polynomial; the period follows from the order of that derived matrix; the follower is interpreted with the stream position and corruption symbolic, partitioned on its comparisons.",
 extra=[G("lfsr")], trusted=GTRUST, rule=GRULE)
