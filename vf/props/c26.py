from .common import *
P = Prop(
 "C26", "Test pattern is exact and its receiver counts lost and repeated words",
 "The pattern generator emits exactly the documented word sequence from any position, whether generated word by word or by buffer of any length, and writes only whole words of the buffer. A receiver joins at any position with two words without reporting errors, never reports errors, missing or duplicate words on an intact stream, and counts every received word. A skip or repetition of up to nearly half the period is counted as exactly that many missing or duplicate words after one detected error, and after a corrupted word the receiver reports an error and resynchronizes.",
 ["inputs", "fault_sequences"], "21 stream positions around every wrap of the shift pattern, counter and period; 22 gap lengths from 1 to 2162625 words; every single-bit corruption of the word at each position; a stream of 300 words through the buffer functions.",
 "Tests check a few thousand words from the start; wraps, joins, long gaps and repetitions are beyond the samples.",
 ["src/pattern_32a.c", "include/embc/pattern_32a.h"],
 [("shift and counter sub-patterns", "src/pattern_32a.c"), ("resynchronization by modular distance", "src/pattern_32a.c")],
 "other", TECH, NOTE,
 "Positions and gaps are abstract inputs split over the boundary classes of the pattern; generator and receiver are interpreted abstractly and compared with the documented closed form of the pattern.",
 jobs=[Eva("pattern_tx", "pattern.c", ["H_TX"], slevel=100000, functions=["embc_pattern_32a_*"]),
       Eva("pattern_rx", "pattern.c", ["H_RX"], slevel=100000, timeout=800),
       Eva("pattern_buffer", "pattern.c", ["H_BUF"], slevel=200000, ticks=5000),
       Eva("pattern_corrupt", "pattern.c", ["H_CORRUPT"], slevel=100000)])
