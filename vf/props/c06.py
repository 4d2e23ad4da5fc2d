from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("build_" + n, "framer.c", d, slevel=400000, opts=HEAP, extra=R, ticks=10000, **k)
P = Prop(
 "C06", "Constructed and sent frames have the documented layout and checksums",
 "Every frame which the framer constructs or sends (data frames from a payload, from a zero-copy buffer or from a buffer without reserve, and acknowledgements) consists of start byte, type and id, port, message id, length, port_def, CRC-8 of these 7 bytes, the unchanged payload, the little-endian CRC-32 of all bytes before it, and the end byte. The length is exactly 13 bytes plus the payload for every payload of 0 to 240 bytes.",
 ["inputs"], "Payload lengths 0..5, 127, 128, 239, 240 (thorough: 0..240), four field patterns including extremes, six ways of construction including small reserves.",
 "Tests construct a few short frames; layout errors can depend on length, reserve or field values.",
 FILES, [("embc_framer_construct_frame, embc_framer_construct_ack, embc_framer_send", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "Each frame is compared field by field with the documented layout; both checksums are recomputed by an independent reference in the harness.",
 jobs=[J("frames", ["H_BUILD"], tiers=Q, functions=["embc_framer_*"]), J("frames_full", ["H_BUILD", "FULL"], tiers=T, timeout=3000)])
