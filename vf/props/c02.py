from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("parse_" + n, "framer.c", d, slevel=200000, ticks=8000, opts=HEAP, extra=R, timeout=1500, **k)
P = Prop(
 "C02", "Framer receiver extracts exactly the frames of a byte stream and resynchronizes",
 "For a stream of garbage, a truncated, damaged, over-announcing or nested frame, and further intact frames, the receiver hands on exactly the frames which a greedy left-to-right scan of the stream finds (start byte, header checksum, length, frame checksum), each as soon as its last byte arrived and byte for byte unchanged. This holds whether the stream is fed bytewise or whole. Meanwhile it sends at most one negative acknowledgement per byte, loses no buffer and never aborts.",
 ["inputs"], "Garbage prefixes up to 2 (thorough 3) bytes over start byte, zero and other; truncation at every length, damage of every byte, a frame nested in a damaged or intact one, headers announcing 40, 240 or 241 bytes which do not follow, and a frame starting inside such a header at each offset.",
 "Resynchronization depends on where start bytes and damage fall; tests try a few positions.",
 FILES, [("embc_framer_hal_rx_byte, framer_resync", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "The delivered frames are compared after every byte with a ghost greedy scanner that computes its own checksums.",
 jobs=[J("cut", ["H_PARSE", "KIND=0"], tiers=Q, functions=["embc_framer_hal_rx_byte"]), J("damaged", ["H_PARSE", "KIND=1"], tiers=Q), J("nested", ["H_PARSE", "KIND=2"]),
       J("announced", ["H_PARSE", "KIND=3", "GMAX=1"], allow_unreached=["whole"]),
       *[Eva(f"parse_inside{k}", "framer.c", CC + (["C8=0xAA"] if k == 7 else []) + ["H_PARSE", "KIND=4", "GMAX=1", f"OFS={k}"], slevel=200000, ticks=3000, opts=HEAP, extra=F, timeout=1500, allow_unreached=["whole"]) for k in range(2, 8)],
       J("cut3", ["H_PARSE", "KIND=0", "GMAX=3"], tiers=T), J("damaged3", ["H_PARSE", "KIND=1", "GMAX=3"], tiers=T)])
