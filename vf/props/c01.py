from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("rx_" + n, "framer.c", d, slevel=200000, ticks=8000, opts=HEAP, extra=R, **k)
P = Prop(
 "C01", "Framer delivers intact frames unchanged and never a damaged frame",
 "After a resync to any frame id, an intact data frame for a supported port is handed exactly once to that port's callback with its port, message id, port_def and payload unchanged, the cursor at the payload, and exactly one acknowledgement for that id with status 0. A frame with a damaged header, an impossible length or a damaged payload or checksum is never delivered; a damaged body is answered with a message integrity acknowledgement for that id. A frame for an unsupported port is dropped, and no buffer is lost in any case.",
 ["inputs"], "All 16 frame ids (quick: 3), payload lengths 0..4, ports 0, 7, 15, 16, 255, fed whole or by byte; no start byte, damaged header, every damaged checksum byte, impossible length; every single bit error of one frame.",
 "Tests feed a few fixed frames; a checksum range or field mix-up shows only for particular bits and fields.",
 FILES, [("embc_framer_validate, rx_hook_fn, rx_complete", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "A ghost peer feeds frames (real checksums) into the receiver; a ghost application, HAL and buffer owner model check delivery, acknowledgement and buffer ownership on every path.",
 jobs=[J("bits", ["H_RX", "REAL=1"], allow_unreached=["bad_port"], functions=["embc_framer_*"]),
       J("fields", ["H_RX"], tiers=Q), J("fields_full", ["H_RX", "FULL"], tiers=T, timeout=3000)])
