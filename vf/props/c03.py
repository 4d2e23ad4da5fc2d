from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("window_" + n, "framer.c", d, slevel=200000, ticks=2000, opts=HEAP, extra=F, **k)
P = Prop(
 "C03", "Framer receives in order, exactly once, with truthful acknowledgements",
 "For a peer with at most 3 outstanding frames, under any loss of frames and acknowledgements and any order of retransmission, the application receives the messages in sequence, each exactly once, across the wrap of the frame id; messages received without a gap are all delivered. Every received frame is acknowledged once with its own bit set, and no mask bit claims a frame which was not received. The receive timeout releases held back frames in sequence without losing buffers, and a resynchronization by the peer discards them.",
 ["histories"], "All histories of 4 (thorough 5) frame arrivals at starting ids around the wrap, each any of the 3 outstanding frames, each acknowledgement lost or not; afterwards the timeout, late or on time; 3 arbitrary events (any frame of a peer that ignores the window, resynchronization, timeout, own messages) with a frame held back.",
 "The window logic depends on combinations of gaps, duplicates and id wrap which need specific loss patterns.",
 FILES, [("rx_hook_fn, rx_insert, rx_complete_queued", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "A ghost sender chooses any permitted frame; received, acknowledged and delivered sets are tracked in ghost arrays; the checksum functions are replaced by constants here (C01, C02 and C06 use the real ones).",
 jobs=[J(f"{k}_{f}", ["CRC_CONST", "H_WINDOW", f"K0={k}", f"K1={k}", f"FIRST={f}"], tiers=Q, functions=["embc_framer_*"], allow_unreached=["all"]) for k in (13, 15) for f in (0, 1, 2)] +
      [J(f"{k}_{f}_deep", ["CRC_CONST", "H_WINDOW", "DEPTH=5", f"K0={k}", f"K1={k}", f"FIRST={f}"], tiers=T, timeout=3000, allow_unreached=["all"]) for k in (0, 7, 12, 13, 14, 15) for f in (0, 1, 2)] +
      [Eva(f"any_peer{f}", "framer.c", ["CRC_CONST", "H_RXT", "SYNC=14", f"FIRST={f}"], slevel=200000, ticks=2000, opts=HEAP, extra=F, allow_unreached=["released", "both", "held"]) for f in (2, 3)])
