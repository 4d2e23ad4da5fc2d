from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("tx_" + n, "framer.c", CC + d, slevel=200000, ticks=2000, opts=HEAP, extra=F, allow_unreached=["nacked", "retransmit", "late_send"], **k)
P = Prop(
 "C04", "Framer reports every sent message exactly once, in order, and only truthfully",
 "Whatever the order of HAL completions, timeouts, acknowledgements (any mask), negative and stale acknowledgements and further sends, every sent message is reported to its port exactly once, in order, with its own port, message id and port_def, with status 0 only if the peer acknowledged it, and promptly once it and all earlier ones are. At most 3 messages are outstanding, the next ones start as soon as there is room, retransmissions repeat the same frame, acknowledged frames are not sent again. An unacknowledged message is given up with an error after 16 retries, and the following ones still complete.",
 ["histories", "schedules"], "1 to 4 messages sent at once and up to 3 later, 2 (thorough 3) arbitrary events out of 12, then a complete drain; starting ids 0 and 14; sending from inside the callback; give-up by timeout, by negative acknowledgements and with a HAL that never completes, also in transmit slots which were used and retried before.",
 "Tests follow a few event orders; lost, duplicated or early completions need particular interleavings.",
 FILES, [("tx_complete, tx_error, tx_confirmed, transmit_queued", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "Ghost peer, HAL, timer and per-message state; the invariants (completion, window, timer, buffers) are checked after every event, and a drain at the end must complete everything.",
 jobs=[J(f"e{f}", ["H_TX", "S0=1", "DEPTH=2", f"FIRST={f}"], functions=["embc_framer_*"], tiers=Q) for f in range(12)] +
      [J("wrap", ["H_TX", "S0=3", "S=3", "DEPTH=1", "PRE=14"]), J("reenter", ["H_TX", "S0=4", "DEPTH=1", "REENTER"]),
       Eva("tx_giveup_reused", "framer.c", CC + ["H_GIVEUP", "PRE=3"], slevel=200000, ticks=2000, opts=HEAP, extra=F),
       Eva("tx_giveup", "framer.c", CC + ["H_GIVEUP"], slevel=200000, ticks=2000, opts=HEAP, extra=F)] +
      [J(f"e{f}_deep", ["H_TX", "S0=1", "DEPTH=3", f"FIRST={f}"], tiers=T, timeout=3400) for f in range(12)] +
      [J("reenter2", ["H_TX", "S0=2", "DEPTH=2", "REENTER"], tiers=T, timeout=3000), J("wrap2", ["H_TX", "S0=2", "DEPTH=2", "PRE=14"], tiers=T, timeout=3000)])
