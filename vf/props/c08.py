from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("link_" + n, "framer.c", CC + d, slevel=200000, ticks=2000, opts=HEAP, extra=F, **k)
P = Prop(
 "C08", "Framer link management answers pings and status and counts truthfully",
 "A ping request on port 0 is answered with a ping response of the same message id and payload, a status request without payload with the current counters, without involving the application; every other port 0 message reaches the application's port 0 callbacks, and so does the completion of the application's own port 0 messages. The status counters equal the number of received frames, delivered data frames, acknowledgements, duplicates, synchronization, integrity and sequence errors, completed and repeated transmissions.",
 ["inputs", "histories"], "28 port 0 commands (every single bit change of a link command among them) with payloads of 0..3 and 30 bytes; every sequence of 3 (thorough 4) reception and transmission events of 7 kinds.",
 "Tests check single counters in single situations.",
 FILES, [("port0_rx, port0_tx_done, embc_framer_status_get", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "Ghost counters are compared with the status after every event; responses are compared with the request.",
 jobs=[J("port0", ["H_PORT0"], functions=["embc_framer_*"]), J("status", ["H_STAT", "DEPTH=3"], tiers=Q), J("status4", ["H_STAT", "DEPTH=4"], tiers=T, timeout=3000)])
