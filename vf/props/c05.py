from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("own_" + n, "framer.c", CC + d, slevel=200000, ticks=2000, opts=HEAP, extra=F, **k)
P = Prop(
 "C05", "Framer never loses, double frees or touches buffers it does not own",
 "Every buffer is at any time owned by exactly one of the framer, the HAL, the application or the allocator: the framer frees or transmits only buffers it owns, never one the HAL still holds. This includes a resync with messages waiting, acknowledged, held by the HAL or received and held back, sending and resyncing from inside callbacks, and late acknowledgements and timeouts. Once the HAL returned its buffers and the peer acknowledged, the framer retains only its receive buffer, and every purged message has been reported once as aborted.",
 ["histories", "schedules"], "0 to 4 sent messages, 0 to 2 completed by the HAL, 0 to 2 received and held back, acknowledgement before the purge or not, nothing, an acknowledgement or a timeout after it; reentrant sends and resyncs; acknowledgements with other payload lengths, unknown ids, unsupported ports or damage.",
 "An ownership error needs a purge or completion at the moment the HAL holds the buffer.",
 FILES, [("embc_framer_hal_tx_done, tx_purge_queued, rx_purge_queued", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "An ownership (typestate) model of every buffer: allocation, free, hand over to HAL and application are the only transitions; the give-up scenarios of C04 are interpreted under the same model.",
 jobs=[J(f"purge{r}", ["H_OWN", f"RE={r}"], tiers=Q, functions=["embc_framer_*"]) for r in range(3)] +
      [J(f"purge{r}_full", ["H_OWN", f"RE={r}", "FULL"], tiers=T, timeout=3000) for r in range(3)] +
      [J("noise", ["H_NOISE", "DEPTH=1"], tiers=Q), J("noise2", ["H_NOISE", "DEPTH=2"], tiers=T, timeout=3000), J("giveup", ["H_GIVEUP"]), J("rx", ["H_STAT", "DEPTH=2"])])
