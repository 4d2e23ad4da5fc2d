from .common import *
F = ["src/stream/framer.c"]
R = F + ["src/crc.c"]
FILES = ["src/stream/framer.c", "include/embc/stream/framer.h"]
CC = ["CRC_CONST"]
J = lambda n, d, **k: Eva("timer_" + n, "framer.c", CC + d, slevel=200000, ticks=2000, opts=HEAP, extra=F, **k)
P = Prop(
 "C07", "Framer keeps one timer, armed for the earliest deadline while a frame waits",
 "The framer never has more than one timer set, cancels only the active one, arms it exactly when a transmitted frame waits for its acknowledgement (or received frames are held back), for the earliest of the per-frame deadlines, each one fixed timeout after that frame's last transmission (for received frames, another fixed timeout after the last one arrived). When the timer expires, also late, exactly the waiting frames whose deadline has passed are sent again, and a frame that is acknowledged no longer keeps the timer running.",
 ["histories", "schedules"], "3 (thorough 4) events after the first send: further sends at different times, in and out of order acknowledgements, expiry on time or late; up to 4 messages; plus arbitrary event orders of C04 with a slow HAL, and 3 arbitrary reception, transmission and timer events of any peer.",
 "Deadlines interact with completions in orders which tests do not produce.",
 FILES, [("timer_schedule, timer_callback, transmit_tx_buf", "src/stream/framer.c")],
 "other", TECH, NOTE,
 "A ghost timer and ghost deadlines per message; after every event the armed time must equal the earliest ghost deadline.",
 jobs=[J("deadlines", ["H_TIMER", "DEPTH=3"], tiers=Q, functions=["embc_framer_*"]), J("deadlines4", ["H_TIMER", "DEPTH=4"], tiers=T, timeout=3000),
       J("slow_hal", ["H_TX", "S0=3", "DEPTH=2", "FIRST=1"], allow_unreached=["nacked", "retransmit", "late_send"])] +
      [J(f"receive{f}", ["H_RXT", "SYNC=14", f"FIRST={f}"], tiers=Q, functions=["embc_framer_*"], allow_unreached=["released", "both", "held"]) for f in (0, 1, 2, 3, 4, 5, 7)] +
      [J("receive_reply", ["H_RXT", "SYNC=3", "REPLY", "FIRST=2"], allow_unreached=["released", "both", "held"]), J("receive_unsynchronized", ["H_RXT"], allow_unreached=["both"])])
