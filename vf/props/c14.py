from .common import *
P = Prop(
 "C14", "Scheduled events fire once, when due, in time order",
 "Every scheduled and not cancelled event fires exactly once, never before its time, in order of time and in schedule order for equal times, and never after it was cancelled; a process call fires every event that is due and returns how many fired. Callbacks may schedule and cancel events, including the running one, without corrupting the manager. The next-time and interval queries always reflect the earliest pending event, event identifiers are non-zero and unique among pending events, non-positive times are ignored, and freeing the manager releases every allocation.",
 ["histories", "inputs", "schedules"], "All histories of up to 3 scheduled events with every relative order of 64-bit times, one cancellation at every position, every process time relative to them, and every callback action; 270 events pending at once.",
 "Tests schedule two or three events in one order; re-entrant scheduling and cancelling, equal times and 64-bit times are not reached.",
 ["src/event_manager.c", "include/embc/event_manager.h"],
 [("sorted pending list, free list and processing loop", "src/event_manager.c")],
 "other", TECH, NOTE,
 "The event manager is interpreted abstractly under every history in the scope. Times are only compared by the implementation, so one representative per ordering, chosen beyond 32 bits, covers the order classes; callbacks compare each firing with a ghost schedule.",
 assumptions=["times are only compared and subtracted by the implementation: representatives cover the order classes"],
 jobs=[Eva("evm_cancel", "evm.c", ["H_CANCEL", "NEV=2"], slevel=50000, opts=HEAP, functions=["embc_evm_*"],
           allow_unreached=["cbk_cancel", "cbk_cancel_self", "cbk_sched_due", "cbk_sched_later"]),
       Eva("evm_reentrant", "evm.c", ["H_REENTRANT", "NEV=3"], slevel=50000, opts=HEAP, allow_unreached=["nonpositive"]),
       Eva("evm_many", "evm.c", ["H_MANY"], slevel=100000, ticks=5000, opts=HEAP[:-1] + ["400"], timeout=600),
       Eva("evm_cancel3", "evm.c", ["H_CANCEL", "NEV=3"], slevel=400000, opts=HEAP, tiers=T, timeout=850,
           allow_unreached=["cbk_cancel", "cbk_cancel_self", "cbk_sched_due", "cbk_sched_later"])])
