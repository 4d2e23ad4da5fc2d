from .common import *
P = Prop(
 "C15", "State machine follows its transition table, one event at a time",
 "For every table and event, the state machine takes the first transition in table order that matches the current state and event (with wildcards), honours the handler's stay, continue, skip or override answer, calls the old state's exit handler before and the new state's enter handler after the state changes, and otherwise stays put. Events raised by handlers are handled in order after the current event completes, none is lost, and exceeding the queue is reported as fatal. Initialization rejects misnumbered states and transitions to or from undeclared states, and moving to an undeclared state is fatal.",
 ["inputs", "histories", "programs"], "All one- and two-transition tables over wildcards, matching and non-matching entries and every handler answer; every pattern of events raised by up to 3 handler activations from every queue offset; bursts of up to 20 events; a table of 300 transitions over 127 states.",
 "Tests use one table; the matching rules, re-entrant events and the queue wrap-around depend on tables and event patterns that tests do not have.",
 ["src/fsm.c", "include/embc/fsm.h"],
 [("table search, transition and event queue", "src/fsm.c")],
 "other", TECH, NOTE,
 "An arbitrary table from the scope and an arbitrary event are interpreted abstractly; the trace of handler calls (with the state each observes) and the final state are compared with a reference interpreter written from the header.",
 jobs=[Eva("fsm_step1", "fsm.c", ["H_STEP", "NT=1"], slevel=100000, opts=REC(10), functions=["embc_fsm_*"], allow_unreached=["fatal"]),
       Eva("fsm_step2", "fsm.c", ["H_STEP", "NT=2"], slevel=100000, opts=REC(10)),
       Eva("fsm_queue", "fsm.c", ["H_QUEUE", "BUDGET=3"], slevel=100000, opts=REC(10), tiers=Q),
       Eva("fsm_queue5", "fsm.c", ["H_QUEUE", "BUDGET=5"], slevel=100000, opts=REC(10), tiers=T),
       Eva("fsm_big", "fsm.c", ["H_BIG"], ticks=2000, slevel=100000, opts=REC(10)),
       Eva("fsm_full", "fsm.c", ["H_FULL"], slevel=100000, opts=REC(10)),
       Eva("fsm_init", "fsm.c", ["H_INIT"], slevel=100000, opts=REC(10)),
       Eva("fsm_init_ok", "fsm.c", ["H_INITOK"], slevel=100000, opts=REC(10))])
