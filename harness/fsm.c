#include "vf.h"
#include "src/fsm.c"

/* ghost hv_trace of handler invocations */
enum { K_T0, K_T1, K_T2, K_ENTER, K_EXIT };
#define TR_MAX 48
static struct { int kind; int state; int event; int of; } tr[TR_MAX];
static int hv_n_tr;
static struct embc_fsm_s hv_f;
static int hv_fatal_ok;

void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
static void hv_trace(int kind, int event, int of) {
    VF_CHECK(trace_bound, hv_n_tr < TR_MAX);
    tr[hv_n_tr].kind = kind; tr[hv_n_tr].state = hv_f.state; tr[hv_n_tr].event = event; tr[hv_n_tr].of = of;
    ++hv_n_tr;
}
static int hv_ret[3];          /* what each transition handler returns */
static void hv_hook(int kind);
#define T_HANDLER(i) static embc_fsm_state_t t##i(struct embc_fsm_s *s, embc_fsm_event_t e) \
    { VF_CHECK(self_arg, s == &hv_f); hv_trace(K_T##i, e, i); hv_hook(K_T##i); return (embc_fsm_state_t) hv_ret[i]; }
T_HANDLER(0)
T_HANDLER(1)
T_HANDLER(2)
#define S_HANDLER(i) \
    static embc_fsm_state_t enter##i(struct embc_fsm_s *s, embc_fsm_event_t e) \
    { VF_CHECK(self_arg, s == &hv_f); hv_trace(K_ENTER, e, i); hv_hook(K_ENTER); return EMBC_STATE_NULL; } \
    static embc_fsm_state_t exit##i(struct embc_fsm_s *s, embc_fsm_event_t e) \
    { VF_CHECK(self_arg, s == &hv_f); hv_trace(K_EXIT, e, i); hv_hook(K_EXIT); return EMBC_STATE_NULL; }
S_HANDLER(0)
S_HANDLER(1)
S_HANDLER(2)

#define NS 3
static struct embc_fsm_state_s hv_states[NS] = {
    {0, "s0", enter0, exit0}, {1, "s1", enter1, exit1}, {2, "s2", enter2, exit2},
};
static struct embc_fsm_transition_s hv_tt[3];
static void hv_expect(int at, int kind, int state, int event, int of) {
    VF_CHECK(trace_len, at < hv_n_tr);
    VF_CHECK(trace_kind, tr[at].kind == kind);
    VF_CHECK(trace_state, tr[at].state == state);
    VF_CHECK(trace_event, tr[at].event == event);
    VF_CHECK(trace_of, tr[at].of == of);
}
static void hv_setup(int count) {
    hv_f.name = "f"; hv_f.states = hv_states; hv_f.states_count = NS;
    hv_f.transitions = hv_tt; hv_f.transitions_count = count;
    hv_f.event_name_fn = 0;
    hv_f.events.head = 0; hv_f.events.tail = 0; hv_f.reentrant = 0;
}
static const embc_fsm_handler hv_TH[3] = {t0, t1, t2};
static int hv_is_valid(int s) { return s >= 0 && s < NS; }

/* hv_reference semantics of one event (from the documentation): follow the table
 * from s, comparing with the recorded hv_trace from position at; result state */
static int hv_ref_at;
static int hv_reference(int s, int e, int count) {
    int i;
    for (i = 0; i < count; ++i) {
        int next;
        if (hv_tt[i].current != s && hv_tt[i].current != EMBC_STATE_ANY) continue;
        if (hv_tt[i].event != e && hv_tt[i].event != EMBC_EVENT_ANY) continue;
        next = hv_tt[i].next;
        if (hv_tt[i].handler) {
            hv_expect(hv_ref_at, i, s, e, i); ++hv_ref_at;
            if (hv_ret[i] == EMBC_STATE_SKIP) continue;
            if (hv_ret[i] == EMBC_STATE_NULL) return s;
            if (hv_ret[i] != EMBC_STATE_ANY) next = hv_ret[i];
        }
        if (next == EMBC_STATE_NULL) return s;
        if (hv_is_valid(s)) { hv_expect(hv_ref_at, K_EXIT, s, EMBC_EVENT_EXIT, s); ++hv_ref_at; }
        hv_expect(hv_ref_at, K_ENTER, next, EMBC_EVENT_ENTER, next); ++hv_ref_at;
        return next;
    }
    return s;
}
/* must the event be fatal (undeclared override)? */
static int hv_is_fatal(int s, int e, int count) {
    int i;
    for (i = 0; i < count; ++i) {
        int next = hv_tt[i].next;
        if (hv_tt[i].current != s && hv_tt[i].current != EMBC_STATE_ANY) continue;
        if (hv_tt[i].event != e && hv_tt[i].event != EMBC_EVENT_ANY) continue;
        if (hv_tt[i].handler) {
            if (hv_ret[i] == EMBC_STATE_SKIP) continue;
            if (hv_ret[i] == EMBC_STATE_NULL) return 0;
            if (hv_ret[i] != EMBC_STATE_ANY) next = hv_ret[i];
        }
        if (next == EMBC_STATE_NULL) return 0;
        return !hv_is_valid(next);
    }
    return 0;
}

#ifdef H_STEP
static void hv_hook(int kind) { (void) kind; }
static const int8_t hv_CUR[4] = {EMBC_STATE_ANY, 0, 2, EMBC_STATE_NULL};
static const int8_t hv_EVT[3] = {EMBC_EVENT_ANY, 5, EMBC_EVENT_RESET};
static const int8_t hv_NXT[3] = {EMBC_STATE_NULL, 0, 1};
static const int8_t hv_RET[6] = {EMBC_STATE_SKIP, EMBC_STATE_ANY, EMBC_STATE_NULL, 2, 0, 3};
static const int8_t hv_ST[3] = {0, 2, 1};
int main(void) {
    int i, k, s, e;
    s = 0;
    i = 0;   /* the entry under test: arbitrary */
    VF_PICK(k, 0, 3); hv_tt[i].current = hv_CUR[k];
    VF_PICK(k, 0, 2); hv_tt[i].event = hv_EVT[k];
    VF_PICK(k, 0, 2); hv_tt[i].next = hv_NXT[k];
    VF_PICK(k, 0, 6); hv_tt[i].handler = 0;
    if (k < 6) { hv_tt[i].handler = hv_TH[i]; hv_ret[i] = hv_RET[k]; }
#if NT > 1
    i = 1;   /* a later entry that may also match */
    VF_PICK(k, 0, 1); hv_tt[i].current = hv_CUR[2 * k];
    VF_PICK(k, 0, 1); hv_tt[i].event = hv_EVT[k];
    VF_PICK(k, 0, 1); hv_tt[i].next = hv_NXT[2 * k];
    VF_PICK(k, 0, 2); hv_tt[i].handler = 0;
    if (k < 2) { hv_tt[i].handler = hv_TH[i]; hv_ret[i] = hv_RET[k]; }
#else
    VF_PICK(k, 0, 2); s = hv_ST[k];
#endif
    hv_setup(NT);
    hv_f.state = s;
    e = 5;
    if (VF_BOOL()) { e = EMBC_EVENT_RESET; }
    hv_fatal_ok = hv_is_fatal(s, e, NT);
    if (e == 5) { embc_fsm_event(&hv_f, 5); } else { embc_fsm_reset(&hv_f); }
    VF_CHECK(undeclared_state_is_fatal, !hv_fatal_ok);
    k = hv_reference(s, e, NT);
    VF_CHECK(final_state, hv_f.state == k);
    VF_CHECK(no_extra_handler, hv_n_tr == hv_ref_at);
    VF_CHECK(declared_state, hv_f.state >= 0 && hv_f.state < NS);
    VF_REACH(end);
    return 0;
}
#endif

#ifdef H_QUEUE
/* Handlers post further events: run to completion, FIFO. */
static int hv_posted[16], hv_n_posted, hv_depth, hv_budget;
static int hv_hook_pick(void) { int k; VF_PICK(k, 0, 2); return k; }
static void hv_hook(int kind) {
    int k, j;
    VF_CHECK(not_nested, hv_depth == 0);
    if (hv_budget == 0) return;
    k = hv_hook_pick();
    for (j = 0; j < k; ++j) {
        int e = 5 + (hv_n_posted & 1);
        if (hv_budget == 0) break;
        --hv_budget;
        hv_posted[hv_n_posted] = e;
        ++hv_n_posted;
        hv_depth = 1;
        embc_fsm_event(&hv_f, (embc_fsm_event_t) e);
        hv_depth = 0;
    }
}
int main(void) {
    int i, s, n0;
    hv_tt[0].current = 0; hv_tt[0].event = 5; hv_tt[0].next = 1; hv_tt[0].handler = t0; hv_ret[0] = EMBC_STATE_ANY;
    hv_tt[1].current = 1; hv_tt[1].event = EMBC_EVENT_ANY; hv_tt[1].next = 2; hv_tt[1].handler = t1; hv_ret[1] = EMBC_STATE_ANY;
    hv_tt[2].current = EMBC_STATE_ANY; hv_tt[2].event = EMBC_EVENT_ANY; hv_tt[2].next = 0; hv_tt[2].handler = t2; hv_ret[2] = EMBC_STATE_NULL;
    hv_setup(3);
    hv_f.events.head = hv_f.events.tail = VF_INT(0, EMBC_FSM_EVENT_FIFO_SIZE - 1);
    VF_PICK(i, 0, EMBC_FSM_EVENT_FIFO_SIZE - 1); hv_f.events.head = hv_f.events.tail = i;
    hv_f.state = 0;
    hv_budget = BUDGET;
    hv_posted[0] = 5; hv_n_posted = 1;
    embc_fsm_event(&hv_f, 5);
    s = 0;
    for (i = 0; i < hv_n_posted; ++i) { s = hv_reference(s, hv_posted[i], 3); }
    VF_CHECK(every_posted_event_handled_once, hv_n_tr == hv_ref_at);
    VF_CHECK(final_state, hv_f.state == s);
    if (hv_n_posted == BUDGET + 1) { VF_REACH(all_posted); }
    /* the machine accepts the next event immediately */
    hv_budget = 0;
    n0 = hv_n_tr;
    embc_fsm_event(&hv_f, 5);
    VF_CHECK(still_live, hv_n_tr > n0);
    s = hv_reference(s, 5, 3);
    VF_CHECK(final_state2, hv_f.state == s && hv_n_tr == hv_ref_at);
    return 0;
}
#endif

#ifdef H_FULL
/* One handler posts hv_m events: all handled in order or a fatal report. */
static int hv_m;
static int hv_n_posted;
static void hv_hook(int kind) {
    int j;
    if (kind != K_T0 || hv_n_tr > 1) return;
    for (j = 0; j < hv_m; ++j) {
        ++hv_n_posted;
        hv_fatal_ok = hv_n_posted >= EMBC_FSM_EVENT_FIFO_SIZE;
        embc_fsm_event(&hv_f, (embc_fsm_event_t) (10 + j));
    }
    hv_fatal_ok = 0;
}
int main(void) {
    int i;
    hv_tt[0].current = EMBC_STATE_ANY; hv_tt[0].event = EMBC_EVENT_ANY; hv_tt[0].next = EMBC_STATE_NULL; hv_tt[0].handler = t0;
    hv_ret[0] = EMBC_STATE_NULL;
    hv_setup(1);
    VF_PICK(i, 0, EMBC_FSM_EVENT_FIFO_SIZE - 1); hv_f.events.head = hv_f.events.tail = i;
    hv_f.state = 0;
    VF_PICK(hv_m, 0, 20);
    embc_fsm_event(&hv_f, 5);
    VF_CHECK(none_lost, hv_n_tr == hv_m + 1);
    VF_CHECK(first, tr[0].event == 5);
    for (i = 0; i < hv_m; ++i) { VF_CHECK(fifo_order, tr[i + 1].event == 10 + i); }
    if (hv_m == EMBC_FSM_EVENT_FIFO_SIZE - 1) { VF_REACH(full); }
    return 0;
}
#endif

#ifdef H_INIT
static void hv_hook(int kind) { (void) kind; }
static const int8_t hv_CUR[6] = {EMBC_STATE_ANY, 0, 2, EMBC_STATE_NULL, EMBC_STATE_SKIP, 3};
static const int8_t hv_NXT[6] = {EMBC_STATE_NULL, 0, 2, EMBC_STATE_ANY, 3, 127};
static const int8_t hv_EVT[2] = {EMBC_EVENT_RESET, 5};
int main(void) {
    int i, k, bad = 0, s, j;
    for (i = 0; i < 2; ++i) {
        VF_PICK(k, 0, 5); hv_tt[i].current = hv_CUR[k]; if (k >= 4) bad = 1;
        VF_PICK(j, 0, 5); hv_tt[i].next = hv_NXT[j]; if (j >= 3) bad = 1;
        VF_PICK(k, 0, 1); hv_tt[i].event = hv_EVT[k];
        if (i == 1 && bad) break;   /* one defect at a time */
    }
    VF_PICK(k, 0, NS);
    if (k < NS) {
        VF_ASSUME(!bad && hv_tt[0].current == EMBC_STATE_ANY && hv_tt[1].current == EMBC_STATE_ANY);
        VF_PICK(j, 0, 2);
        if (j == 0) { hv_states[k].state = (k + 1) % NS; }
        else if (j == 1) { hv_states[k].state = EMBC_STATE_NULL; }
        else { hv_states[k].state = NS; }
        bad = 1;
    }
    hv_setup(2);
    hv_f.events.head = VF_INT(0, 255); hv_f.events.tail = VF_INT(0, 255); hv_f.reentrant = VF_INT(0, 255); hv_f.state = VF_INT(-128, 127);
    hv_fatal_ok = 1;
    embc_fsm_initialize(&hv_f);
    VF_CHECK(invalid_definition_is_fatal, !bad);
    s = hv_reference(EMBC_STATE_NULL, EMBC_EVENT_RESET, 2);
    VF_CHECK(reset_applied, hv_f.state == s && hv_n_tr == hv_ref_at);
    VF_CHECK(declared_state, hv_is_valid(hv_f.state));
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_INITOK
/* a valid definition with a reset transition is accepted */
static void hv_hook(int kind) { (void) kind; }
static const int8_t hv_CUR[4] = {EMBC_STATE_ANY, 0, 2, EMBC_STATE_NULL};
static const int8_t hv_NXT[3] = {EMBC_STATE_NULL, 0, 2};
static const int8_t hv_EVT[3] = {EMBC_EVENT_RESET, 5, EMBC_EVENT_ANY};
int main(void) {
    int i, k, s;
    for (i = 0; i < 2; ++i) {
        VF_PICK(k, 0, 3); hv_tt[i].current = hv_CUR[k];
        VF_PICK(k, 0, 2); hv_tt[i].next = hv_NXT[k];
        VF_PICK(k, 0, 2); hv_tt[i].event = hv_EVT[k];
    }
    hv_setup(2);
    /* does the reset lead to a state? (no handlers here) */
    s = EMBC_STATE_NULL;
    for (i = 0; i < 2; ++i) {
        if ((hv_tt[i].current == EMBC_STATE_NULL || hv_tt[i].current == EMBC_STATE_ANY) &&
            (hv_tt[i].event == EMBC_EVENT_RESET || hv_tt[i].event == EMBC_EVENT_ANY)) { s = hv_tt[i].next; break; }
    }
    hv_fatal_ok = s < 0;
    embc_fsm_initialize(&hv_f);
    VF_CHECK(reset_must_leave_null, s >= 0);
    VF_CHECK(reset_state, hv_f.state == s);
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_BIG
/* more than 255 transitions, the largest state and event numbers */
static void hv_hook(int kind) { (void) kind; }
static struct embc_fsm_state_s hv_many[127]; static struct embc_fsm_transition_s hv_long[300];
int main(void) {
    int i, k;
    for (i = 0; i < 127; ++i) { hv_many[i].state = (embc_fsm_state_t) i; hv_many[i].name = "s"; }
    for (i = 0; i < 300; ++i) { hv_long[i].current = 77; hv_long[i].event = 9; hv_long[i].next = 77; }
    hv_long[0].current = EMBC_STATE_ANY; hv_long[0].event = EMBC_EVENT_RESET; hv_long[0].next = 0;
    hv_long[130].current = 0; hv_long[130].event = 126; hv_long[130].next = 126;
    hv_long[257].current = 126; hv_long[257].event = 1; hv_long[257].next = 100;
    hv_long[299].current = 100; hv_long[299].event = EMBC_EVENT_ANY; hv_long[299].next = 5; hv_long[299].handler = t2; hv_ret[2] = EMBC_STATE_ANY;
    hv_f.name = "f"; hv_f.states = hv_many; hv_f.states_count = 127; hv_f.transitions = hv_long; hv_f.transitions_count = 300;
    embc_fsm_initialize(&hv_f);
    VF_CHECK(big_reset, hv_f.state == 0);
    embc_fsm_event(&hv_f, 125);
    VF_CHECK(big_no_match, hv_f.state == 0);
    embc_fsm_event(&hv_f, 126);
    VF_CHECK(big_last_state, hv_f.state == 126);
    embc_fsm_event(&hv_f, 1);
    VF_CHECK(big_after_256, hv_f.state == 100);
    VF_PICK(k, 0, 2);
    embc_fsm_event(&hv_f, k == 0 ? 0 : k == 1 ? 127 : 64);
    VF_CHECK(big_last_transition, hv_f.state == 5 && hv_n_tr == 1 && tr[0].state == 100);
    embc_fsm_reset(&hv_f);
    VF_CHECK(big_reset_again, hv_f.state == 0);
    VF_REACH(end);
    return 0;
}
#endif
