#include "vf.h"
#include "alloc.h"
#include "libc_model.h"
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#include "src/event_manager.c"
#undef malloc
#undef calloc
#undef free
VF_DEFINE_FATAL()

#ifdef H_MANY
/* many events at once: identifiers stay unique, cancelling takes exactly the named event, all fire in time order */
#define HV_MANY 270
static int32_t hv_mid[HV_MANY]; static int hv_mfired[HV_MANY]; static int hv_k; static int64_t hv_last;
static void hv_mcb(void * user, int32_t id) {
    int e = (int) ((char *) user - (char *) 0);
    VF_CHECK(many_in_range, e >= 0 && e < HV_MANY);
    VF_CHECK(many_id, id == hv_mid[e]);
    VF_CHECK(many_once, !hv_mfired[e] && e != hv_k);
    hv_mfired[e] = 1;
    VF_CHECK(many_order, e == hv_last - 1 || (e == hv_k - 1 && e == hv_last - 2));
    hv_last = e;
}
int main(void) {
    int i, n; struct embc_evm_s * m = embc_evm_allocate();
    VF_ASSUME(m != 0);
    for (i = 0; i < HV_MANY; ++i) {     /* each one before all the earlier ones */
        hv_mid[i] = embc_evm_schedule(m, 1000000 - i, hv_mcb, (void *) (intptr_t) i);
        VF_CHECK(many_nonzero, hv_mid[i] != 0);
        if (i) { VF_CHECK(many_unique, hv_mid[i] != hv_mid[0] && hv_mid[i] != hv_mid[i - 1] && (i < 3 || hv_mid[i] != hv_mid[2]) && (i < 256 || hv_mid[i] != hv_mid[i - 255])); }
    }
    VF_PICK(hv_k, 0, 3); hv_k = hv_k == 0 ? 0 : hv_k == 1 ? 4 : hv_k == 2 ? 255 : 260;
    embc_evm_cancel(m, hv_mid[hv_k]);
    VF_CHECK(many_next, embc_evm_time_next(m) == 1000000 - (HV_MANY - 1));
    hv_last = HV_MANY;
    n = embc_evm_process(m, 1000000 - 100);     /* 100 is due, 99 is not */
    VF_CHECKV(many_count, n == HV_MANY - 100 - (hv_k >= 100), n);
    VF_CHECK(many_next2, embc_evm_time_next(m) == 1000000 - 99);
    n = embc_evm_process(m, 1000000);
    VF_CHECK(many_rest, n == 100 - (hv_k < 100));
    VF_CHECK(many_empty, embc_evm_time_next(m) == EMBC_TIME_MIN);
    embc_evm_free(m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
}
#else
/* time stamps are only compared: one representative per ordering, far apart
 * so that any truncation changes the order */
#define NT 3
static const int64_t hv_TS[NT] = {1, 0x500000000LL, 0x500000001LL};
static const int64_t hv_NOW[5] = {0, 1, 0x4ffffffffLL, 0x500000000LL, INT64_MAX};
#define NE 6
/* ghost: events in schedule order */
static int64_t hv_ts[NE]; static int32_t hv_id[NE]; static int hv_pend[NE]; static int hv_fired[NE];
static int hv_n_ev, hv_n_fired, hv_now_k, hv_action, hv_in_process;
static struct embc_evm_s *hv_m;

static void hv_callback(void *user, int32_t event_id);

static void hv_do_schedule(int64_t t) {
    int i, e = hv_n_ev;
    int32_t r;
    hv_ts[e] = t; hv_n_ev = e + 1;
    r = embc_evm_schedule(hv_m, t, hv_callback, &hv_ts[e]);
    if (t <= 0) { VF_CHECK(nonpositive_ignored, r == 0); VF_REACH(nonpositive); return; }
    VF_CHECK(id_nonzero, r != 0);
    for (i = 0; i < e; ++i) VF_CHECK(id_unique_among_pending, !hv_pend[i] || hv_id[i] != r);
    hv_id[e] = r; hv_pend[e] = 1;
    VF_REACH(scheduled);
}
static int hv_earliest(void) {   /* first in schedule order among the hv_earliest */
    int i, best = -1;
    for (i = 0; i < hv_n_ev; ++i) if (hv_pend[i] && (best < 0 || hv_ts[i] < hv_ts[best])) best = i;
    return best;
}
static void hv_do_cancel(int e) {
    VF_CHECK(cancel_rc, embc_evm_cancel(hv_m, hv_id[e]) == 0);
    hv_pend[e] = 0;
}
static void hv_check_next(void) {
    int b = hv_earliest();
    VF_CHECK(time_next, embc_evm_time_next(hv_m) == (b < 0 ? EMBC_TIME_MIN : hv_ts[b]));
    VF_CHECK(interval_next, embc_evm_interval_next(hv_m, 10) ==
             (b < 0 ? -1 : (hv_ts[b] <= 10 ? 0 : hv_ts[b] - 10)));
}
static void hv_callback(void *user, int32_t event_id) {
    int b = hv_earliest();
    VF_CHECK(fired_while_processing, hv_in_process);
    VF_CHECK(fired_is_pending, b >= 0);
    VF_CHECK(fired_in_order, user == (void *) &hv_ts[b]);
    VF_CHECK(fired_id, event_id == hv_id[b]);
    VF_CHECK(fired_due, hv_ts[b] <= hv_NOW[hv_now_k]);
    hv_pend[b] = 0;
    ++hv_fired[b];
    ++hv_n_fired;
    VF_CHECK(fired_once, hv_fired[b] == 1);
    if (hv_n_fired == 1) {       /* re-entrant use from within a hv_callback */
        if (hv_action == 1) { hv_do_schedule(hv_TS[0]); VF_REACH(cbk_sched_due); }
        if (hv_action == 2) { hv_do_schedule(hv_TS[2]); VF_REACH(cbk_sched_later); }
        if (hv_action == 3) { if (hv_pend[0]) hv_do_cancel(0); else if (hv_pend[1]) hv_do_cancel(1); VF_REACH(cbk_cancel); }
        if (hv_action == 4) { hv_do_cancel(b); VF_REACH(cbk_cancel_self); }
        if (hv_action == 5) { if (hv_pend[2]) hv_do_cancel(2); else if (hv_pend[1]) hv_do_cancel(1); }
    }
}
static void hv_do_process(void) {
    int n0 = hv_n_fired, b, r;
    hv_in_process = 1;
    r = embc_evm_process(hv_m, hv_NOW[hv_now_k]);
    hv_in_process = 0;
    VF_CHECK(process_count, r == hv_n_fired - n0);
    b = hv_earliest();
    VF_CHECK(process_complete, b < 0 || hv_ts[b] > hv_NOW[hv_now_k]);
    hv_check_next();
}

int main(void) {
    int i, n, k;
    hv_m = embc_evm_allocate();
    VF_ASSUME(hv_m != 0);
    hv_check_next();
    VF_PICK(n, 0, NEV);
    for (i = 0; i < n; ++i) { VF_PICK(k, 0, NT - 1); hv_do_schedule(hv_TS[k]); }
    hv_check_next();
#ifdef H_CANCEL
    VF_PICK(k, 0, NEV - 1);
    if (k < n) { hv_do_cancel(k); VF_CHECK(cancel_again, embc_evm_cancel(hv_m, hv_id[k]) == 0); VF_REACH(cancel); }
    VF_CHECK(cancel_zero, embc_evm_cancel(hv_m, 0) == 0);
    hv_check_next();
    hv_do_schedule(VF_BOOL() ? 0 : INT64_MIN);
    VF_PICK(k, 0, NT);
    if (k < NT) { hv_do_schedule(hv_TS[k]); }      /* reuses the cancelled event */
    hv_check_next();
    hv_action = 0;
#else
    VF_PICK(hv_action, 0, 5);
#endif
    VF_PICK(hv_now_k, 0, 4);
    hv_do_process();
#ifdef H_CANCEL
    hv_now_k = 4;
    hv_do_process();
    VF_CHECK(all_done, hv_earliest() < 0);
#else
    if (hv_action == 0) { hv_do_schedule(hv_TS[1]); hv_now_k = 3; hv_do_process(); }
#endif
    embc_evm_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#endif
