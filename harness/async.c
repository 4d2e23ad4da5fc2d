/* Asynchronous stream source and sink. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "libc_model.h"
#ifdef H_SINK
#include "src/stream/async_sink.c"
#endif
#ifdef H_SOURCE
#include "src/stream/async_source.c"
#endif
#ifdef H_E2E   /* both linked as separate translation units */
#include "embc.h"
#include "embc/stream/async_sink.h"
#include "embc/stream/async_source.h"
#endif
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
#include "embc/stream/async.h"
typedef struct embc_stream_transaction_s txn_t;

#ifdef H_SINK
#define CAP 5
static struct embc_stream_sink_s hv_s;
static uint8_t hv_dst[CAP + 1], hv_src[8], hv_buf[3];
static uint8_t hv_ghost[16]; static int hv_n_ghost, hv_cap;
/* what the producer saw since the hv_last request */
static int hv_n_resp, hv_n_wreq, hv_n_conn, hv_n_disc, hv_n_other, hv_resp_type, hv_resp_status, hv_wreq_len;
static int hv_open_file = -1;
static int hv_n_write_fn, hv_n_done; static uint32_t hv_done_len;
static void hv_p_send(struct embc_stream_producer_s *self, txn_t *hv_t) {
    if (hv_t->type == EMBC_STREAM_EVENT_WRITE_REQUEST) {
        VF_CHECK(request_names_file, hv_open_file < 0 || hv_t->file_id == hv_open_file);
        ++hv_n_wreq; hv_wreq_len = hv_t->length;
        if (hv_t->length) { VF_CHECK(offered_buffer, hv_t->consumer_transaction_id != 0 && hv_t->data.event_write_request_consumer_buffer.ptr == hv_buf && hv_t->length == sizeof(hv_buf)); }
        else { VF_CHECK(offered_mtu, hv_t->data.event_write_request_producer_buffer.mtu > 0 && hv_t->data.event_write_request_producer_buffer.transactions_max > 0); }
    } else if (hv_t->type == EMBC_STREAM_EVENT_CONNECT) { ++hv_n_conn; }
    else if (hv_t->type == EMBC_STREAM_EVENT_DISCONNECT) { ++hv_n_disc; }
    else if (hv_t->type < 128) { ++hv_n_resp; if (hv_t->type == EMBC_STREAM_IOCTL_OPEN) { hv_open_file = hv_t->file_id; } hv_resp_type = hv_t->type; hv_resp_status = hv_t->status; VF_CHECK(response_identifies_request, hv_t->producer_transaction_id == 77); }
    else { ++hv_n_other; }
}
static void hv_w_fn(void *u, uint8_t const *b, uint32_t n) { ++hv_n_write_fn; VF_CHECK(write_fn_args, u == &hv_ghost && b == hv_src); }
static void hv_d_fn(void *u, uint8_t const *b, uint32_t n) { ++hv_n_done; hv_done_len = n; VF_CHECK(done_args, u == &hv_n_ghost && b == (hv_cap ? hv_dst : 0)); }
static struct embc_stream_producer_s hv_prod;
static void hv_clear(void) { hv_n_resp = hv_n_wreq = hv_n_conn = hv_n_disc = hv_n_other = hv_n_write_fn = hv_n_done = 0; }
static txn_t hv_t;
static void hv_req(int type, int hv_len) {
    memset(&hv_t, 0, sizeof(hv_t));
    hv_t.type = type; hv_t.length = hv_len; hv_t.producer_transaction_id = 77;
    /* the status of a request that is always served is not the consumer's answer */
    if (type == EMBC_STREAM_IOCTL_NOOP || type == EMBC_STREAM_IOCTL_FLUSH) { hv_t.status = 9; }
    if (type == EMBC_STREAM_IOCTL_WRITE) { hv_t.data.ioctl_write.ptr = hv_src; }
    hv_clear();
    embc_stream_sink_get_consumer(&hv_s)->send(embc_stream_sink_get_consumer(&hv_s), &hv_t);
}
int main(void) {
    int i, hv_k, n, with_buf, opened = 0, have_wfn;
    hv_prod.send = hv_p_send;
    VF_PICK(with_buf, 0, 1);
    memset(&hv_s, 0xa5, sizeof(hv_s));               /* initialize() relies on nothing */
    embc_stream_sink_initialize(&hv_s, with_buf ? hv_buf : 0, with_buf ? sizeof(hv_buf) : 0);
    VF_PICK(have_wfn, 0, 1);
    if (have_wfn) { embc_stream_sink_set_write_fn(&hv_s, hv_w_fn, &hv_ghost); }
    hv_req(EMBC_STREAM_IOCTL_NOOP, 0);               /* no producer yet: nothing to call */
    VF_CHECK(no_producer, hv_n_resp == 0);
    embc_stream_sink_set_producer(&hv_s, &hv_prod);
    VF_PICK(hv_cap, 0, CAP);
    VF_PICK(hv_k, 0, 1);                             /* receive before or after open */
    hv_clear();
    if (hv_k || !hv_cap) { embc_stream_sink_receive(&hv_s, hv_cap ? hv_dst : 0, hv_cap, hv_d_fn, &hv_n_ghost);
        VF_CHECK(no_event_before_open, hv_n_wreq == 0 && hv_n_conn == 0 && hv_n_disc == 0); }
    hv_req(EMBC_STREAM_IOCTL_OPEN, 0);
    VF_CHECK(open_response, hv_n_resp == 1 && hv_resp_type == EMBC_STREAM_IOCTL_OPEN && hv_resp_status == 0);
    if (hv_k && hv_cap) { VF_CHECK(open_then_write_request, hv_n_wreq == 1 && hv_n_disc == 0); }
    else { VF_CHECK(open_without_destination, hv_n_wreq == 0 && hv_n_disc == 1); }
    if (!hv_k && hv_cap) {
        hv_clear();
        embc_stream_sink_receive(&hv_s, hv_dst, hv_cap, hv_d_fn, &hv_n_ghost);
        VF_CHECK(connect_then_write_request, hv_n_conn == 1 && hv_n_wreq == 1 && hv_n_resp == 0);
    }
    for (hv_k = 0; hv_k < 3; ++hv_k) {
        VF_PICK(n, 0, 4);
        for (i = 0; i < n; ++i) { hv_src[i] = 16 * (hv_k + 1) + i; }
        hv_req(EMBC_STREAM_IOCTL_WRITE, n);
        VF_CHECK(write_response_once, hv_n_resp == 1 && hv_resp_type == EMBC_STREAM_IOCTL_WRITE);
        VF_CHECK(write_fn_once, hv_n_write_fn == have_wfn);
        VF_CHECK(next_write_requested, hv_n_wreq == 1);
        if (hv_cap && n > hv_cap - hv_n_ghost) {
            VF_CHECK(discard_reported, hv_resp_status != 0);
            VF_REACH(overflow);
        } else {
            VF_CHECK(accepted, hv_resp_status == 0);
            if (hv_cap) for (i = 0; i < n; ++i) { hv_ghost[hv_n_ghost++] = hv_src[i]; }
        }
    }
    hv_req(EMBC_STREAM_IOCTL_FLUSH, 0);
    VF_CHECK(flush_response, hv_n_resp == 1 && hv_resp_type == EMBC_STREAM_IOCTL_FLUSH && hv_resp_status == 0);
    hv_req(EMBC_STREAM_IOCTL_NOOP, 0);
    VF_CHECK(noop_response, hv_n_resp == 1 && hv_resp_type == EMBC_STREAM_IOCTL_NOOP && hv_resp_status == 0);
    hv_req(EMBC_STREAM_IOCTL_CLOSE, 0);
    VF_CHECK(close_response, hv_n_resp == 1 && hv_resp_type == EMBC_STREAM_IOCTL_CLOSE && hv_resp_status == 0);
    VF_CHECK(done_once, hv_n_done == 1 && hv_done_len == hv_n_ghost);
    for (i = 0; i < hv_n_ghost; ++i) { VF_CHECK(received_exactly, hv_dst[i] == hv_ghost[i]); }
    for (i = hv_n_ghost; i <= CAP; ++i) { VF_CHECK(nothing_else_written, hv_dst[i] == 0); }
    hv_req(EMBC_STREAM_IOCTL_WRITE, 0);
    VF_CHECK(no_request_when_closed, hv_n_wreq == 0);
    /* after close: a new destination is not announced until the next open */
    hv_clear();
    embc_stream_sink_receive(&hv_s, 0, 0, 0, 0);
    embc_stream_sink_receive(&hv_s, hv_dst, CAP, hv_d_fn, &hv_n_ghost);
    VF_CHECK(closed, hv_n_conn == 0 && hv_n_wreq == 0);
    hv_req(EMBC_STREAM_IOCTL_OPEN, 0);
    VF_CHECK(reopen, hv_n_resp == 1 && hv_n_wreq == 1);
    hv_cap = CAP; hv_n_ghost = 0;
    hv_src[0] = 0x77;
    hv_req(EMBC_STREAM_IOCTL_WRITE, 1);
    VF_CHECK(reopen_starts_at_zero, hv_dst[0] == 0x77);
    hv_n_ghost = 1;
    VF_PICK(hv_k, 0, 2);
    if (hv_k == 0) {                                 /* opened again without a close: a new transfer */
        hv_req(EMBC_STREAM_IOCTL_OPEN, 0);
        VF_CHECK(open_again, hv_n_resp == 1 && hv_resp_status == 0 && hv_n_wreq == 1);
        hv_n_ghost = 0;
    } else if (hv_k == 1) {                          /* destination replaced while open */
        hv_clear(); embc_stream_sink_receive(&hv_s, hv_dst, CAP - 1, hv_d_fn, &hv_n_ghost);
        VF_CHECK(replaced_quietly, hv_n_conn == 0 && hv_n_disc == 0);
        hv_cap = CAP - 1; hv_n_ghost = 0;
    } else {                                         /* destination removed and supplied while open */
        hv_clear(); embc_stream_sink_receive(&hv_s, 0, 0, hv_d_fn, &hv_n_ghost);
        VF_CHECK(removal_announced, hv_n_disc == 1 && hv_n_conn == 0 && hv_n_wreq == 0);
        hv_clear(); embc_stream_sink_receive(&hv_s, hv_dst, CAP, hv_d_fn, &hv_n_ghost);
        VF_CHECK(supply_announced, hv_n_disc == 0 && hv_n_conn == 1 && hv_n_wreq == 1);
        hv_n_ghost = 0;
    }
    for (i = 0; i < CAP; ++i) { hv_src[i] = 0x41 + i; }
    hv_req(EMBC_STREAM_IOCTL_WRITE, 2);
    VF_CHECK(restarted_at_zero, hv_resp_status == 0 && hv_dst[0] == 0x41 && hv_dst[1] == 0x42);
    hv_req(EMBC_STREAM_IOCTL_WRITE, CAP - 2);
    VF_CHECK(restarted_room, (hv_resp_status == 0) == (hv_cap == CAP));
    hv_n_ghost = hv_cap == CAP ? CAP : 2;
    hv_req(EMBC_STREAM_IOCTL_CLOSE, 0);
    VF_CHECK(restarted_count, hv_n_done == 1 && hv_done_len == hv_n_ghost);
    VF_CHECK(restarted_bound, hv_dst[CAP] == 0);
    VF_REACH(end);
    return 0;
}
#endif

#ifdef H_SOURCE
#define LEN 5
static struct embc_stream_source_s hv_s;
static uint8_t hv_data[LEN], hv_tbuf[3], hv_cbuf[4], hv_got[LEN];
static int hv_len, hv_n_got, hv_n_open, hv_n_close, hv_close_status, hv_n_done, hv_done_status, hv_pend_write, hv_limit, hv_n_write;
static uint8_t const *hv_must_ptr; static int hv_cid;
static txn_t hv_last;
static void hv_c_send(struct embc_stream_consumer_s *self, txn_t *hv_t) {
    int i;
    VF_CHECK(ioctl_only, hv_t->type < 128);
    hv_last = *hv_t;
    if (hv_t->type == EMBC_STREAM_IOCTL_OPEN) { ++hv_n_open; }
    if (hv_t->type == EMBC_STREAM_IOCTL_CLOSE) { ++hv_n_close; hv_close_status = hv_t->status; }
    if (hv_t->type == EMBC_STREAM_IOCTL_WRITE) {
        ++hv_n_write;
        VF_CHECK(write_nonempty, hv_t->length > 0);
        VF_CHECK(write_within_limit, hv_t->length <= hv_limit);
        VF_CHECK(write_within_source, hv_n_got + hv_t->length <= hv_len);
        if (hv_cid) {
            VF_CHECK(write_uses_offered_buffer, hv_t->data.ioctl_write.ptr == hv_cbuf && hv_t->consumer_transaction_id == hv_cid);
            VF_CHECK(write_fills_offered_buffer, hv_t->length == hv_limit || hv_n_got + hv_t->length == hv_len);
        }
        for (i = 0; i < hv_t->length; ++i) { VF_CHECK(bytes_in_order, hv_t->data.ioctl_write.ptr[i] == hv_data[hv_n_got + i]); }
        hv_n_got += hv_t->length;
        hv_pend_write = hv_t->length;
    }
}
static void hv_done(void *u, uint8_t hv_status) { ++hv_n_done; hv_done_status = hv_status; VF_CHECK(done_arg, u == &hv_len); }
static struct embc_stream_consumer_s hv_cons;
static struct embc_stream_producer_s *hv_p;
static void hv_respond(int hv_status) { hv_last.status = hv_status; hv_p->send(hv_p, &hv_last); }
int main(void) {
    int i, hv_k, tl, first_status = 0;
    txn_t e;
    hv_cons.send = hv_c_send;
    VF_PICK(tl, 0, 3);
    memset(&hv_s, 0xa5, sizeof(hv_s));               /* initialize() relies on nothing */
    embc_stream_source_initialize(&hv_s, tl ? hv_tbuf : 0, tl);
    embc_stream_source_set_consumer(&hv_s, &hv_cons);
    hv_p = embc_stream_source_get_producer(&hv_s);
    VF_PICK(hv_len, 1, LEN);
    for (i = 0; i < LEN; ++i) { hv_data[i] = 0x40 + 3 * i; }
    embc_stream_source_configure(&hv_s, hv_data, hv_len, hv_done, &hv_len);
    embc_stream_source_open(&hv_s);
    VF_CHECK(opened, hv_n_open == 1 && hv_n_write == 0);
    hv_respond(0);
    VF_CHECK(no_write_before_request, hv_n_write == 0 && hv_n_close == 0);
    for (hv_k = 0; hv_k < STEPS; ++hv_k) {
        int kind, w0 = hv_n_write;
        VF_PICK(kind, 0, 4);
        memset(&e, 0, sizeof(e));
        e.type = EMBC_STREAM_EVENT_WRITE_REQUEST;
        if (kind == 4) { break; }
        if (kind <= 2) {   /* the producer'hv_s buffer, up to hv_mtu */
            int hv_mtu = kind;   /* 0: unlimited */
            e.data.event_write_request_producer_buffer.mtu = hv_mtu;
            e.data.event_write_request_producer_buffer.transactions_max = 1;
            hv_limit = tl ? tl : sizeof(void *);
            if (hv_mtu && hv_mtu < hv_limit) hv_limit = hv_mtu;
            hv_cid = 0;
        } else {           /* the consumer'hv_s buffer */
            int cl; VF_PICK(cl, 1, 2); if (cl == 2) cl = sizeof(hv_cbuf);
            hv_cid = 1;
            e.consumer_transaction_id = hv_cid; e.length = cl; hv_limit = cl;
            e.data.event_write_request_consumer_buffer.ptr = hv_cbuf;
        }
        hv_p->send(hv_p, &e);
        VF_CHECK(one_write_per_request, hv_n_write == w0 + 1);
        VF_CHECK(no_early_close, hv_n_close == 0);
        i = hv_n_write;
        if (hv_k == 1) { VF_PICK(first_status, 0, 1); first_status *= EMBC_ERROR_FULL; }
        hv_respond(first_status);
        if (first_status) {
            VF_CHECK(rejected_write_closes, hv_n_close == 1 && hv_close_status == first_status);
            VF_REACH(rejected);
            break;
        }
        VF_CHECK(close_iff_complete, hv_n_close == (hv_n_got == hv_len));
        if (hv_n_close) { VF_CHECK(close_ok, hv_close_status == 0); break; }
    }
    if (!hv_n_close) {        /* the consumer aborts */
        memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_EVENT_ABORT;
        hv_p->send(hv_p, &e);
        first_status = EMBC_ERROR_ABORTED;
        VF_CHECK(abort_closes, hv_n_close == 1 && hv_close_status == EMBC_ERROR_ABORTED);
        VF_REACH(aborted);
    } else if (!first_status) {
        VF_CHECK(complete, hv_n_got == hv_len);
        memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_EVENT_WRITE_REQUEST; hv_limit = 0;
        hv_p->send(hv_p, &e);
        VF_CHECK(no_write_after_end, hv_n_got == hv_len);
        VF_REACH(complete);
        hv_last.type = EMBC_STREAM_IOCTL_CLOSE;
    }
    VF_CHECK(not_done_before_close_response, hv_n_done == 0);
    hv_respond(hv_last.status);
    VF_CHECK(done_once_with_status, hv_n_done == 1 && hv_done_status == first_status && hv_n_close == 1);
    /* late requests and responses after the close */
    i = hv_n_write;
    memset(&e, 0, sizeof(e)); VF_PICK(hv_k, 0, 2);
    e.type = hv_k == 0 ? EMBC_STREAM_EVENT_WRITE_REQUEST : (hv_k == 1 ? EMBC_STREAM_EVENT_ABORT : EMBC_STREAM_IOCTL_WRITE);
    if (hv_k == 2) { e.status = EMBC_ERROR_FULL; e.length = 1; }
    hv_p->send(hv_p, &e);
    VF_CHECK(closed_stays_closed, hv_n_write == i && hv_n_close == 1 && hv_n_done == 1);
    /* open again: the transfer starts over */
    hv_n_got = 0; hv_n_close = 0;
    embc_stream_source_open(&hv_s);
    memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_EVENT_WRITE_REQUEST; e.length = 1; hv_cid = 1; hv_limit = 1;
    e.consumer_transaction_id = 1; e.data.event_write_request_consumer_buffer.ptr = hv_cbuf;
    hv_p->send(hv_p, &e);
    VF_CHECK(restart, hv_n_got == 1 && hv_n_open == 2);
    VF_REACH(end);
    return 0;
}
#endif

#ifdef H_E2E
#define LEN 5
static struct embc_stream_sink_s hv_k; static struct embc_stream_source_s hv_s;
static uint8_t hv_data[LEN], hv_dst[LEN], hv_kbuf[2], hv_sbuf[3];
static int hv_len, hv_cap, hv_n_sink_done, hv_n_src_done, hv_src_status; static uint32_t hv_sink_len;
static void hv_sink_done(void *u, uint8_t const *b, uint32_t n) { ++hv_n_sink_done; hv_sink_len = n; }
static void hv_src_done(void *u, uint8_t st) { ++hv_n_src_done; hv_src_status = st; }
int main(void) {
    int i, kl, sl, order;
    VF_PICK(kl, 0, 2); VF_PICK(sl, 0, 3);
    embc_stream_sink_initialize(&hv_k, kl ? hv_kbuf : 0, kl);
    embc_stream_source_initialize(&hv_s, sl ? hv_sbuf : 0, sl);
    embc_stream_source_set_consumer(&hv_s, embc_stream_sink_get_consumer(&hv_k));
    embc_stream_sink_set_producer(&hv_k, embc_stream_source_get_producer(&hv_s));
    VF_PICK(hv_len, 1, LEN); VF_PICK(hv_cap, 1, LEN); VF_PICK(order, 0, 1);
    for (i = 0; i < LEN; ++i) { hv_data[i] = 0x30 + i; }
    if (order) { embc_stream_sink_receive(&hv_k, hv_dst, hv_cap, hv_sink_done, 0); }
    embc_stream_source_configure(&hv_s, hv_data, hv_len, hv_src_done, 0);
    embc_stream_source_open(&hv_s);
    if (!order) { embc_stream_sink_receive(&hv_k, hv_dst, hv_cap, hv_sink_done, 0); }
    VF_CHECK(both_done_once, hv_n_sink_done == 1 && hv_n_src_done == 1);
    VF_CHECK(status_tells_truth, (hv_src_status == 0) == (hv_len <= hv_cap));
    VF_CHECK(prefix, hv_sink_len <= hv_cap && (hv_len > hv_cap || hv_sink_len == hv_len));
    for (i = 0; i < hv_sink_len; ++i) { VF_CHECK(delivered_exactly, hv_dst[i] == hv_data[i]); }
    if (hv_len > hv_cap) { VF_REACH(too_long); } else { VF_REACH(delivered); }
    return 0;
}
#endif

#ifdef H_MULTI
/* several write requests before the first response */
#include "src/stream/async_source.c"
#define LEN 6
static struct embc_stream_source_s hv_s;
static uint8_t hv_data[LEN], hv_cbuf[3][LEN], hv_got[LEN];
static int hv_n_open, hv_n_close, hv_close_status, hv_n_done, hv_done_status, hv_n_write, hv_n_got, hv_len;
static txn_t hv_w[3], hv_last;
static void hv_c_send(struct embc_stream_consumer_s *self, txn_t *hv_t) {
    int i;
    hv_last = *hv_t;
    if (hv_t->type == EMBC_STREAM_IOCTL_OPEN) { ++hv_n_open; }
    if (hv_t->type == EMBC_STREAM_IOCTL_CLOSE) { ++hv_n_close; hv_close_status = hv_t->status; }
    if (hv_t->type == EMBC_STREAM_IOCTL_WRITE) {
        VF_CHECK(write_while_open, hv_n_close == 0 && hv_n_write < 3);
        for (i = 0; i < hv_t->length; ++i) { VF_CHECK(bytes_in_order, hv_t->data.ioctl_write.ptr[i] == hv_data[hv_n_got + i]); }
        VF_CHECK(matches_request, hv_t->consumer_transaction_id == hv_n_write + 1 && hv_t->data.ioctl_write.ptr == hv_cbuf[hv_n_write]);
        hv_n_got += hv_t->length;
        hv_w[hv_n_write++] = *hv_t;
    }
}
static void hv_done(void *u, uint8_t hv_status) { ++hv_n_done; hv_done_status = hv_status; }
static struct embc_stream_consumer_s hv_cons;
int main(void) {
    int i, hv_k, n, bad, resp = 0;
    txn_t e;
    struct embc_stream_producer_s *hv_p;
    hv_cons.send = hv_c_send;
    embc_stream_source_initialize(&hv_s, 0, 0);
    embc_stream_source_set_consumer(&hv_s, &hv_cons);
    hv_p = embc_stream_source_get_producer(&hv_s);
    VF_PICK(hv_len, 3, LEN);
    for (i = 0; i < LEN; ++i) { hv_data[i] = 0x40 + 3 * i; }
    embc_stream_source_configure(&hv_s, hv_data, hv_len, hv_done, &hv_len);
    embc_stream_source_open(&hv_s);
    hv_p->send(hv_p, &hv_last);
    for (hv_k = 0; hv_k < 3; ++hv_k) {
        VF_PICK(n, 1, 4);
        memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_EVENT_WRITE_REQUEST; e.length = n;
        e.consumer_transaction_id = hv_k + 1; e.data.event_write_request_consumer_buffer.ptr = hv_cbuf[hv_k];
        hv_p->send(hv_p, &e);
    }
    VF_PICK(bad, 0, 3);      /* which response reports an error */
    for (hv_k = 0; hv_k < 3; ++hv_k) {
        if (hv_k < hv_n_write) {
            hv_w[hv_k].status = (hv_k == bad) ? EMBC_ERROR_FULL : 0;
            resp += hv_w[hv_k].length;
            hv_p->send(hv_p, &hv_w[hv_k]);
            VF_CHECK(close_when_due, hv_n_close == ((bad <= hv_k) || resp == hv_len));
        }
    }
    VF_CHECK(close_at_most_once, hv_n_close <= 1);
    if (hv_n_close) {
        VF_CHECK(close_status, hv_close_status == (bad < hv_n_write ? EMBC_ERROR_FULL : 0));
        hv_p->send(hv_p, &hv_last);
        VF_CHECK(done_once, hv_n_done == 1 && hv_done_status == hv_close_status);
        VF_REACH(closed);
    }
    VF_REACH(end);
    return 0;
}
#endif

#ifdef H_BIG
/* transfers longer than 65535 bytes, writes longer than 32767 bytes */
#include "embc.h"
#include "embc/stream/async_sink.h"
#include "embc/stream/async_source.h"
#define BIG 140000
static uint8_t hv_data[BIG], hv_dst[BIG + 1], hv_obuf[65535];
static uint32_t hv_n_got; static int hv_n_writes, hv_n_close, hv_n_done, hv_n_resp, hv_status, hv_mtu; static uint32_t hv_done_len;
static txn_t hv_last;
static void hv_c_send(struct embc_stream_consumer_s *c, txn_t *hv_t) {
    hv_last = *hv_t;
    if (hv_t->type == EMBC_STREAM_IOCTL_CLOSE) { ++hv_n_close; VF_CHECK(big_close_status, hv_t->status == 0); }
    if (hv_t->type == EMBC_STREAM_IOCTL_WRITE) {
        uint32_t want = BIG - hv_n_got < hv_mtu ? BIG - hv_n_got : hv_mtu;
        VF_CHECK(big_write_length, hv_t->length == want);
        VF_CHECK(big_bytes, hv_t->data.ioctl_write.ptr[0] == hv_data[hv_n_got] && hv_t->data.ioctl_write.ptr[want - 1] == hv_data[hv_n_got + want - 1]);
        hv_n_got += want; ++hv_n_writes;
    }
}
static void hv_p_send(struct embc_stream_producer_s *hv_p, txn_t *hv_t) { if (hv_t->type < 128) { ++hv_n_resp; hv_status = hv_t->status; } }
static void hv_src_done(void *u, uint8_t st) { ++hv_n_done; VF_CHECK(big_done, st == 0 && hv_n_got == BIG); }
static void hv_sink_done(void *u, uint8_t const *b, uint32_t n) { ++hv_n_done; hv_done_len = n; }
int main(void) {
    static struct embc_stream_source_s hv_s; static struct embc_stream_sink_s hv_k;
    static struct embc_stream_consumer_s c; static struct embc_stream_producer_s hv_p;
    txn_t e; int i, hv_w; uint32_t pos = 0, n, hv_cap;
    for (i = 0; i < BIG; i += 5000) { hv_data[i] = i / 5000 + 1; }
    hv_data[65534] = 101; hv_data[65535] = 102; hv_data[65536] = 103; hv_data[131069] = 104; hv_data[131070] = 105; hv_data[BIG - 1] = 106; hv_data[32767] = 107; hv_data[32768] = 108;
    VF_PICK(hv_w, 0, 4);
    if (hv_w < 3) {
        static const int M[] = { 65535, 40000, 32768 };
        hv_mtu = M[hv_w];
        c.send = hv_c_send;
        embc_stream_source_initialize(&hv_s, 0, 0);
        embc_stream_source_set_consumer(&hv_s, &c);
        embc_stream_source_configure(&hv_s, hv_data, BIG, hv_src_done, 0);
        embc_stream_source_open(&hv_s);
        for (i = 0; i < 6 && !hv_n_close; ++i) {
            memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_EVENT_WRITE_REQUEST; e.length = hv_mtu; e.data.event_write_request_consumer_buffer.ptr = hv_obuf;
            embc_stream_source_get_producer(&hv_s)->send(embc_stream_source_get_producer(&hv_s), &e);
            embc_stream_source_get_producer(&hv_s)->send(embc_stream_source_get_producer(&hv_s), &hv_last);
            VF_CHECK(big_close_iff_complete, hv_n_close == (hv_n_got == BIG));
        }
        VF_CHECK(big_complete, hv_n_close == 1 && hv_n_got == BIG);
        embc_stream_source_get_producer(&hv_s)->send(embc_stream_source_get_producer(&hv_s), &hv_last);
        VF_CHECK(big_done_once, hv_n_done == 1);
        VF_REACH(big_source);
    } else {
        hv_p.send = hv_p_send;
        embc_stream_sink_initialize(&hv_k, 0, 0);
        embc_stream_sink_set_producer(&hv_k, &hv_p);
        hv_cap = hv_w == 3 ? BIG : 70000;
        embc_stream_sink_receive(&hv_k, hv_dst, hv_cap, hv_sink_done, 0);
        memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_IOCTL_OPEN;
        embc_stream_sink_get_consumer(&hv_k)->send(embc_stream_sink_get_consumer(&hv_k), &e);
        for (i = 0; i < 4; ++i) {
            static const uint32_t L[] = { 65535, 40000, 34465, 5 };
            n = L[i];
            memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_IOCTL_WRITE; e.length = n; e.data.ioctl_write.ptr = hv_data + pos;
            hv_n_resp = 0;
            embc_stream_sink_get_consumer(&hv_k)->send(embc_stream_sink_get_consumer(&hv_k), &e);
            VF_CHECK(big_response, hv_n_resp == 1 && (hv_status == 0) == (n <= hv_cap - pos));
            if (hv_status) { VF_REACH(big_overflow); }
            else { pos += n; VF_CHECK(big_stored, hv_dst[pos - 1] == hv_data[pos - 1] && hv_dst[pos - n] == hv_data[pos - n] && hv_dst[pos] == 0); }
        }
        memset(&e, 0, sizeof(e)); e.type = EMBC_STREAM_IOCTL_CLOSE;
        embc_stream_sink_get_consumer(&hv_k)->send(embc_stream_sink_get_consumer(&hv_k), &e);
        VF_CHECK(big_received, hv_n_done == 1 && hv_done_len == pos && hv_dst[0] == 1 && hv_dst[65534] == 101);
        VF_REACH(big_sink);
    }
    return 0;
}
#endif
