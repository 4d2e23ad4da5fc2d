/* Framer: one endpoint driven through its public interface by a ghost peer, HAL, timer and application.
 * Buffers come from a ghost allocator which tracks who owns every buffer. */
#define VF_FATAL_FORBIDDEN
#include "vf.h"
#include <stdlib.h>
#include "libc_model.h"
#define embc_buffer_alloc vf_unused_alloc
#define embc_buffer_alloc_unsafe vf_unused_alloc_unsafe
#include "src/memory/buffer.c"
#undef embc_buffer_alloc
#undef embc_buffer_alloc_unsafe
#include "embc/stream/framer.h"
#include "embc/time.h"
#include "embc/ec.h"
VF_DEFINE_FATAL()

/* ---- checksums: real ones, or constants (the checksum then is one arbitrary value of the byte stream) ---- */
#ifdef CRC_CONST
#ifndef C8
#define C8 0x77
#endif
#define C32 0x66656463U
uint8_t embc_crc_ccitt_8(uint8_t crc, uint8_t const *data, uint32_t length) { return C8; }
uint32_t embc_crc32(uint32_t crc, uint8_t const *data, uint32_t length) { return C32; }
#define hv_ref8(d, n) C8
#define hv_ref32(d, n) C32
#else
static uint8_t hv_ref8(uint8_t const * d, int n) {
    uint8_t c = 0xff; int i, j, ticks = vf_ticks;
    for (i = 0; i < n; ++i) { c ^= d[i]; for (j = 0; j < 8; ++j) { c = (c & 1) ? (uint8_t) ((c >> 1) ^ 0xE0) : (uint8_t) (c >> 1); } }
    vf_ticks = ticks;      /* the reference's own iterations do not count */
    return (uint8_t) ~c;
}
static uint32_t hv_ref32(uint8_t const * d, int n) {
    uint32_t c = 0xffffffffU; int i, j, ticks = vf_ticks;
    for (i = 0; i < n; ++i) { c ^= d[i]; for (j = 0; j < 8; ++j) { c = (c & 1) ? ((c >> 1) ^ 0xEDB88320U) : (c >> 1); } }
    vf_ticks = ticks;
    return ~c;
}
#endif

/* ---- ghost buffers ---- */
enum { FREE, LIB, APP, HAL };
#ifndef NB
#define NB 16
#endif
static uint8_t hv_mem[NB][256];
static struct embc_buffer_s hv_bufs[NB];
static int hv_owner[NB], hv_own_count[4];
static int hv_owned(int who) { return hv_own_count[who]; }
static void hv_give(int i, int who) { --hv_own_count[hv_owner[i]]; ++hv_own_count[who]; hv_owner[i] = who; }
static struct embc_framer_s * hv_fr;
static int hv_at(struct embc_buffer_s const * b) {
    return (int) (b - hv_bufs);     /* a foreign pointer is an alarm here */
}
static void hv_ghost_free(struct embc_buffer_manager_s const * self, struct embc_buffer_s * b) {
    int i = hv_at(b);
    VF_CHECK(free_owned_buffer, hv_owner[i] == LIB || hv_owner[i] == APP);
    hv_give(i, FREE);
}
static const struct embc_buffer_manager_s hv_mgr = { .free = hv_ghost_free };
struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * a, embc_size_t size) {
    int i;
    VF_CHECK(alloc_size, size > 0 && size <= 256);
    for (i = 0; i < NB && hv_owner[i] != FREE; ++i) { }
    VF_CHECK(buffers_bounded, i < NB);
    struct embc_buffer_s * b = &hv_bufs[i];
    *(uint8_t **) &b->data = hv_mem[i];
    *(uint16_t *) &b->capacity = (uint16_t) size;
    b->cursor = 0; b->length = 0; b->reserve = 0; b->buffer_id = 0; b->flags = 0;
    *(struct embc_buffer_manager_s const **) &b->manager = &hv_mgr;
    embc_list_initialize(&b->item);
    hv_give(i, LIB);
    return b;
}
struct embc_buffer_s * embc_buffer_alloc_unsafe(struct embc_buffer_allocator_s * a, embc_size_t size) { return embc_buffer_alloc(a, size); }

/* ---- ghost HAL ---- */
static struct embc_buffer_s * hv_halq[NB]; static int hv_haln;
struct ev { int ack, id, port, msg, def, len, status; };
#define NEV 24
static struct ev hv_tx[NEV]; static int hv_txn;
static int64_t hv_now = EMBC_TIME_SECOND;
static void hv_hal_check(struct embc_buffer_s * b);
static void hv_hal_tx(void * hal, struct embc_buffer_s * b) {
    int i = hv_at(b), len;
    uint8_t * d = b->data;
    VF_CHECK(hal_cookie, hal == (void *) &hv_halq);
    VF_CHECK(tx_owned_buffer, hv_owner[i] == LIB);
    hv_give(i, HAL);
    hv_halq[hv_haln++] = b;
    len = d[4];
    VF_CHECK(tx_frame_shape, b->length == len + 13 && d[0] == EMBC_FRAMER_SOF && d[len + 12] == EMBC_FRAMER_SOF && len <= 240);
    VF_CHECK(tx_reserved_bits, (d[1] & 0x70) == 0);
    VF_CHECK(tx_header_crc, d[7] == hv_ref8(d, 7));
    { uint32_t c = hv_ref32(d, 8 + len);
      VF_CHECK(tx_frame_crc, d[8 + len] == (c & 0xff) && d[9 + len] == ((c >> 8) & 0xff) && d[10 + len] == ((c >> 16) & 0xff) && d[11 + len] == (c >> 24)); }
    VF_CHECK(tx_log_bound, hv_txn < NEV);
    hv_tx[hv_txn].ack = d[1] >> 7; hv_tx[hv_txn].id = d[1] & 15; hv_tx[hv_txn].port = d[2]; hv_tx[hv_txn].msg = d[3]; hv_tx[hv_txn].len = len;
    hv_tx[hv_txn].def = d[5] | d[6] << 8; hv_tx[hv_txn].status = len ? d[8] : -1;
    ++hv_txn;
    hv_hal_check(b);
}
/* the HAL finished sending its oldest buffer */
static void hv_hal_done(void) {
    struct embc_buffer_s * b = hv_halq[0]; int i;
    for (i = 1; i < hv_haln; ++i) { hv_halq[i - 1] = hv_halq[i]; }
    --hv_haln;
    hv_give(hv_at(b), LIB);
    embc_framer_hal_tx_done(hv_fr, b);
}
static int64_t hv_hal_time(void * hal) { VF_CHECK(time_cookie, hal == (void *) &hv_halq); return hv_now; }
static int hv_timer_on; static int64_t hv_timer_at; static uint32_t hv_timer_n; static void (*timer_fn)(void *, uint32_t); static void * hv_timer_data;
static int32_t hv_hal_timer_set(void * hal, int64_t t, void (*f)(void *, uint32_t), void * d, uint32_t * id) {
    VF_CHECK(timer_cookie, hal == (void *) &hv_halq);
    VF_CHECK(single_timer, !hv_timer_on);
    hv_timer_on = 1; hv_timer_at = t; timer_fn = f; hv_timer_data = d; *id = ++hv_timer_n;
    return 0;
}
static int32_t hv_hal_timer_cancel(void * hal, uint32_t id) {
    VF_CHECK(timer_cancel_cookie, hal == (void *) &hv_halq);
    VF_CHECK(timer_cancel_active, hv_timer_on && id == hv_timer_n);
    hv_timer_on = 0;
    return 0;
}
static void hv_timer_fire(void) {
    uint32_t id = hv_timer_n;
    if (hv_now < hv_timer_at) { hv_now = hv_timer_at; }
    hv_timer_on = 0;
    timer_fn(hv_timer_data, id);
}
/* ---- ghost application ---- */
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b);
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status);
static int hv_cookie[EMBC_FRAMER_PORTS];
static void hv_start(void) {
    static struct embc_framer_hal_callbacks_s cb;
    static struct embc_framer_port_callbacks_s pc;
    int i;
    cb.hal = &hv_halq; cb.tx_fn = hv_hal_tx; cb.time_get = hv_hal_time; cb.timer_set_fn = hv_hal_timer_set; cb.timer_cancel_fn = hv_hal_timer_cancel;
    hv_fr = malloc(embc_framer_instance_size());
    embc_framer_initialize(hv_fr, (struct embc_buffer_allocator_s *) &hv_cookie, &cb);
    cb.hal = 0; cb.tx_fn = 0;       /* copied */
    for (i = 0; i < EMBC_FRAMER_PORTS; ++i) {
        pc.port = &hv_cookie[i]; pc.rx_fn = hv_app_rx; pc.tx_done_fn = hv_app_done;
        embc_framer_register_port_callbacks(hv_fr, (uint8_t) i, &pc);
    }
}
/* ---- ghost peer: frames towards the endpoint ---- */
static uint8_t hv_fb[300];
static int hv_frame(int type_id, int port, int msg, int def, int len) {    /* payload in hv_fb[8..] */
    hv_fb[0] = EMBC_FRAMER_SOF; hv_fb[1] = (uint8_t) type_id; hv_fb[2] = (uint8_t) port; hv_fb[3] = (uint8_t) msg; hv_fb[4] = (uint8_t) len;
    hv_fb[5] = (uint8_t) def; hv_fb[6] = (uint8_t) (def >> 8); hv_fb[7] = hv_ref8(hv_fb, 7);
    { uint32_t c = hv_ref32(hv_fb, 8 + len); hv_fb[8 + len] = (uint8_t) c; hv_fb[9 + len] = (uint8_t) (c >> 8); hv_fb[10 + len] = (uint8_t) (c >> 16); hv_fb[11 + len] = (uint8_t) (c >> 24); }
    hv_fb[12 + len] = EMBC_FRAMER_SOF;
    return len + 13;
}
static void hv_put(int n) { embc_framer_hal_rx_buffer(hv_fr, hv_fb, n); }
static void hv_peer_resync(int id) {
    hv_put(hv_frame(id, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0));
    VF_CHECK(resync_acked, hv_txn == 1 && hv_tx[0].ack && hv_tx[0].id == id && hv_tx[0].status == 0 && hv_haln == 1);
    hv_hal_done(); hv_txn = 0;
    VF_CHECK(resync_buffers, hv_owned(LIB) == 1 && hv_owned(HAL) == 0);
}

#ifdef H_RX
#ifndef REAL
#define REAL 0
#endif
/* one hv_frame with arbitrary fields and payload, intact or damaged, after a resync to any id */
static int hv_got, hv_e_port, hv_e_msg, hv_e_def, hv_e_len; static uint8_t hv_e_pay[8];
static void hv_hal_check(struct embc_buffer_s * b) { }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { VF_CHECK(rx_no_done, 0); }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) {
    int i;
    ++hv_got;
    VF_CHECK(rx_port, port == &hv_cookie[hv_e_port] && port_id == hv_e_port);
    VF_CHECK(rx_message, message_id == hv_e_msg && port_def == hv_e_def);
    VF_CHECK(rx_cursor, b->cursor == 8 && embc_buffer_read_remaining(b) == hv_e_len);
    for (i = 0; i < hv_e_len; ++i) { VF_CHECK(rx_payload, b->data[8 + i] == hv_e_pay[i]); }
    VF_CHECK(rx_owner, hv_owner[hv_at(b)] == LIB);
    hv_give(hv_at(b), APP);
    if (VF_BOOL()) { embc_buffer_free(b); }
}
int main(void) {
    static const uint8_t PAY[6] = {0x00, 0xAA, 0x55, 0xff, 0x01, 0x80};
    int k, i, n, kind, s;
    hv_start();
#if REAL
    int bit;
    hv_peer_resync(14);
    hv_e_port = 3; hv_e_msg = 0x5A; hv_e_def = 0xC301; hv_e_len = 2; k = 15;
    for (i = 0; i < hv_e_len; ++i) { hv_fb[8 + i] = hv_e_pay[i] = PAY[i]; }
    n = hv_frame(k, hv_e_port, hv_e_msg, hv_e_def, hv_e_len);
    VF_PICK(bit, 0, 8 * 14 + 0);      /* every single bit of the hv_frame except EOF; 112 = intact */
    if (bit < 112) { hv_fb[bit / 8] ^= (uint8_t) (1 << (bit % 8)); }
    kind = bit < 64 ? 1 : bit < 112 ? 2 : 0;
    hv_put(n);
#else
    static const int PORTS[5] = {0, 15, 16, 255, 7}, MSG[3] = {0, 0xAA, 0xff}, DEF[3] = {0x08, 0xAAAA, 0xff01};
#ifdef FULL
    VF_PICK(k, 0, 15); VF_PICK(hv_e_len, 0, 4);
#else
    VF_PICK(k, 0, 2); k = k * 7 + (k > 1);                      /* 0, 7, 15 */
    VF_PICK(hv_e_len, 0, 2); hv_e_len = hv_e_len * 2;
#endif
    VF_PICK(kind, 0, 4);
    hv_peer_resync((k + 15) & 15);
    VF_PICK(s, 0, 4); hv_e_port = PORTS[s];
    s = (k + hv_e_len) % 3; hv_e_msg = MSG[s]; hv_e_def = DEF[(k + hv_e_port) % 3];
    for (i = 0; i < hv_e_len; ++i) { hv_fb[8 + i] = hv_e_pay[i] = PAY[(i + k) % 6]; }
    n = hv_frame(k, hv_e_port, hv_e_msg, hv_e_def, hv_e_len);
    if (kind == 1) { hv_fb[7] ^= 1; }                                              /* damaged header */
    if (kind == 2) { VF_PICK(s, 0, 3); hv_fb[8 + hv_e_len + s] ^= 0x40; }  /* damaged hv_frame */
    if (kind == 3) { hv_fb[4] = VF_INT(241, 255); VF_REACH(too_long); }            /* impossible length */
    if (kind == 4) { hv_fb[0] = (uint8_t) VF_INT(0, 0xA9); }                       /* no hv_start of hv_frame */
    if (VF_BOOL()) { hv_put(n); } else { for (i = 0; i < n; ++i) { embc_framer_hal_rx_byte(hv_fr, hv_fb[i]); } }
#endif
    if (kind == 0 && hv_e_port >= EMBC_FRAMER_PORTS) {
        VF_CHECK(bad_port_ignored, hv_got == 0);
        VF_CHECK(bad_port_buffers, hv_owned(LIB) == 1);
        VF_REACH(bad_port);
    } else if (kind == 0) {
        VF_CHECK(rx_once, hv_got == 1);
        VF_CHECK(rx_ack, hv_txn == 1 && hv_tx[0].ack && hv_tx[0].id == k && hv_tx[0].port == hv_e_port && hv_tx[0].msg == hv_e_msg && hv_tx[0].len == 1 && hv_tx[0].status == 0);
        VF_CHECK(rx_ack_mask, (hv_tx[0].def & EMBC_FRAMER_ACK_MASK_CURRENT) != 0 && (hv_tx[0].def & 0xE0) == 0xE0);
        VF_CHECK(rx_buffers, hv_owned(LIB) == 1);
        VF_REACH(delivered);
    } else {
        VF_CHECK(damaged_not_delivered, hv_got == 0);
        VF_CHECK(damaged_buffers, hv_owned(LIB) == 1 && hv_owned(APP) == 0);
        if (kind == 2) {
            VF_CHECK(damaged_nack, hv_txn == 1 && hv_tx[0].ack && hv_tx[0].id == k && hv_tx[0].status == EMBC_ERROR_MESSAGE_INTEGRITY && hv_tx[0].def != 0);
            VF_REACH(damaged);
        } else {
            for (i = 0; i < hv_txn; ++i) { VF_CHECK(header_nack, hv_tx[i].ack && hv_tx[i].status != 0); }
        }
    }
    while (hv_haln) { hv_hal_done(); }
    VF_CHECK(rx_hal_buffers, hv_owned(HAL) == 0 && hv_owned(LIB) == 1);
}
#endif

#ifdef H_PARSE
/* garbage, one (possibly damaged) hv_frame, then intact frames: the hv_delivered frames are those of a greedy hv_scan */
#ifndef GMAX
#define GMAX 2
#endif
#define SMAX 640
static uint8_t hv_st[SMAX]; static int hv_sn;
static int hv_want, hv_got; static int hv_wpos[40];
static void hv_hal_check(struct embc_buffer_s * b) { VF_CHECK(parser_sends_only_nack, b->data[1] >> 7 && b->length == 14 && b->data[8] != 0); }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { VF_CHECK(no_done, 0); }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) { VF_CHECK(no_rx, 0); }
static void hv_hook(void * d, struct embc_buffer_s * b) {
    int i, n;
    VF_CHECK(hook_cookie, d == (void *) &hv_got);
    VF_CHECK(no_extra_frame, hv_got < hv_want);
    n = 13 + hv_st[hv_wpos[hv_got] + 4];
    VF_CHECK(whole_frame, b->length == n && b->cursor == 0);
    for (i = 0; i < n; ++i) { VF_CHECK(frame_bytes, b->data[i] == hv_st[hv_wpos[hv_got] + i]); }
    VF_CHECK(hook_owner, hv_owner[hv_at(b)] == LIB);
    ++hv_got;
    hv_give(hv_at(b), APP);
    embc_buffer_free(b);
}
static int hv_at_i;
/* the frames which the first n bytes contain */
static void hv_scan(int n) {
    while (hv_at_i < n) {
        uint8_t * d = hv_st + hv_at_i;
        if (d[0] != EMBC_FRAMER_SOF) { ++hv_at_i; continue; }
        if (n - hv_at_i < 8) { return; }
        if (d[7] != hv_ref8(d, 7) || d[4] > 240) { ++hv_at_i; continue; }
        if (n - hv_at_i < 13 + d[4]) { return; }
        { uint32_t c = hv_ref32(d, 8 + d[4]); uint8_t * e = d + 8 + d[4];
          if (e[0] != (c & 0xff) || e[1] != ((c >> 8) & 0xff) || e[2] != ((c >> 16) & 0xff) || e[3] != (c >> 24)) { ++hv_at_i; continue; } }
        hv_wpos[hv_want++] = hv_at_i;
        hv_at_i += 13 + d[4];
    }
}
static void hv_add(int n) { int i; for (i = 0; i < n; ++i) { hv_st[hv_sn++] = hv_fb[i]; } }
int main(void) {
    static const uint8_t G[3] = {EMBC_FRAMER_SOF, 0x11, 0x00};
    int g, i, j, n, kind, whole, big = 0;
    hv_start();
    embc_framer_register_rx_hook(hv_fr, hv_hook, &hv_got);
    VF_PICK(g, 0, GMAX);
    for (i = 0; i < g; ++i) { VF_PICK(j, 0, 2); hv_st[hv_sn++] = G[j]; }
    hv_fb[8] = 0xAA; hv_fb[9] = 0x02; hv_fb[10] = 0xAA;
#if KIND == 0       /* intact or truncated */
    n = hv_frame(0x0A, 1, 0xAA, 0x0203, 1 + (g & 1) * 2);
    VF_PICK(j, 0, 16);
    if (j < n) { n = j; }
#elif KIND == 1     /* one damaged byte */
    n = hv_frame(0x0A, 1, 0xAA, 0x0203, 2);
    VF_PICK(j, 0, 13);
    hv_fb[j] ^= (uint8_t) 0x04;
#elif KIND == 2     /* a hv_frame inside a hv_frame, the outer one damaged or not */
    n = hv_frame(1, 1, 7, 0, 1);
    for (i = n; i > 0; --i) { hv_fb[i + 8] = hv_fb[i - 1]; }      /* inner hv_frame as payload hv_at 9 */
    hv_fb[8] = 0x11;
    n = hv_frame(2, 2, 9, 0, 15);
    VF_PICK(j, 0, 3);
    if (j == 1) { hv_fb[0] = 0x11; } else if (j == 2) { hv_fb[7] ^= 1; } else if (j == 3) { hv_fb[25] ^= 0x10; }
#elif KIND == 4     /* a hv_frame starts inside the header of an impossible, damaged or over-announcing one */
    hv_fb[8] = 0x11;
    n = hv_frame(1, 1, 7, 0, OFS == 3 ? C8 : 1);
    for (i = 8; i < n - 5; ++i) { hv_fb[i] = (uint8_t) i; }
    if (OFS < 7) { hv_fb[7 - OFS] = C8; }
    hv_fb[7] = hv_ref8(hv_fb, 7);
    for (i = n; i > 0; --i) { hv_fb[i - 1 + OFS] = hv_fb[i - 1]; }
    n += OFS;
    hv_fb[0] = EMBC_FRAMER_SOF;
    for (i = 1; i < OFS; ++i) { hv_fb[i] = 1; }
    VF_PICK(j, 0, 2);
    if (OFS > 4) { hv_fb[4] = j == 0 ? 0 : j == 1 ? 240 : 241; }
    big = 1;
#else               /* a header which announces more than follows */
    n = hv_frame(1, 1, 0, 0, 0);
    VF_PICK(j, 0, 2);
    hv_fb[4] = j == 0 ? 240 : j == 1 ? 241 : 40;
    hv_fb[7] = hv_ref8(hv_fb, 7);
    VF_PICK(i, 0, 1);
    n = i ? 8 : 13;
    big = hv_fb[4] != 241;
#endif
    hv_add(n);
    n = hv_frame(3, 15, 0x30, 0x0100, 0); hv_add(n);
    hv_fb[8] = 0xAA;
    n = hv_frame(4, 0, 0x40, 0xAA00, 1); hv_add(n);
    if (big) { for (i = 0; i < (KIND == 4 ? 20 : j == 0 ? 24 : 5); ++i) { hv_fb[8] = (uint8_t) i; n = hv_frame(i & 15, 2, i, 0, 1); if (i & 1) { hv_st[hv_sn++] = 0xAA; } hv_add(n); } }
    VF_PICK(whole, 0, 1);
    if (whole && KIND < 3) {
        hv_scan(hv_sn);
        embc_framer_hal_rx_buffer(hv_fr, hv_st, hv_sn);
        while (hv_haln) { hv_hal_done(); }
        VF_CHECK(all_frames, hv_got == hv_want);
        VF_REACH(whole);
    } else {
        for (i = 0; i < hv_sn; ++i) {
            hv_scan(i + 1);
            embc_framer_hal_rx_byte(hv_fr, hv_st[i]);
            VF_CHECK(one_nack_per_byte, hv_haln <= 1);
            while (hv_haln) { hv_hal_done(); }
            VF_CHECK(frames_so_far, hv_got == hv_want);
            VF_CHECK(parser_buffers, hv_owned(LIB) == 1 && hv_owned(HAL) == 0 && hv_owned(APP) == 0);
        }
        VF_REACH(bytewise);
        if (hv_got >= 2) { VF_REACH(recovered); }
    }
    VF_CHECK(rx_count, embc_framer_status_get(hv_fr).rx_count == (uint32_t) hv_want);
}
#endif

#ifdef H_WINDOW
/* a sender with hv_at most 3 outstanding frames, any loss of frames and acks, any retransmission order */
#ifndef DEPTH
#define DEPTH 4
#endif
static int hv_flush, hv_received[DEPTH + 4], hv_acked[DEPTH + 4], hv_base, hv_delivered, hv_id0;
static void hv_hal_check(struct embc_buffer_s * b) { }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { VF_CHECK(no_done, 0); }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) {
    VF_CHECKV(in_order_once, (hv_flush ? message_id >= hv_delivered : message_id == hv_delivered) && port_id == 1 + message_id && hv_received[message_id], message_id, hv_delivered);
    if (hv_flush) { hv_delivered = message_id; }
    VF_CHECK(window_payload, embc_buffer_read_remaining(b) == 1 && b->data[8] == 0x40 + message_id);
    ++hv_delivered;
    hv_give(hv_at(b), APP);
    embc_buffer_free(b);
}
int main(void) {
    int d, i, m, n, lost, contiguous;
    hv_start();
    VF_PICK(hv_id0, K0, K1);
    hv_peer_resync((hv_id0 + 15) & 15);
    for (d = 0; d < DEPTH; ++d) {
#ifdef FIRST
        if (d == 0) { m = FIRST; } else
#endif
        VF_PICK(m, 0, 2);
        m += hv_base;
        hv_fb[8] = (uint8_t) (0x40 + m);
        n = hv_frame((hv_id0 + m) & 15, 1 + m, m, m * 257, 1);
        if (hv_received[m]) { VF_REACH(duplicate); }
        hv_received[m] = 1;
        hv_txn = 0;
        hv_put(n);
        for (contiguous = 0; hv_received[contiguous]; ++contiguous) { }
        VF_CHECK(window_one_ack, hv_txn == 1 && hv_haln == 1 && hv_tx[0].ack && hv_tx[0].id == ((hv_id0 + m) & 15) && hv_tx[0].port == 1 + m && hv_tx[0].msg == m && hv_tx[0].len == 1 && hv_tx[0].status == 0);
        VF_CHECK(window_ack_current, (hv_tx[0].def & EMBC_FRAMER_ACK_MASK_CURRENT) != 0);
        for (i = 1; i <= 8; ++i) { VF_CHECK(window_ack_truthful, !(hv_tx[0].def & (0x100 >> i)) || m < i || hv_received[m - i]); }
        for (i = 1; i <= 6; ++i) { VF_CHECK(window_ack_future, !(hv_tx[0].def & (0x100 << i)) || hv_received[m + i]); }
        for (n = 0, i = 0; i < DEPTH + 4; ++i) { n += hv_received[i]; }
        VF_CHECKV(window_delivered, n == contiguous ? hv_delivered == contiguous : hv_delivered <= contiguous, hv_delivered, contiguous);
        hv_hal_done();
        VF_CHECK(window_buffers, hv_owned(HAL) == 0 && hv_owned(APP) == 0);
        VF_CHECK(window_timeout_armed, hv_owned(LIB) == 1 || hv_timer_on);      /* held back frames do not wait forever */
        VF_PICK(lost, 0, 1);
        if (!lost) {
            hv_acked[m] = 1;
            for (i = 1; i <= m && i <= 8; ++i) { if (hv_tx[0].def & (0x100 >> i)) { hv_acked[m - i] = 1; } }
            while (hv_acked[hv_base]) { ++hv_base; }
        }
        if (hv_delivered > 2) { VF_REACH(progress); }
    }
    if (hv_delivered == DEPTH) { VF_CHECK(window_all_freed, hv_owned(LIB) == 1); VF_REACH(all); }
    /* the receive timeout releases whatever is still held back */
    if (hv_timer_on) {
        if (VF_BOOL()) { hv_now += EMBC_TIME_SECOND * 2; }     /* late, or exactly on time */
        hv_flush = 1;
        hv_timer_fire();
        VF_CHECK(timeout_buffers, hv_owned(LIB) == 1);
        VF_REACH(timeout);
    }
}
#endif

#if defined(H_TX) || defined(H_GIVEUP) || defined(H_TIMER) || defined(H_NOISE)
/* the sending side against any peer, HAL and timer behaviour */
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef PRE
#define PRE 0       /* messages already completed, to reach any hv_frame id */
#endif
#ifndef S
#define S 4
#endif
#define M (PRE + S + 3)
static int hv_noise, hv_variant, hv_expect_status, hv_ack_resend, hv_sent, hv_done, hv_count[M], hv_may[M], hv_must[M], hv_last_status, hv_error_ok, hv_prev_tx, hv_completing;
static int hv_mport(int m) { return 1 + m % 15; }
static int hv_mdef(int m) { return (m * 771 + 5) & 0xffff; }
static int hv_mlen(int m) { return m % 3; }
static uint8_t hv_pay[4];
static int64_t hv_sent_at[M];
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) { VF_CHECK(no_rx, 0); }
static void hv_send(void) {
    int m = hv_sent, i;
    ++hv_sent;
    for (i = 0; i < hv_mlen(m); ++i) { hv_pay[i] = (uint8_t) (0xA9 + m + i); }
    if (m % 3 == 0) { embc_framer_send_payload(hv_fr, hv_mport(m), m, hv_mdef(m), hv_pay, hv_mlen(m)); }
    else {
        struct embc_buffer_s * b = (m & 1) ? embc_framer_alloc(hv_fr) : embc_buffer_alloc(0, 8);
        hv_give(hv_at(b), LIB);
        embc_buffer_write(b, hv_pay, hv_mlen(m));
        embc_framer_send(hv_fr, hv_mport(m), m, hv_mdef(m), b);
    }
}
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) {
    int m = message_id;
    VF_CHECK(done_in_order_once, m == hv_done && m < hv_sent);
    ++hv_done;
    VF_CHECK(done_arguments, port == &hv_cookie[hv_mport(m)] && port_id == hv_mport(m) && port_def == hv_mdef(m));
    hv_last_status = status;
    VF_CHECK(done_status, status == 0 ? hv_may[m] : hv_error_ok);
    if (status) { hv_may[m] = hv_must[m] = 1; }
#ifdef H_GIVEUP
    if (status) { VF_CHECK(gave_up_status, status == hv_expect_status); VF_CHECK(gave_up_late, hv_variant == 1 || hv_count[m] > EMBC_FRAMER_MAX_RETRIES); }
#endif
#ifdef REENTER
    if (m == PRE) { hv_send(); }
#endif
}
static void hv_hal_check(struct embc_buffer_s * b) {
    struct ev * t = &hv_tx[hv_txn - 1];
    int m = t->msg, i;
    if (hv_noise && t->ack) { hv_txn = 0; return; }
    VF_CHECK(tx_data_only, !t->ack);
    VF_CHECK(tx_message, m >= hv_done && m < hv_sent && m < hv_done + 3);
    VF_CHECK(tx_fields, t->id == (m & 15) && t->port == hv_mport(m) && t->def == hv_mdef(m) && t->len == hv_mlen(m));
    for (i = 0; i < hv_mlen(m); ++i) { VF_CHECK(tx_payload, b->data[8 + i] == (uint8_t) (0xA9 + m + i)); }
    VF_CHECK(tx_not_acked, !hv_must[m]);
    if (hv_count[m] == 0 && m) { VF_CHECK(tx_first_in_order, hv_count[m - 1] > 0); }
    ++hv_count[m]; hv_sent_at[m] = hv_now;
    VF_CHECK(tx_bounded, hv_count[m] <= 1 + EMBC_FRAMER_MAX_RETRIES + hv_ack_resend);
    hv_txn = 0;
}
static int hv_with_hal(int m) { int i; for (i = 0; i < hv_haln; ++i) { if (!(hv_halq[i]->data[1] & 0x80) && hv_halq[i]->data[3] == m) { return 1; } } return 0; }
static int hv_haln_acks(void) { int i, n = 0; for (i = 0; i < hv_haln; ++i) { n += hv_halq[i]->data[1] >> 7; } return n; }
static void hv_ack(int m, int mask, int status) {
    int j;
    if (status == 0 && hv_count[m] && m >= hv_done) {
        hv_may[m] = hv_must[m] = 1;
        for (j = hv_done; j < m; ++j) { if (mask & (0x100 >> (m - j))) { hv_may[j] = 1; if (!hv_with_hal(j)) { hv_must[j] = 1; } } }
    }
    hv_fb[8] = (uint8_t) status;
    hv_put(hv_frame(0x80 | (m & 15), hv_mport(m), m, mask, 1));
}
static void hv_invariants(void) {
    int m, waiting = 0, tail = 0;
    for (m = hv_done; m < hv_sent && hv_must[m]; ++m) { }
    VF_CHECK(done_promptly, m == hv_done);
    for (m = hv_done; m < hv_sent; ++m) {
        VF_CHECK(window_used, (hv_count[m] > 0) == (m < hv_done + EMBC_FRAMER_OUTSTANDING_FRAMES_MAX));
        if (hv_count[m] && !hv_must[m]) { waiting = 1; }
    }
    VF_CHECK(timer_armed, !waiting || (hv_timer_on && hv_timer_at > hv_now && hv_timer_at <= hv_now + EMBC_TIME_SECOND));
    VF_CHECK(timer_idle, waiting || !hv_timer_on);
    VF_CHECK(tx_buffers, hv_owned(LIB) + hv_owned(HAL) >= 1 + hv_sent - hv_done && hv_owned(APP) == 0);
}
/* the peer receives and acknowledges everything: everything completes, nothing is retained */
static void hv_drain(void) {
    int m;
    while (hv_haln) { hv_hal_done(); }
    while (hv_done < hv_sent) {
        for (m = hv_done; m + 1 < hv_sent && hv_count[m + 1]; ++m) { }
        hv_ack(m, EMBC_FRAMER_ACK_MASK_SYNC, 0);
        VF_CHECK(drain_progress, hv_done > m);
        while (hv_haln) { hv_hal_done(); }
    }
    VF_CHECK(all_done, hv_done == hv_sent);
    VF_CHECK(tx_all_freed, hv_owned(LIB) == 1 && hv_owned(HAL) == 0 && hv_owned(APP) == 0);
    if (hv_timer_on && hv_error_ok) { hv_timer_fire(); }     /* an expired deadline of a given up message hv_may remain */
    VF_CHECK(timer_cancelled, !hv_timer_on);
    VF_CHECK(tx_count, embc_framer_status_get(hv_fr).tx_count == (uint32_t) hv_sent);
    VF_REACH(drained);
}
#endif

#ifdef H_TX
int main(void) {
    int i, d, e, m, c, n;
    hv_start();
    for (i = 0; i < PRE; ++i) { hv_send(); hv_hal_done(); hv_ack(i, 0x100, 0); VF_CHECK(pre_done, hv_done == i + 1); }
    VF_PICK(n, S0, S);
    for (i = 0; i < n; ++i) { hv_send(); }
    hv_invariants();
    VF_PICK(i, 0, 3);
    for (; i > 0 && hv_haln; --i) { hv_hal_done(); }
    for (d = 0; d < DEPTH; ++d) {
        hv_now += EMBC_TIME_MILLISECOND * 10;
#ifdef FIRST
        if (d == 0) { e = FIRST; } else
#endif
        VF_PICK(e, 0, 11);
        if (e == 0) {
            if (hv_haln) { hv_hal_done(); }
        } else if (e == 1) {
            if (hv_timer_on) {
                c = 0; for (m = hv_done; m < hv_sent; ++m) { c += hv_count[m]; }
                int free_to_send = 0;
                int64_t t = hv_timer_at;
                for (m = hv_done; m < hv_sent; ++m) { if (hv_count[m] && !hv_must[m] && !hv_with_hal(m)) { free_to_send = 1; } }
                hv_timer_fire();
                n = 0; for (m = hv_done; m < hv_sent; ++m) { n += hv_count[m]; }
                VF_CHECK(timer_retransmits, n > c || hv_haln > 0);
                if (n > c) { VF_REACH(retransmit); }
            }
        } else if (e == 2) {
            if (hv_sent < M - 2) { hv_send(); VF_REACH(late_send); }
        } else {
            m = hv_done + (e - 3) / 3;
            c = m < M ? hv_count[m] : 0; 
            if (m < M) {
                if ((e - 3) % 3 == 0) { hv_ack(m, 0x100, 0); }
                else if ((e - 3) % 3 == 1) { hv_ack(m, EMBC_FRAMER_ACK_MASK_SYNC, 0); }
                else {
                    int hal = hv_with_hal(m), out = c && m >= hv_done && !hv_must[m];
                    hv_ack(m, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY);
                    if (out && !hal) { VF_CHECK(nack_retransmits, hv_count[m] == c + 1); VF_REACH(nacked); }
                }
            }
        }
        hv_invariants();
    }
    hv_drain();
}
#endif

#ifdef H_NOISE
/* intact frames which are no acknowledgement of anything, and damaged ones: nothing completes, nothing is lost */
int main(void) {
    int d, e, n, i, k, len, before, mine;
    hv_start();
    VF_PICK(n, 0, 2); n += n > 1;
    for (i = 0; i < n; ++i) { hv_send(); }
    VF_PICK(i, 0, 1);
    while (i && hv_haln) { hv_hal_done(); }
    for (d = 0; d < DEPTH; ++d) {
        before = hv_done; mine = hv_owned(LIB) + hv_owned(HAL) - hv_haln_acks();
        VF_PICK(e, 0, 8);
        hv_noise = 1;
        hv_fb[8] = hv_fb[9] = hv_fb[10] = 0;
        len = e == 0 ? 0 : e == 1 ? 2 : e == 2 ? 240 : 1;
        k = e == 4 ? 0x80 | ((n + 3) & 15) : 0x80;                       /* not outstanding */
        if (e == 3) { hv_fb[8] = 9; }
        i = hv_frame(k, e == 5 ? 16 : e == 6 ? 255 : 1, 0, e == 3 ? 0 : 0x1ff, len);
        if (e == 7) { hv_fb[8] ^= 1; }                                      /* damaged */
        if (e == 8) { i = hv_frame(2, 16, 0, 0, 1); }                       /* data for an unsupported port */
        hv_put(i);
        if (e != 8 && e != 5 && e != 6 && e != 4) { VF_REACH(odd_ack); }
        VF_CHECK(noise_ignored, hv_done == before);
        VF_CHECK(noise_buffers, hv_owned(LIB) + hv_owned(HAL) - hv_haln_acks() == mine);
        hv_noise = 0;
    }
    while (hv_haln) { hv_hal_done(); }
    hv_drain();
}
#endif

#ifdef H_GIVEUP
/* the peer never accepts the first message */
int main(void) {
    int i, n, others, m, hv_base;
    hv_start();
    VF_PICK(hv_variant, 0, 2);
#if PRE             /* the transmit slots have been used before, one of them with retries */
    VF_PICK(n, 0, 2); n = n == 2 ? EMBC_FRAMER_MAX_RETRIES : n;
    VF_PICK(m, 0, 2);
    for (i = 0; i < 3; ++i) {
        hv_send(); hv_hal_done();
        for (others = 0; i == m && others < n; ++others) { VF_CHECK(pre_timer, hv_timer_on); hv_timer_fire(); while (hv_haln) { hv_hal_done(); } }
        hv_ack(i, 0x100, 0);
        VF_CHECK(pre_done, hv_done == i + 1);
    }
    n = 1; others = 0;
#else
    VF_PICK(n, 1, S); VF_PICK(others, 0, 2);
#endif
    hv_base = hv_done;
    for (i = 0; i < n; ++i) { hv_send(); while (hv_variant != 1 && hv_haln) { hv_hal_done(); } }
    if (others && n > others) { hv_ack_resend = 1; hv_ack(others, others == 2 ? 0x0180 : 0x0100, 0); while (hv_variant != 1 && hv_haln) { hv_hal_done(); } }
    hv_expect_status = hv_variant == 2 ? EMBC_ERROR_MESSAGE_INTEGRITY : EMBC_ERROR_TIMED_OUT;
    hv_error_ok = 1;
    for (i = 0; hv_done == hv_base; ++i) {
        VF_CHECK(gives_up_eventually, i <= EMBC_FRAMER_MAX_RETRIES + 1);
        if (hv_variant == 2) { hv_ack(hv_base, 0x100, EMBC_ERROR_MESSAGE_INTEGRITY); }
        else { VF_CHECK(timer_pending, hv_timer_on); hv_timer_fire(); }
        if (hv_variant != 1) { while (hv_haln) { hv_hal_done(); } }
    }
    VF_CHECK(retries_used, hv_variant == 1 ? hv_count[hv_base] == 1 : hv_count[hv_base] == 1 + EMBC_FRAMER_MAX_RETRIES + (others && n > others));
    VF_CHECK(gave_up_first, hv_done > hv_base);
    VF_REACH(gave_up);
    /* the remaining messages are still hv_delivered */
    if (hv_variant == 1 || hv_variant == 0) { for (m = hv_done; m < hv_sent; ++m) { if (hv_count[m]) { hv_ack(m, 0x100, 0); } } }
    hv_drain();
}
#endif

#ifdef H_TIMER
/* the HAL sends immediately: the timer is always armed for the earliest deadline */
static int64_t hv_T;
static void hv_timer_exact(void) {
    int m; int64_t first = EMBC_TIME_MAX;
    for (m = hv_done; m < hv_sent; ++m) { if (hv_count[m] && !hv_must[m] && hv_sent_at[m] + hv_T < first) { first = hv_sent_at[m] + hv_T; } }
    VF_CHECK(timer_for_waiting, first == EMBC_TIME_MAX ? !hv_timer_on : (hv_timer_on && hv_timer_at == first));
}
int main(void) {
    int d, e, i, m, c[M];
    hv_start();
    VF_CHECK(timer_initially_off, !hv_timer_on);
    hv_send(); hv_hal_done();
    VF_CHECK(timer_started, hv_timer_on);
    hv_T = hv_timer_at - hv_now;
    VF_CHECK(timeout_sane, hv_T > EMBC_TIME_MILLISECOND * 10 && hv_T <= EMBC_TIME_SECOND);
    for (d = 0; d < DEPTH; ++d) {
        VF_PICK(e, 0, 5);
        if ((e == 0 || e == 5) && hv_sent < S) { if (e == 0) { hv_now += EMBC_TIME_MILLISECOND * 20; } hv_send(); }
        else if (e == 1) { hv_ack(hv_done, 0x100, 0); }
        else if (e == 2) { hv_now += EMBC_TIME_MILLISECOND; hv_ack_resend = DEPTH; if (hv_done + 1 < hv_sent) { hv_ack(hv_done + 1, 0x100, 0); } }
        else if ((e == 3 || e == 4) && hv_timer_on) {
            int64_t late = e == 4 ? hv_T / 2 : 0;
            for (m = hv_done; m < hv_sent; ++m) { c[m] = hv_count[m]; }
            hv_now = hv_timer_at + late;
            i = hv_done;
            hv_timer_fire();
            for (m = i; m < hv_sent; ++m) {
                /* exactly the waiting messages whose deadline passed are hv_sent again */
                VF_CHECK(timer_resends, hv_sent_at[m] == hv_now || !hv_count[m] || hv_must[m] || hv_sent_at[m] + hv_T > hv_now);
            }
            VF_REACH(fired);
        }
        while (hv_haln) { hv_hal_done(); }
        hv_timer_exact();
    }
    hv_drain();
}
#endif

#ifdef H_RXT
/* any peer: received frames are held back exactly as long as the timer runs, and nothing is lost or delivered twice */
#ifndef DEPTH
#define DEPTH 3
#endif
static int hv_sent, hv_done, hv_msgs, hv_seen[DEPTH + 2], hv_ids[DEPTH * 2 + 2], hv_idn, hv_resync;
static void hv_hal_check(struct embc_buffer_s * b) {
    struct ev * e = &hv_tx[hv_txn - 1]; int i, fresh = 1;
    if (!e->ack) { for (i = 0; i < hv_idn; ++i) { if (hv_ids[i] == e->id) { fresh = 0; } } if (fresh) { hv_ids[hv_idn++] = e->id; } hv_txn--; }
}
static void hv_send(void) { ++hv_sent; embc_framer_send_payload(hv_fr, 9, 0, 0x1234, 0, 0); }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { VF_CHECK(rxt_done, port_id == 9 && hv_done < hv_sent && status == 0); ++hv_done; }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) {
    VF_CHECK(rxt_not_from_before_resync, !hv_resync);
    VF_CHECK(rxt_delivered_once, port_id == 2 && message_id < hv_msgs && !hv_seen[message_id]);
    hv_seen[message_id] = 1;
    VF_CHECK(rxt_payload, embc_buffer_read_remaining(b) == 1 && b->data[8] == 0x40 + message_id && hv_owner[hv_at(b)] == LIB);
    hv_give(hv_at(b), APP);
#ifdef REPLY
    if (hv_sent < DEPTH) { hv_send(); }
#endif
    embc_buffer_free(b);
}
int main(void) {
    int d, e, n = 0, held = 0, waiting = 0, rx, resync; int64_t at = 0, T = 0;
    hv_start();
#ifdef SYNC
    hv_peer_resync(SYNC); n = (SYNC + 1) & 15;
#endif
    VF_CHECK(rxt_timer_off, !hv_timer_on);
    for (d = 0; d < DEPTH; ++d) {
#ifdef FIRST
        if (d == 0) { e = FIRST; } else
#endif
        VF_PICK(e, 0, 8);
        hv_txn = 0; rx = 0; resync = hv_resync = e == 0;
        hv_now += EMBC_TIME_MILLISECOND * 30;
        if (e == 0) { hv_put(hv_frame((n + 3) & 15, 0, 0, EMBC_FRAMER_PORT0_RESYNC, 0)); n = (n + 4) & 15; rx = 1; }
        else if (e <= 5) {
            static const int OFS[6] = {0, 0, 1, 2, -1, 8};
            int id = (n + OFS[e]) & 15;
            if (e != 4) { n = (id + 1) & 15; }
            hv_fb[8] = (uint8_t) (0x40 + hv_msgs);
            ++hv_msgs;
            hv_put(hv_frame(id, 2, hv_msgs - 1, 0x77, 1));
            rx = 1;
        } else if (e == 6) {
            if (hv_timer_on) {
                if (VF_BOOL()) { hv_now = hv_timer_at; } else if (hv_now < hv_timer_at) { hv_now = hv_timer_at + EMBC_TIME_SECOND; }
                hv_timer_fire();
                while (hv_haln) { hv_hal_done(); }
                if (held && T && hv_now >= at + T) { VF_CHECK(rxt_released, hv_owned(LIB) == 1 + hv_sent - hv_done); VF_REACH(released); }
            }
        } else if (e == 7) { if (hv_sent < 3) { hv_send(); } }
        else if (hv_done < hv_sent) { while (hv_haln) { hv_hal_done(); } hv_fb[8] = 0; hv_put(hv_frame(0x80 | hv_ids[hv_done], 9, 0, 0x100, 1)); }
        hv_resync = 0;
        VF_CHECK(rxt_answered, hv_txn == rx && (!rx || (hv_tx[0].ack && hv_tx[0].status == 0 && (hv_tx[0].def & EMBC_FRAMER_ACK_MASK_CURRENT))));
        while (hv_haln) { hv_hal_done(); }
        waiting = hv_sent - hv_done;
        /* whatever the framer owns besides its receive buffer and the waiting messages is held back */
        VF_CHECK(rxt_buffers, hv_owned(HAL) == 0 && hv_owned(APP) == 0 && hv_owned(LIB) >= 1 + waiting);
        e = hv_owned(LIB) - 1 - waiting;
        VF_CHECK(rxt_resync_discards, !resync || !e);
        VF_CHECK(rxt_timer_armed, !(e || waiting) || hv_timer_on);
        VF_CHECK(rxt_timer_idle, e || waiting || !hv_timer_on);
        if (rx && e) { at = hv_now; }
        if (e && !waiting) {
            VF_CHECK(rxt_deadline, hv_timer_at > hv_now && hv_timer_at <= at + EMBC_TIME_SECOND);
            if (rx) { if (T) { VF_CHECK(rxt_fixed_timeout, hv_timer_at - hv_now == T); } T = hv_timer_at - hv_now; }
        }
        if (e && waiting) { VF_REACH(both); }
        held = e;
        if (held) { VF_REACH(held); }
    }
    VF_REACH(end);
}
#endif

#ifdef H_OWN
/* purging and late completions: every buffer is returned exactly once, every message is reported exactly once */
static int hv_sent, hv_done[16], hv_status_of[16], hv_reenter;
static void hv_send(int port) { int m = hv_sent++; uint8_t p = (uint8_t) m; embc_framer_send_payload(hv_fr, port, m, 0x1000 + m, &p, 1); }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) {
    VF_CHECK(own_rx, hv_owner[hv_at(b)] == LIB);
    hv_give(hv_at(b), APP);
    if (hv_reenter == 2) { hv_reenter = 0; embc_framer_resync(hv_fr); }
    embc_buffer_free(b);
}
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) {
    if (port_id == 0 && port_def == EMBC_FRAMER_PORT0_RESYNC) { VF_CHECK(own_resync_done, message_id == 0); return; }
    VF_CHECK(own_done_sent, message_id < hv_sent && port_def == 0x1000 + message_id);
    VF_CHECK(own_done_once, !hv_done[message_id]);
    hv_done[message_id] = 1; hv_status_of[message_id] = status;
    if (hv_reenter == 1) { hv_reenter = 0; hv_send(4); }
}
static int hv_last_id, hv_last_port, hv_last_msg;
static void hv_hal_check(struct embc_buffer_s * b) { if (!hv_tx[hv_txn - 1].ack) { hv_last_id = hv_tx[hv_txn - 1].id; hv_last_port = hv_tx[hv_txn - 1].port; hv_last_msg = hv_tx[hv_txn - 1].msg; } hv_txn = 0; }
static void hv_ack(int id, int mask) { hv_fb[8] = 0; hv_put(hv_frame(0x80 | id, 1, 0, mask, 1)); }
int main(void) {
    int n, h, i, held, mid, late;
    hv_start();
    hv_reenter = RE;
#ifdef FULL
    VF_PICK(n, 0, 4); VF_PICK(h, 0, 2); VF_PICK(held, 0, 2);
#else
    VF_PICK(n, 0, 3); n += n > 1; VF_PICK(h, 0, 1); h *= 2; VF_PICK(held, 0, 1); held *= 2;
#endif
    VF_PICK(mid, 0, 1); VF_PICK(late, 0, 2);
    for (i = 0; i < n; ++i) { hv_send(1 + i); }
    for (i = 0; i < h && hv_haln; ++i) { hv_hal_done(); }
    for (i = 0; i < held; ++i) { hv_fb[8] = 1; hv_put(hv_frame(2 * i + 1, 5, 0x80 + i, 0, 1)); }
    if (mid && n > 1) { hv_ack(1, 0x100); }
    int before = n;
    embc_framer_resync(hv_fr);
    for (i = 0; i < before; ++i) { VF_CHECK(own_purged, hv_done[i] && hv_status_of[i] == EMBC_ERROR_ABORTED); }
    if (late == 1 && n) { hv_ack(0, 0x100); }
    if (late == 2 && hv_timer_on) { hv_now += EMBC_TIME_SECOND * 3; hv_timer_fire(); }
    hv_send(6);
    if (held) { hv_fb[8] = 2; hv_put(hv_frame(15, 5, 0x90, 0, 1)); hv_put(hv_frame(0, 5, 0x91, 0, 1)); hv_put(hv_frame(1, 5, 0x92, 0, 1)); }
    while (hv_haln) { hv_hal_done(); }
    for (i = 0; i < 6 && hv_owned(LIB) + hv_owned(HAL) > 1; ++i) { if (!hv_done[hv_sent - 1] || hv_last_id) { hv_ack(hv_last_id, EMBC_FRAMER_ACK_MASK_SYNC); } while (hv_haln) { hv_hal_done(); } if (hv_timer_on && held) { hv_now += EMBC_TIME_SECOND; hv_timer_fire(); while (hv_haln) { hv_hal_done(); } } }
    for (i = 0; i < hv_sent; ++i) { VF_CHECK(own_reported, hv_done[i]); }
    VF_CHECK(own_all_freed, hv_owned(LIB) == 1 && hv_owned(HAL) == 0 && hv_owned(APP) == 0);
    VF_REACH(settled);
}
#endif

#ifdef H_PORT0
/* link management: pings are echoed, status requests answered, everything else reaches the application */
static int hv_got, hv_done, hv_e_len; static struct ev hv_last; static uint8_t hv_lastpay[64];
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) {
    int i;
    VF_CHECK(p0_rx, port == &hv_cookie[0] && port_id == 0 && message_id == 0x5A && (port_def & 0xff) != EMBC_FRAMER_PORT0_PING_REQ && (port_def & 0xff) != EMBC_FRAMER_PORT0_STATUS_REQ);
    VF_CHECK(p0_payload, embc_buffer_read_remaining(b) == hv_e_len);
    for (i = 0; i < hv_e_len; ++i) { VF_CHECK(p0_rx_bytes, b->data[8 + i] == 0xA8 + i); }
    ++hv_got;
    embc_buffer_free(b);
}
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) {
    VF_CHECK(p0_done, port == &hv_cookie[0] && port_id == 0 && message_id == 0x77 && port_def == EMBC_FRAMER_PORT0_PING_REQ && status == 0);
    ++hv_done;
}
static void hv_hal_check(struct embc_buffer_s * b) {
    int i;
    if (!hv_tx[hv_txn - 1].ack) { hv_last = hv_tx[hv_txn - 1]; for (i = 0; i < hv_last.len && i < 64; ++i) { hv_lastpay[i] = b->data[8 + i]; } }
}
int main(void) {
    static const int CMD[28] = {EMBC_FRAMER_PORT0_PING_REQ, EMBC_FRAMER_PORT0_STATUS_REQ, EMBC_FRAMER_PORT0_PING_RSP, EMBC_FRAMER_PORT0_STATUS_RSP, 0, 1, 3, 0x80, 0x202,
        /* one bit away from a link command */
        0x0C, 0x14, 0x24, 0x44, 0x84, 0x0E, 0x16, 0x26, 0x46, 0x86, 0x0A, 0x12, 0x22, 0x42, 0x82, 0x102, 0x402, 0x1002, 0x8002};
    int c, i, big;
    hv_start();
    hv_peer_resync(3);
    VF_PICK(c, 0, 27); if (c < 9) { VF_PICK(hv_e_len, 0, 3); VF_PICK(big, 0, 1); } else { hv_e_len = 1; big = 0; }
    c = CMD[c];
    if (c == EMBC_FRAMER_PORT0_STATUS_REQ) { hv_e_len = 0; } else if (big && c != 4) { hv_e_len = 30; }
    for (i = 0; i < hv_e_len; ++i) { hv_fb[8 + i] = (uint8_t) (0xA8 + i); }
    hv_put(hv_frame(4, 0, 0x5A, c, hv_e_len));
    VF_CHECK(p0_acked, hv_tx[0].ack && hv_tx[0].id == 4 && hv_tx[0].status == 0);
    if (c == EMBC_FRAMER_PORT0_PING_REQ || c == EMBC_FRAMER_PORT0_STATUS_REQ) {
        VF_CHECK(p0_response, hv_txn == 2 && !hv_tx[1].ack && hv_got == 0 && hv_tx[1].port == 0 && hv_tx[1].msg == 0x5A);
        if (c == EMBC_FRAMER_PORT0_PING_REQ) {
            VF_CHECK(ping_echo, hv_last.def == EMBC_FRAMER_PORT0_PING_RSP && hv_last.len == hv_e_len);
            for (i = 0; i < hv_e_len; ++i) { VF_CHECK(ping_bytes, hv_lastpay[i] == 0xA8 + i); }
            VF_REACH(ping);
        } else {
            struct embc_framer_status_s hv_st;
            for (i = 0; i < (int) sizeof(hv_st); ++i) { ((uint8_t *) &hv_st)[i] = hv_lastpay[i]; }
            VF_CHECK(status_response, hv_last.def == EMBC_FRAMER_PORT0_STATUS_RSP && hv_last.len == sizeof(struct embc_framer_status_s));
            VF_CHECK(status_content, hv_st.rx_count == 2 && hv_st.rx_data_count == 1 && hv_st.rx_ack_count == 0 && hv_st.tx_count == 0 && hv_st.rx_mic_error == 0 && hv_st.rx_synchronization_error == 0 && hv_st.tx_retransmit_count == 0);
            VF_REACH(status);
        }
        while (hv_haln) { hv_hal_done(); }
        hv_fb[8] = 0; hv_put(hv_frame(0x80 | hv_last.id, 0, 0x5A, 0x100, 1));
        VF_CHECK(p0_silent, hv_done == 0 && hv_got == 0);
    } else {
        VF_CHECK(p0_to_app, hv_got == 1 && hv_txn == 1);
        while (hv_haln) { hv_hal_done(); }
        VF_REACH(app);
    }
    VF_CHECK(p0_buffers, hv_owned(LIB) == 1 && hv_owned(HAL) == 0 && !hv_timer_on);
    /* a ping of our own: the application learns about its completion */
    hv_txn = 0;
    embc_framer_send_payload(hv_fr, 0, 0x77, EMBC_FRAMER_PORT0_PING_REQ, 0, 0);
    VF_CHECK(p0_sent, hv_txn == 1 && hv_last.def == EMBC_FRAMER_PORT0_PING_REQ && hv_last.msg == 0x77);
    hv_hal_done();
    hv_fb[8] = 0; hv_put(hv_frame(0x80 | hv_last.id, 0, 0x77, 0x100, 1));
    VF_CHECK(p0_own_done, hv_done == 1);
}
#endif

#ifdef H_STAT
/* counters: every hv_received hv_frame, error, retransmission is counted exactly once */
static int hv_got, hv_done;
static void hv_hal_check(struct embc_buffer_s * b) { }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) { ++hv_got; embc_buffer_free(b); }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { ++hv_done; }
int main(void) {
    int d, e, n, next = 1, ok = 1, dup = 0, sync = 0, mic = 0, acks = 0, jump = 0, retr = 0, synced = 1;
    struct embc_framer_status_s s;
    hv_start();
    hv_peer_resync(0);
    for (d = 0; d < DEPTH; ++d) {
        VF_PICK(e, 0, 6);
        hv_fb[8] = 0x11;
        if (e == 0) { hv_put(hv_frame(next, 2, 0, 0, 1)); next = (next + 1) & 15; ++ok; }
        else if (e == 1) { hv_put(hv_frame((next + 15) & 15, 2, 0, 0, 1)); ++ok; ++dup; }
        else if (e == 2) { n = hv_frame(next, 2, 0, 0, 1); hv_fb[9] ^= 1; hv_put(n); ++mic; hv_fb[8] = 0x11; hv_put(hv_frame(next, 2, 0, 0, 1)); next = (next + 1) & 15; ++ok; }
        else if (e == 3) { hv_fb[0] = 0xAA; for (n = 1; n < 8; ++n) { hv_fb[n] = 0; } hv_fb[7] = 0x33; hv_put(8); sync += synced; synced = 0; }
        else if (e == 4) { next = (next + 8) & 15; hv_put(hv_frame(next, 2, 0, 0, 1)); next = (next + 1) & 15; ++ok; ++jump; }
        else if (e == 5) { embc_framer_send_payload(hv_fr, 3, 0, 0, 0, 0); while (hv_haln) { hv_hal_done(); }
            if (VF_BOOL()) { hv_timer_fire(); ++retr; while (hv_haln) { hv_hal_done(); } }
            hv_fb[8] = 0; hv_put(hv_frame(0x80 | ((acks) & 15), 3, 0, 0x100, 1)); ++acks; ++ok; VF_CHECK(stat_done, hv_done == acks); }
        else { hv_fb[8] = 0; hv_put(hv_frame(0x8F, 3, 0, 0x100, 1)); ++ok; VF_CHECK(stat_unknown_ack, hv_done == acks); s = embc_framer_status_get(hv_fr); VF_CHECK(stat_ack_extra, s.rx_ack_count == (uint32_t) acks + 1); break; }
        if (e != 3) { synced = 1; }
        while (hv_haln) { hv_hal_done(); }
        s = embc_framer_status_get(hv_fr);
        VF_CHECKV(stat_rx, s.rx_count == (uint32_t) ok, s.rx_count, ok);
        VF_CHECKV(stat_dup, s.rx_deduplicate_count == (uint32_t) dup, s.rx_deduplicate_count, dup, jump);
        VF_CHECK(stat_sync, s.rx_synchronization_error == (uint32_t) sync);
        VF_CHECK(stat_mic, s.rx_mic_error == (uint32_t) mic);
        VF_CHECK(stat_jump, s.rx_frame_id_error == (uint32_t) jump);
        VF_CHECK(stat_ack, s.rx_ack_count == (uint32_t) acks && s.tx_count == (uint32_t) acks && s.tx_retransmit_count == (uint32_t) retr);
        VF_CHECK(stat_data, s.rx_data_count == (uint32_t) hv_got);
    }
    VF_REACH(counted);
}
#endif

#ifdef H_BUILD
/* constructed frames for every kind of field and every payload length */
static void hv_hal_check(struct embc_buffer_s * b) { }
static void hv_app_rx(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, struct embc_buffer_s * b) { }
static void hv_app_done(void * port, uint8_t port_id, uint8_t message_id, uint16_t port_def, int32_t status) { }
static uint8_t hv_pay[240];
static uint8_t hv_val(int i) { return (uint8_t) (i * 37 + 0xA5); }
int main(void) {
    static const int LEN[] = {0, 1, 2, 3, 4, 5, 127, 128, 239, 240};
    static const int DEF[] = {0, 0xffff, 0x1234, 0x80AA};
    int i, k, n, how, id, port, msg, def, status, t;
    hv_start();
    VF_PICK(how, 0, 5);
#ifdef FULL
    VF_PICK(n, 0, 240);
#else
    VF_PICK(k, 0, 9); n = LEN[k];
#endif
    VF_PICK(t, 0, 3);
    id = t == 0 ? 0 : t == 1 ? 15 : t == 2 ? 7 : 0x3A; port = t == 0 ? 0 : t == 1 ? 15 : 3; msg = t == 0 ? 0 : t == 1 ? 255 : 0xAA; def = DEF[t]; status = t * 37;
    if (n > 5 && t) { return 0; }
    for (i = 0; i < n; ++i) { hv_pay[i] = hv_val(i); }
    if (how == 0) {
        struct embc_buffer_s * b = embc_framer_construct_frame(hv_fr, id, port, msg, def, hv_pay, n);
        hv_give(hv_at(b), LIB);
        hv_hal_tx(&hv_halq, b);       /* checks the shape and both checksums */
        VF_CHECK(built_frame, !hv_tx[0].ack && hv_tx[0].id == (id & 15) && hv_tx[0].port == port && hv_tx[0].msg == msg && hv_tx[0].def == def && hv_tx[0].len == n);
        for (i = 0; i < n; ++i) { VF_CHECK(built_payload, b->data[8 + i] == hv_val(i)); }
        VF_REACH(frame);
    } else if (how == 1) {
        struct embc_buffer_s * b = embc_framer_construct_ack(hv_fr, id, port, msg, def, status);
        hv_hal_tx(&hv_halq, b);
        VF_CHECK(built_ack, hv_tx[0].ack && hv_tx[0].id == (id & 15) && hv_tx[0].port == port && hv_tx[0].msg == msg && hv_tx[0].def == def && hv_tx[0].len == 1 && hv_tx[0].status == status);
        VF_REACH(ack);
    } else {
        struct embc_buffer_s * b;
        if (how == 2) { embc_framer_send_payload(hv_fr, port, msg, def, hv_pay, n); }
        else if (how == 3) {
            b = embc_framer_alloc(hv_fr);
            VF_CHECK(alloc_room, embc_buffer_write_remaining(b) >= 240 && embc_buffer_cursor_get(b) == 8);
            embc_buffer_write(b, hv_pay, n);
            if (n) { embc_buffer_cursor_set(b, 8); VF_REACH(cursor); }      /* the cursor position does not matter */
            embc_framer_send(hv_fr, port, msg, def, b);
        } else {    /* a buffer without reserve holds just the payload */
            b = embc_buffer_alloc(0, how == 4 ? 240 : 253);
            if (how == 5) { b->reserve = 4; }
            embc_buffer_write(b, hv_pay, n);
            embc_framer_send(hv_fr, port, msg, def, b);
        }
        VF_CHECK(sent_frame, hv_txn == 1 && !hv_tx[0].ack && hv_tx[0].id == 0 && hv_tx[0].port == port && hv_tx[0].msg == msg && hv_tx[0].def == def && hv_tx[0].len == n);
        for (i = 0; i < n; ++i) { VF_CHECK(sent_payload, hv_halq[0]->data[8 + i] == hv_val(i)); }
        VF_CHECK(sent_buffers, hv_owned(HAL) == 1 && hv_owned(LIB) == 1);
        VF_REACH(sent);
    }
}
#endif
