/* 32-bit test pattern generator and receiver. */
#include "vf.h"
#include "libc_model.h"
#define VF_NO_FATAL
#include "src/pattern_32a.c"
void embc_fatal(char const * file, int line, char const * msg) {
    Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop();
}
#define PERIOD 4325376LL
/* the documented pattern, by absolute hv_word position */
static uint32_t hv_word(int64_t pos) {
    int64_t p = ((pos % PERIOD) + PERIOD) % PERIOD;
    uint32_t c = (p / 2) % 65536, s = (p / 2) % 33;
    if (p & 1) return ((~c & 0xffffU) << 16) | c;
    return s ? 1U << (s - 1) : 0;
}
static const int64_t hv_POS[] = {0, 1, 2, 3, 31, 64, 65, 66, 67, 131070, 131071, 131072, 131073,
    2162686, 2162687, 2162688, 2162690, 4325372, 4325373, 4325374, 4325375};
#define NPOS 20
static int64_t hv_pick_pos(void) { int k; VF_PICK(k, 0, NPOS); return hv_POS[k]; }
static struct embc_pattern_32a_tx_s hv_tx;
static void hv_tx_at(int64_t p) {     /* reach position p by generation semantics */
    embc_pattern_32a_tx_initialize(&hv_tx);
    hv_tx.counter = (uint16_t) ((p / 2) % 65536);
    hv_tx.shift32 = hv_word(p & ~1LL);
    if (p & 1) { hv_tx.shift32 = hv_word((p & ~1LL) + 2); }
    hv_tx.toggle = (p & 1) ? 0xff : 0;
}

#ifdef H_TX
int main(void) {
    int i, n, k; int64_t p;
    uint32_t b[8];
    VF_CHECK(period, EMBC_PATTERN_32A_PERIOD == PERIOD);
    embc_pattern_32a_tx_initialize(&hv_tx);
    for (i = 0; i < 140; ++i) { VF_CHECK(tx_start, embc_pattern_32a_tx_next(&hv_tx) == hv_word(i)); }
    p = hv_pick_pos();
    hv_tx_at(p);
    VF_PICK(k, 0, 2);
    for (i = 0; i < k; ++i) { VF_CHECK(tx_next, embc_pattern_32a_tx_next(&hv_tx) == hv_word(p)); ++p; }
    VF_PICK(n, 0, 6);
    b[n] = 0x5a5a5a5a;
    VF_PICK(k, 0, 1);      /* a partial trailing hv_word is not written */
    embc_pattern_32a_tx_buffer(&hv_tx, b, 4 * n + 2 * k);
    for (i = 0; i < n; ++i) { VF_CHECK(tx_buffer_word, b[i] == hv_word(p)); ++p; }
    VF_CHECK(tx_buffer_bounds, b[n] == 0x5a5a5a5a);
    for (i = 0; i < 6; ++i) { VF_CHECK(tx_continues, embc_pattern_32a_tx_next(&hv_tx) == hv_word(p)); ++p; }
    VF_REACH(end);
    return 0;
}
#endif
#if defined(H_RX) || defined(H_CORRUPT)
static struct embc_pattern_32a_rx_s hv_rx;
static void hv_feed(uint32_t w) { embc_pattern_32a_rx_next(&hv_rx, w); }
static void hv_feed_n(int64_t p, int n) {
    int i, j; uint32_t b[8];
    for (i = 0; i < n; ++i) b[i] = hv_word(p + i);
    embc_pattern_32a_rx_buffer(&hv_rx, b, 4 * n);
}
static void hv_counts(int64_t missing, int64_t dup, int64_t err, int64_t resyncs, int64_t total) {
    VF_CHECKV(missing_count, hv_rx.missing_count == missing, hv_rx.missing_count, missing);
    VF_CHECKV(duplicate_count, hv_rx.duplicate_count == dup, hv_rx.duplicate_count, dup);
    VF_CHECKV(error_count, hv_rx.error_count == err, hv_rx.error_count, err);
    VF_CHECKV(resync_count, hv_rx.resync_count == resyncs, hv_rx.resync_count, resyncs);
    VF_CHECKV(receive_count, hv_rx.receive_count == total, hv_rx.receive_count, total);
}
static void hv_settle(int64_t p) {  /* synchronized: clean words are never reported */
    int64_t m = hv_rx.missing_count, d = hv_rx.duplicate_count, e = hv_rx.error_count, r = hv_rx.resync_count, t = hv_rx.receive_count;
    int i;
    for (i = 0; i < 6; ++i) hv_feed(hv_word(p + i));
    hv_counts(m, d, e, r, t + 6);
}
static const int64_t hv_GAP[] = {1, 2, 3, 4, 33, 64, 65, 66, 67, 68, 132, 131071, 131072, 131073, 131074, 262144,
    1000001, 2162000, 2162620, 2162622, 2162624, 2162625};
#define NGAP 21
int main(void) {
    int64_t p = hv_pick_pos(), g; int k, i, what;
    embc_pattern_32a_rx_initialize(&hv_rx);
    hv_feed_n(p, 2);                 /* joins at any position with two words */
    hv_counts(0, 0, 0, 0, 2);
    p += 2;
    VF_PICK(what, 0, 1);
    if (what) { hv_feed_n(p, 3); p += 3; hv_counts(0, 0, 0, 0, 5); } else { hv_settle(p); p += 6; }
    k = hv_rx.receive_count;
#ifdef H_RX
    VF_PICK(i, 0, NGAP); g = hv_GAP[i];
    VF_PICK(what, 0, 1);
    if (what) {                   /* g words are lost */
        for (i = 0; i < 3; ++i) hv_feed(hv_word(p + g + i));
        hv_counts(g, 0, 1, 1, k + 3);
        hv_settle(p + g + 3);
        VF_REACH(lost);
    } else {                      /* g words are repeated */
        for (i = 0; i < 3; ++i) hv_feed(hv_word(p - g + i));
        hv_counts(0, g, 1, 1, k + 3);
        hv_settle(p - g + 3);
        VF_REACH(repeated);
    }
#else
    {   /* one corrupted hv_word: a single bit is flipped */
        uint32_t w, bad;
        VF_PICK(i, 0, 31);
        bad = hv_word(p) ^ (1U << i);
        hv_feed(bad);
        VF_CHECK(corruption_detected, hv_rx.error_count == 1 && hv_rx.resync_count == 1);
        for (i = 0; i < 4; ++i) hv_feed(hv_word(p + 1 + i));
        VF_CHECK(corruption_counted, hv_rx.error_count >= 1 && hv_rx.receive_count == k + 5);
        hv_settle(p + 5);            /* synchronized again */
        VF_REACH(recovered);
    }
#endif
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_BUF     /* buffers of many words */
#define NW 300
static uint32_t hv_buf[NW + 1];
static struct embc_pattern_32a_rx_s hv_brx;
int main(void) {
    static const int AT[] = {0, 1, 2, 63, 64, 254, 255, 256, 257, 258, 270, 280, 290, NW - 2, NW - 1};
    int i; int64_t p;
    VF_PICK(i, 0, 1); p = i ? 131000 : 0;
    hv_tx_at(p);
    hv_buf[NW] = 0x5a5a5a5a;
    embc_pattern_32a_tx_buffer(&hv_tx, hv_buf, 4 * NW);
    for (i = 0; i < 15; ++i) { VF_CHECK(buf_word, hv_buf[AT[i]] == hv_word(p + AT[i])); }
    VF_CHECK(buf_bounds, hv_buf[NW] == 0x5a5a5a5a);
    for (i = 0; i < 4; ++i) { VF_CHECK(buf_continues, embc_pattern_32a_tx_next(&hv_tx) == hv_word(p + NW + i)); }
    embc_pattern_32a_rx_initialize(&hv_brx);
    embc_pattern_32a_rx_buffer(&hv_brx, hv_buf, 4 * NW);
    VF_CHECK(buf_received, hv_brx.receive_count == NW && hv_brx.error_count == 0 && hv_brx.missing_count <= p && hv_brx.duplicate_count == 0);
    VF_REACH(end);
    return 0;
}
#endif
