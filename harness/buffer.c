/* Buffer object: one hv_arbitrary operation from an hv_arbitrary valid state. */
#include "vf.h"
#include <stdlib.h>
#include "libc_model.h"
#include "src/memory/buffer.c"
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
#ifndef CAP
#define CAP 9
#endif
EMBC_BUFFER_STATIC_DECLARE(b, CAP);
EMBC_BUFFER_STATIC_DECLARE(b2, CAP);
static uint8_t hv_g[CAP]; static int hv_gc, hv_gl, hv_gr;
static int hv_out[16];
static const int hv_RES[4] = {0, 1, 3, CAP};

#ifdef H_LARGE
/* positions and sizes beyond 255 and 32767 */
static uint8_t hv_big[CAP];
static uint8_t hv_pat(long k) { return (uint8_t) (k ^ (k >> 8)); }
int main(void) {
    static const int POS[] = {0, 256, 300, 32768, 65280, 65535}, LEN[] = {1, 255, 256, 25535, 32768, 65535};
    static const int AT[] = {0, 1, 254, 255, 256, 299, 300, 301, 32766, 32767, 32768, 39999, 40000, 65279, 65280, 65534};
    int i, j, k, p, l, n, r;
    for (i = 0; i < 16; ++i) { hv_big[AT[i]] = 1; }
    EMBC_BUFFER_STATIC_INITIALIZE(b);
    VF_PICK(i, 0, 5); VF_PICK(j, 0, 5); VF_PICK(k, 0, 4); VF_PICK(r, 0, 2); r = r == 1 ? 255 : r == 2 ? 256 : 0;
    p = POS[i]; n = LEN[j];
    b.reserve = r;
    for (i = 0; i < 16; ++i) { b_mem_[AT[i]] = hv_pat(AT[i]); }
    VF_CHECK(large_capacity, embc_buffer_capacity(&b) == CAP);
    if (k == 0) {            /* write */
        b.length = b.cursor = p;
        VF_CHECK(large_write_remaining, embc_buffer_write_remaining(&b) == CAP - p - r);
        hv_fatal_ok = n > 0 && n > CAP - p - r;
        embc_buffer_write(&b, hv_big, n);
        VF_CHECK(large_write_overflow, !hv_fatal_ok);
        VF_CHECK(large_write, b.cursor == p + n && b.length == p + n && b.reserve == r);
        for (i = 0; i < 16; ++i) { VF_CHECK(large_written, b_mem_[AT[i]] == (AT[i] < p || AT[i] >= p + n ? hv_pat(AT[i]) : hv_big[AT[i] - p])); }
        VF_REACH(large_write);
    } else if (k == 1) {     /* read */
        b.length = CAP; b.cursor = p;
        VF_CHECK(large_read_remaining, embc_buffer_read_remaining(&b) == CAP - p);
        hv_fatal_ok = n > CAP - p;
        if (n) { hv_big[n - 1] = 0; }
        embc_buffer_read(&b, hv_big, n);
        VF_CHECK(large_read_underflow, !hv_fatal_ok);
        VF_CHECK(large_read, b.cursor == p + n && b.length == CAP);
        for (i = 0; i < 16; ++i) { if (AT[i] >= p && AT[i] < p + n) { VF_CHECK(large_read_bytes, hv_big[AT[i] - p] == hv_pat(AT[i])); } }
        VF_REACH(large_read);
    } else if (k == 2) {     /* copy */
        EMBC_BUFFER_STATIC_INITIALIZE(b2);
        b2.length = CAP; b2.cursor = p; b2_mem_[p < CAP ? p : 0] = 0x77;
        hv_fatal_ok = n > CAP - p || n > CAP - r;
        embc_buffer_copy(&b, &b2, n);
        VF_CHECK(large_copy_overflow, !hv_fatal_ok);
        VF_CHECK(large_copy, b.cursor == n && b.length == n && (n == 0 || p == CAP || b_mem_[0] == 0x77));
    } else if (k == 3) {     /* integers and seek */
        l = p > CAP - 8 ? CAP - 8 : p;
        b.length = CAP; b.reserve = 0;
        embc_buffer_cursor_set(&b, l);
        VF_CHECK(large_seek, embc_buffer_cursor_get(&b) == l && embc_buffer_length(&b) == CAP);
        embc_buffer_write_u64_be(&b, 0x0102030405060708ULL);
        VF_CHECK(large_integer, b.cursor == l + 8 && b_mem_[l] == 1 && b_mem_[l + 7] == 8);
        embc_buffer_cursor_set(&b, l);
        VF_CHECK(large_integer_read, embc_buffer_read_u64_be(&b) == 0x0102030405060708ULL && b.cursor == l + 8);
    } else {                 /* erase near the end of a long buffer */
        int s, e, c;
        b.length = CAP; b.reserve = 0;
        VF_PICK(s, CAP - 6, CAP - 3); VF_PICK(e, CAP - 4, CAP); VF_PICK(c, CAP - 7, CAP);
        b.cursor = c;
        for (i = CAP - 6; i < CAP; ++i) { b_mem_[i] = i; }
        embc_buffer_erase(&b, s, e);
        if (e > s) {
            VF_CHECK(large_erase, b.length == CAP - (e - s) && b.cursor == (c >= e ? c - (e - s) : c > s ? s : c));
            for (i = CAP - 6; i < CAP - (e - s); ++i) { VF_CHECK(large_erased, b_mem_[i] == (uint8_t) (i < s ? i : i + (e - s))); }
        }
        VF_REACH(large_erase);
    }
    embc_buffer_reset(&b);
    VF_CHECK(large_reset, b.length == 0 && b.cursor == 0);
    VF_REACH(end);
    return 0;
}
#else
static int hv_fresh(struct embc_buffer_s *x) {
    return x->cursor == 0 && x->length == 0 && x->reserve == 0 && x->buffer_id == 0 && x->flags == 0 && x->item.next == &x->item && x->item.prev == &x->item;
}
static void hv_arbitrary(void) {
    int i, k;
    EMBC_BUFFER_STATIC_DEFINE(hv_def, 3);
    VF_CHECK(static_define, hv_fresh(&hv_def) && hv_def.data == hv_def_mem_ && hv_def.capacity == 3);
    b.cursor = 5; b.length = 6; b.reserve = 7; b.buffer_id = 8; b.flags = 9; b.item.next = b.item.prev = 0;
    EMBC_BUFFER_STATIC_INITIALIZE(b);
    VF_CHECK(static_init, hv_fresh(&b) && b.data == b_mem_ && b.capacity == CAP);
    VF_PICK(hv_gl, 0, CAP); VF_PICK(hv_gc, 0, hv_gl); VF_PICK(k, 0, NRES - 1); hv_gr = hv_RES[k];
    b.length = hv_gl; b.cursor = hv_gc; b.reserve = hv_gr;
    for (i = 0; i < CAP; ++i) { b_mem_[i] = hv_g[i] = 0x30 + i; }
    VF_CHECK(length_get, embc_buffer_length(&b) == hv_gl);
    VF_CHECK(cursor_get, embc_buffer_cursor_get(&b) == hv_gc);
    VF_CHECK(capacity_get, embc_buffer_capacity(&b) == CAP);
    VF_CHECK(read_remaining, embc_buffer_read_remaining(&b) == hv_gl - hv_gc);
    VF_CHECK(write_remaining, embc_buffer_write_remaining(&b) == CAP - hv_gc - hv_gr);
}
static void hv_verify(void) {
    int i;
    VF_CHECK(cursor, b.cursor == hv_gc);
    VF_CHECK(length, b.length == hv_gl);
    VF_CHECK(reserve, b.reserve == hv_gr);
    VF_CHECK(invariant, b.cursor <= b.length && b.length <= b.capacity);
    VF_CHECK(storage, b.data == b_mem_ && b.capacity == CAP);
    for (i = 0; i < CAP; ++i) { VF_CHECK(contents, b_mem_[i] == hv_g[i]); }
    VF_CHECK(within_reserve_on_write, hv_gl <= CAP);
}
static void hv_g_put(int v) { hv_g[hv_gc++] = v; if (hv_gc > hv_gl) hv_gl = hv_gc; }

int main(void) {
    int i, n, k;
    hv_arbitrary();
#if defined(H_WRITE)
    static uint8_t src[CAP + 2];
    for (i = 0; i < CAP + 2; ++i) src[i] = 0x80 + i;
    VF_PICK(n, -1, CAP + 1);
    hv_fatal_ok = n > 0 && n > CAP - hv_gc - hv_gr;
    embc_buffer_write(&b, src, n);
    VF_CHECK(overflow_is_fatal, !hv_fatal_ok);
    for (i = 0; i < n; ++i) hv_g_put(src[i]);
#elif defined(H_COPY)
    int l2, c2;
    EMBC_BUFFER_STATIC_INITIALIZE(b2);
    VF_PICK(l2, 0, CAP); VF_PICK(c2, 0, 2); if (c2 > l2) c2 = l2;
    b2.length = l2; b2.cursor = c2;
    for (i = 0; i < CAP; ++i) b2_mem_[i] = 0x80 + i;
    VF_PICK(n, 0, CAP + 1);
    hv_fatal_ok = n > CAP - hv_gc - hv_gr || n > l2 - c2;
    embc_buffer_copy(&b, &b2, n);
    VF_CHECK(overflow_is_fatal, !hv_fatal_ok);
    for (i = 0; i < n; ++i) hv_g_put(0x80 + c2 + i);
    for (i = 0; i < CAP; ++i) { VF_CHECK(source_unchanged, b2_mem_[i] == 0x80 + i); }
    VF_CHECK(source_length, b2.length == l2);
    VF_REACH(copied);
#elif defined(H_STR)
    static char str[CAP + 3]; int t, room = CAP - hv_gc - hv_gr;
    bool r;
    VF_PICK(n, 0, CAP + 1);
    for (i = 0; i < n; ++i) str[i] = 'A' + i;
    str[n] = 0;
    VF_PICK(t, 0, 1);
    if (room < 0) room = 0;
    if (t) {
        r = embc_buffer_write_str_truncate(&b, str);
        VF_CHECK(truncated_reported, r == (n <= room));
        if (!r) VF_REACH(truncated);
    } else {
        hv_fatal_ok = n > room;
        embc_buffer_write_str(&b, str);
        VF_CHECK(overflow_is_fatal, !hv_fatal_ok);
    }
    for (i = 0; i < n && i < room; ++i) hv_g_put('A' + i);
#elif defined(H_WINT)
    static const int W[7] = {1, 2, 4, 8, 2, 4, 8};
    VF_PICK(k, 0, 6);
    hv_fatal_ok = W[k] > CAP - hv_gc - hv_gr;
    if (k == 0) embc_buffer_write_u8(&b, 0xf1);
    if (k == 1) embc_buffer_write_u16_le(&b, 0xf1e2);
    if (k == 2) embc_buffer_write_u32_le(&b, 0xf1e2d3c4U);
    if (k == 3) embc_buffer_write_u64_le(&b, 0xf1e2d3c4b5a69788ULL);
    if (k == 4) embc_buffer_write_u16_be(&b, 0xf1e2);
    if (k == 5) embc_buffer_write_u32_be(&b, 0xf1e2d3c4U);
    if (k == 6) embc_buffer_write_u64_be(&b, 0xf1e2d3c4b5a69788ULL);
    VF_CHECK(overflow_is_fatal, !hv_fatal_ok);
    {
        static const uint8_t X[8] = {0xf1, 0xe2, 0xd3, 0xc4, 0xb5, 0xa6, 0x97, 0x88};
        for (i = 0; i < W[k]; ++i) hv_g_put(k >= 4 ? X[i] : X[W[k] - 1 - i]);
    }
#elif defined(H_READ)
    static const int W[7] = {1, 2, 4, 8, 2, 4, 8};
    uint8_t dst[CAP + 1]; uint64_t v = 0, x = 0;
    VF_PICK(k, 0, 7);
    if (k == 7) {
        for (i = 0; i < CAP + 1; ++i) dst[i] = 0xee;
        VF_PICK(n, 0, CAP + 1);
        hv_fatal_ok = n > hv_gl - hv_gc;
        embc_buffer_read(&b, dst, n);
        VF_CHECK(underflow_is_fatal, !hv_fatal_ok);
        for (i = 0; i < CAP + 1; ++i) { VF_CHECK(read_bytes, dst[i] == (i < n ? hv_g[hv_gc + i] : 0xee)); }
        hv_gc += n;
    } else {
        hv_fatal_ok = W[k] > hv_gl - hv_gc;
        if (k == 0) v = embc_buffer_read_u8(&b);
        if (k == 1) v = embc_buffer_read_u16_le(&b);
        if (k == 2) v = embc_buffer_read_u32_le(&b);
        if (k == 3) v = embc_buffer_read_u64_le(&b);
        if (k == 4) v = embc_buffer_read_u16_be(&b);
        if (k == 5) v = embc_buffer_read_u32_be(&b);
        if (k == 6) v = embc_buffer_read_u64_be(&b);
        VF_CHECK(underflow_is_fatal, !hv_fatal_ok);
        for (i = 0; i < W[k]; ++i) x = (x << 8) | hv_g[k >= 4 ? hv_gc + i : hv_gc + W[k] - 1 - i];
        VF_CHECK(read_value, v == x);
        hv_gc += W[k];
    }
#elif defined(H_ERASE)
    int s, e, len;
    VF_PICK(s, -1, CAP + 1); VF_PICK(e, -1, CAP + 1);
    hv_fatal_ok = s < 0 || s > hv_gl - 1 || e < 0 || e > hv_gl;
    embc_buffer_erase(&b, s, e);
    VF_CHECK(range_is_fatal, !hv_fatal_ok);
    if (e > s) {
        len = e - s;
        for (i = s; i < hv_gl - len; ++i) hv_g[i] = hv_g[i + len];
        if (hv_gc >= e) hv_gc -= len; else if (hv_gc > s) hv_gc = s;
        hv_gl -= len;
        for (i = hv_gl; i < CAP; ++i) hv_g[i] = b_mem_[i];   /* beyond the length: unspecified */
        VF_REACH(erased);
    }
#elif defined(H_MISC)
    VF_PICK(k, 0, 2);
    if (k == 0) {
        VF_PICK(n, -1, CAP + 1);
        hv_fatal_ok = n < 0 || n > hv_gl;
        embc_buffer_cursor_set(&b, n);
        VF_CHECK(seek_range_is_fatal, !hv_fatal_ok);
        hv_gc = n;
    } else if (k == 1) { embc_buffer_reset(&b); hv_gc = hv_gl = 0; }
    else { embc_buffer_clear(&b); hv_gc = hv_gl = 0; for (i = 0; i < CAP; ++i) hv_g[i] = 0; }
#endif
    hv_fatal_ok = 0;
    hv_verify();
    embc_buffer_free(&b);      /* static buffers: a no-op */
    hv_verify();
    VF_REACH(end);
    return 0;
}
#endif
