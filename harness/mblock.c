/* Block allocator. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "src/memory/block.c"
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
#define NA 5
static uint8_t *hv_mem; static int32_t hv_mem_size, hv_bs, hv_count;
static struct embc_mblock_s *hv_self;
static int hv_first[NA], hv_nblk[NA], hv_size[NA], hv_live[NA];
static int hv_used[NBLK + 1];

static int hv_room_for(int n) {
    int i, run = 0;
    for (i = 0; i < hv_count; ++i) { if (hv_used[i]) { run = 0; } else { ++run; if (run >= n) return 1; } }
    return 0;
}
static void hv_take(int a, int n, int slack) {
    int32_t sz = n * hv_bs - (slack ? hv_bs - 1 : 0);
    int i, f;
    uint8_t *p;
    int room = hv_room_for(n);
    if (slack || VF_BOOL()) {
        p = embc_mblock_alloc_unsafe(hv_self, sz);
    } else {
        hv_fatal_ok = !room;
        p = embc_mblock_alloc(hv_self, sz);
        VF_CHECK(exhausted_is_fatal, !hv_fatal_ok);
        hv_fatal_ok = 0;
    }
    VF_CHECK(null_iff_no_room, (p == 0) == !room);
    if (!p) { VF_REACH(exhausted); return; }
    VF_CHECK(alloc_inside, p >= hv_mem && p + sz <= hv_mem + hv_mem_size);
    VF_CHECK(alloc_aligned, (p - hv_mem) % hv_bs == 0);
    f = (p - hv_mem) / hv_bs;
    for (i = 0; i < n; ++i) { VF_CHECK(alloc_disjoint, !hv_used[f + i]); hv_used[f + i] = 1; }
    hv_first[a] = f; hv_nblk[a] = n; hv_size[a] = sz; hv_live[a] = 1;
    memset(p, 0x20 + a, sz);
}
static void hv_give(int a) {
    int i;
    if (!hv_live[a]) return;
    for (i = 0; i < hv_size[a]; ++i) { VF_CHECK(contents_preserved, hv_mem[hv_first[a] * hv_bs + i] == 0x20 + a); }
    embc_mblock_free(hv_self, hv_mem + hv_first[a] * hv_bs, hv_size[a]);
    for (i = 0; i < hv_nblk[a]; ++i) hv_used[hv_first[a] + i] = 0;
    hv_live[a] = 0;
}
#ifdef H_WIDE     /* more blocks than a byte of bookkeeping can count, block numbers beyond 1000 */
static uint8_t *hv_alloc(int n, int at) {
    uint8_t *p = embc_mblock_alloc_unsafe(hv_self, n * hv_bs);
    VF_CHECK(wide_null_iff_no_room, (p != 0) == (at >= 0));
    VF_CHECK(wide_first_room, !p || p == hv_mem + at * hv_bs);
    return p;
}
int main(void) {
    int i; uint8_t *a, *b, *c, *d;
    VF_PICK(i, 0, 1); hv_bs = i ? 64 : 1; hv_count = 2100;
    hv_mem_size = hv_count * hv_bs + hv_bs / 2;
    i = embc_mblock_instance_size(hv_mem_size, hv_bs);
    VF_CHECK(instance_size, i > 0 && i <= 1024);
    hv_self = malloc(i);
    memset(hv_self, 0xff, i);      /* previous content does not matter */
    hv_mem = malloc(hv_mem_size);
    VF_CHECK(initialize, embc_mblock_initialize(hv_self, hv_mem, hv_mem_size, hv_bs) == 0);
    a = hv_alloc(1000, 0); b = hv_alloc(300, 1000); c = hv_alloc(790, 1300);
    hv_alloc(11, -1); d = hv_alloc(10, 2090); hv_alloc(1, -1);
    embc_mblock_free(hv_self, b, 300 * hv_bs);
    hv_alloc(301, -1);
    b = hv_alloc(300, 1000);
    embc_mblock_free(hv_self, c, 790 * hv_bs); embc_mblock_free(hv_self, a, 1000 * hv_bs);
    hv_alloc(1001, -1);
    a = hv_alloc(600, 0); c = hv_alloc(600, 1300);
    hv_alloc(401, -1); hv_alloc(400, 600); hv_alloc(190, 1900); hv_alloc(1, -1);
    embc_mblock_free(hv_self, d, 10 * hv_bs); embc_mblock_free(hv_self, b, 300 * hv_bs); embc_mblock_free(hv_self, a, 600 * hv_bs);
    hv_alloc(601, -1); hv_alloc(600, 0); hv_alloc(300, 1000); hv_alloc(10, 2090); hv_alloc(1, -1);
    VF_REACH(end);
    return 0;
}
#elif defined(H_BITMAP)   /* bookkeeping beyond the first word, all runs of one length */
static uint8_t *hv_p[NBLK];
int main(void) {
    static const int C[] = {8, 9, 32, 33, 64, 65, NBLK};
    int k, run, i, j, n, sz, m;
    VF_PICK(k, 0, sizeof(C) / sizeof(C[0]) - 1); hv_count = C[k];
    VF_PICK(run, 1, 5);
    hv_bs = (k & 1) ? 1 : 3;
    hv_mem_size = hv_count * hv_bs;
    i = embc_mblock_instance_size(hv_mem_size, hv_bs);
    VF_CHECK(instance_size, i > 0 && i <= 256);
    hv_self = malloc(i);
    hv_mem = malloc(hv_mem_size);
    VF_CHECK(initialize, embc_mblock_initialize(hv_self, hv_mem, hv_mem_size, hv_bs) == 0);
    sz = run * hv_bs;
    m = hv_count / run;
    for (n = 0; n <= m; ++n) {
        uint8_t *p = embc_mblock_alloc_unsafe(hv_self, sz);
        VF_CHECK(finds_room_while_any, (p != 0) == (n < m));
        if (!p) { break; }
        VF_CHECK(inside, p >= hv_mem && p + sz <= hv_mem + hv_mem_size && (p - hv_mem) % hv_bs == 0);
        j = (p - hv_mem) / hv_bs;
        for (i = 0; i < run; ++i) { VF_CHECK(disjoint, !hv_used[j + i]); hv_used[j + i] = 1; }
        hv_p[n] = p;
        memset(p, n & 0x7f, sz);
    }
    for (n = 0; n < m; ++n) {   /* every second one returned */
        for (i = 0; i < sz; ++i) { VF_CHECK(contents, hv_p[n][i] == (n & 0x7f)); }
        if (n & 1) {
            embc_mblock_free(hv_self, hv_p[n], sz);
            j = (hv_p[n] - hv_mem) / hv_bs;
            for (i = 0; i < run; ++i) { hv_used[j + i] = 0; }
        }
    }
    if (!hv_room_for(run + 1)) { VF_CHECK(no_larger_hole, embc_mblock_alloc_unsafe(hv_self, sz + 1) == 0); }
    for (n = 1; n < m; n += 2) {
        uint8_t *p = embc_mblock_alloc_unsafe(hv_self, sz);
        VF_CHECK(holes_reused, p && p >= hv_mem && p + sz <= hv_mem + hv_mem_size);
        j = (p - hv_mem) / hv_bs;
        for (i = 0; i < run; ++i) { VF_CHECK(hole_disjoint, !hv_used[j + i]); hv_used[j + i] = 1; }
        hv_p[n] = p;
    }
    for (n = 0; n < m; ++n) { embc_mblock_free(hv_self, hv_p[n], sz); }
    VF_CHECK(all_returned, embc_mblock_alloc_unsafe(hv_self, hv_mem_size) == hv_mem);
    VF_CHECK(nothing_left, embc_mblock_alloc_unsafe(hv_self, 1) == 0);
    VF_REACH(end);
    return 0;
}
#else
int main(void) {
    int k, n, i;
    static const int BS[3] = {1, 4, 3};
    VF_PICK(k, 0, 2); hv_bs = BS[k];
#ifdef H_LARGE
    VF_PICK(n, 0, 2); hv_count = n == 0 ? NBLK : (n == 1 ? 8 : 1);
#else
    hv_count = NBLK - k;
#endif
    hv_mem_size = hv_count * hv_bs + (k & 1 ? hv_bs - 1 : 0);
    i = embc_mblock_instance_size(hv_mem_size, hv_bs);
    VF_CHECK(instance_size, i > 0 && i <= 256);
    hv_self = malloc(i);
    hv_mem = malloc(hv_mem_size);
    VF_CHECK(initialize, embc_mblock_initialize(hv_self, hv_mem, hv_mem_size, hv_bs) == 0);
#ifdef H_LARGE
    {   /* sizes beyond the managed memory, up to the largest */
        int32_t sz = VF_INT(hv_mem_size + 1, INT32_MAX);
        VF_CHECK(too_large_null, embc_mblock_alloc_unsafe(hv_self, sz) == 0);
        hv_take(0, 1, 0);
        hv_fatal_ok = 1;
        if (VF_BOOL()) { embc_mblock_free(hv_self, hv_mem, sz); VF_CHECK(free_past_end_is_fatal, 0); }
        if (VF_BOOL()) { embc_mblock_free(hv_self, hv_mem + hv_mem_size, 1); VF_CHECK(free_outside_is_fatal, 0); }
        if (VF_BOOL() && hv_count > 1) { embc_mblock_free(hv_self, hv_mem + hv_bs, 1); VF_CHECK(free_of_free_block_is_fatal, 0); }
        hv_fatal_ok = 0;
        hv_give(0);
        hv_take(1, hv_count, 0);
        VF_CHECK(all_available, hv_live[1] && !hv_room_for(1));
    }
#else
    for (i = 0; i < 3; ++i) { VF_PICK(n, 1, 3); hv_take(i, n == 3 ? 4 : n, n & 1); }
    VF_PICK(k, 0, 3);
    if (k < 3) { hv_give(k); }
    VF_PICK(n, 1, 4); hv_take(3, n, !(n & 1));
#ifdef H_DEEP
    VF_PICK(k, 0, 3); hv_give(k);
    VF_PICK(n, 3, 4);
#else
    hv_give(1);
    VF_PICK(n, 3, 4);
#endif
    hv_take(4, n == 4 ? NBLK - 5 : n, 0);
    for (i = 0; i < NA; ++i) { hv_give(i); }
    for (i = 0; i < hv_count; ++i) { VF_CHECK(ghost_empty, !hv_used[i]); }
    hv_take(0, hv_count, 0);
    VF_CHECK(all_available, hv_live[0]);
#endif
    embc_mblock_finalize(hv_self);
    VF_REACH(end);
    return 0;
}
#endif
