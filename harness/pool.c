/* Fixed-size hv_pool and reference-counted object hv_pool. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#ifdef H_POOL
#include "src/memory/pool.c"
#else
#include "src/memory/object_pool.c"
#endif
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
#define NB 3
static uint8_t *hv_base; static int32_t hv_total, hv_bsize; static int hv_bcount;
static uint8_t *hv_blk[NB]; static int hv_live[NB], hv_refs[NB]; static int hv_n_live;
static const int hv_SIZES[7] = {1, 7, 8, 9, 16, 4, 24};

static int hv_slot_free(void) { int i; for (i = 0; i < NB; ++i) if (!hv_live[i]) return i; return -1; }
static void hv_take(int i, uint8_t *p) {
    int j;
    VF_CHECK(alloc_within_pool, p >= hv_base && p + hv_bsize <= hv_base + hv_total);
    VF_CHECK(alloc_aligned, ((p - hv_base) % sizeof(int *)) == 0);
    for (j = 0; j < NB; ++j) {
        VF_CHECK(alloc_disjoint, j == i || !hv_live[j] || p + hv_bsize <= hv_blk[j] || hv_blk[j] + hv_bsize <= p);
    }
    hv_blk[i] = p; hv_live[i] = 1; hv_refs[i] = 1; ++hv_n_live;
    memset(p, 0x10 + i, hv_bsize);
}
static void hv_verify(int i) {
    int k;
    for (k = 0; k < hv_bsize; ++k) { VF_CHECK(contents_preserved, hv_blk[i][k] == 0x10 + i); }
}
static void hv_verify_all(void) { int i; for (i = 0; i < NB; ++i) if (hv_live[i]) hv_verify(i); }

#ifdef H_POOL
#ifdef H_LARGE
/* many blocks, and blocks larger than 255 and 65535 bytes */
#define NBIG 260
static uint8_t *hv_big[NBIG];
int main(void) {
    static const int CNT[] = {NBIG, 4, 2}, SZ[] = {8, 300, 70000};
    int k, i, j, n; int32_t hv_total; uint8_t *hv_base; struct embc_pool_s *hv_pool;
    VF_PICK(k, 0, 2); n = CNT[k];
    hv_total = embc_pool_instance_size(n, SZ[k]);
    VF_CHECK(large_instance_size, hv_total >= n * SZ[k] && hv_total <= n * (SZ[k] + 64) + 128);
    hv_base = malloc(hv_total); hv_pool = (struct embc_pool_s *) hv_base;
    embc_pool_initialize(hv_pool, n, SZ[k]);
    for (i = 0; i < n; ++i) {
        hv_big[i] = embc_pool_alloc(hv_pool);
        VF_CHECK(large_within, hv_big[i] >= hv_base && hv_big[i] + SZ[k] <= hv_base + hv_total);
        for (j = 0; j < i; ++j) { VF_CHECK(large_disjoint, hv_big[i] + SZ[k] <= hv_big[j] || hv_big[j] + SZ[k] <= hv_big[i]); }
        hv_big[i][0] = i; hv_big[i][SZ[k] - 1] = i + 1;
    }
    for (i = 0; i < n; ++i) { VF_CHECK(large_contents, hv_big[i][0] == (uint8_t) i && hv_big[i][SZ[k] - 1] == (uint8_t) (i + 1)); }
    VF_CHECK(large_exhausted, embc_pool_is_empty(hv_pool) && embc_pool_alloc_unsafe(hv_pool) == 0);
    for (i = 0; i < n; ++i) { embc_pool_free(hv_pool, hv_big[i]); }
    for (i = 0; i < n; ++i) {
        hv_big[i] = embc_pool_alloc(hv_pool);
        for (j = 0; j < i; ++j) { VF_CHECK(large_disjoint_again, hv_big[i] != hv_big[j]); }
    }
    VF_REACH(end);
    return 0;
}
#else
static struct embc_pool_s *hv_pool;
static void hv_do_alloc(void) {
    int i = hv_slot_free();
    void *p;
    VF_CHECK(empty_iff_all_taken, (embc_pool_is_empty(hv_pool) != 0) == (hv_n_live == hv_bcount));
    if (VF_BOOL()) {
        p = embc_pool_alloc_unsafe(hv_pool);
        if (hv_n_live == hv_bcount) { VF_CHECK(exhausted_returns_null, p == 0); VF_REACH(exhausted); return; }
        VF_CHECK(alloc_available, p != 0);
    } else {
        hv_fatal_ok = hv_n_live == hv_bcount;
        p = embc_pool_alloc(hv_pool);
        VF_CHECK(exhausted_is_fatal, !hv_fatal_ok);
    }
    hv_take(i, p);
}
static void hv_do_free(int i) {
    if (i >= NB || !hv_live[i]) return;
    hv_verify(i);
    embc_pool_free(hv_pool, hv_blk[i]);
    hv_live[i] = 0; --hv_n_live;
    VF_REACH(freed);
}
int main(void) {
    int k, s, i;
    VF_PICK(k, 0, 6); hv_bsize = hv_SIZES[k];
    VF_PICK(hv_bcount, 1, NB);
    hv_total = embc_pool_instance_size(hv_bcount, hv_bsize);
    VF_CHECK(instance_size, hv_total >= hv_bcount * hv_bsize);
    hv_base = malloc(hv_total);
    hv_pool = (struct embc_pool_s *) hv_base;
    VF_CHECK(initialize, embc_pool_initialize(hv_pool, hv_bcount, hv_bsize) == 0);
    for (s = 0; s < STEPS; ++s) {
        VF_PICK(k, 0, NB);
        if (k == NB) { hv_do_alloc(); } else { hv_do_free(k); }
        hv_fatal_ok = 0;
    }
    hv_verify_all();
    /* everything returned: the full capacity is available again */
    for (i = 0; i < NB; ++i) { if (hv_live[i]) { embc_pool_free(hv_pool, hv_blk[i]); hv_live[i] = 0; --hv_n_live; } }
    for (i = 0; i < hv_bcount; ++i) {
        VF_CHECK(not_empty, !embc_pool_is_empty(hv_pool));
        hv_take(i, embc_pool_alloc_unsafe(hv_pool));
    }
    VF_CHECK(no_more, embc_pool_is_empty(hv_pool) && embc_pool_alloc_unsafe(hv_pool) == 0);
    hv_verify_all();
    embc_pool_finalize(hv_pool);
    free(hv_base);
    VF_REACH(end);
    return 0;
}
#endif
#else
#ifdef H_NEST
/* constructors and destructors that use the same pool */
static struct embc_object_pool_s *hv_pool; static int hv_mode, hv_n_ctor, hv_n_dtor; static uint8_t *hv_child, *hv_parent, *hv_new, *hv_made[8]; static int hv_n_made;
static void hv_ctor(void *p) {
    int d = hv_n_ctor++;
    memset(p, 0x50 + d, 8);
    if (hv_mode == 1 && d == 0) { hv_child = embc_object_pool_alloc(hv_pool); VF_CHECK(nested_distinct, hv_child != p); }
}
static void hv_dtor(void *p) {
    int d = hv_n_dtor++, k;
    if (d == 0) {
        VF_CHECK(destroys_parent, p == hv_parent);
        if (hv_mode == 2) { hv_new = embc_object_pool_alloc(hv_pool); VF_CHECK(not_reused_while_destroyed, hv_new != p && hv_new != hv_child); }
        if (hv_mode == 3) { VF_CHECK(nested_release, embc_object_pool_decr(hv_child)); hv_child = 0; }
        for (k = 0; k < 8; ++k) { VF_CHECK(intact_in_destructor, ((uint8_t *) p)[k] == 0x50); }
    } else if (hv_mode == 3 && d == 1) { VF_CHECK(destroys_child, p == hv_child || !hv_child); }
}
int main(void) {
    int i, j, n, live = 0; int32_t hv_total; uint8_t *hv_base;
    VF_PICK(hv_mode, 0, 3);
    hv_total = embc_object_pool_instance_size(3, 8);
    hv_base = malloc(hv_total); hv_pool = (struct embc_object_pool_s *) hv_base;
    embc_object_pool_initialize(hv_pool, 3, 8, hv_ctor, hv_dtor);
    hv_parent = embc_object_pool_alloc(hv_pool);
    if (hv_mode != 1) { hv_child = embc_object_pool_alloc(hv_pool); }
    VF_CHECK(constructed, hv_n_ctor == 2 && hv_child != hv_parent);
    for (j = 0; j < 8; ++j) { VF_CHECK(nested_contents, hv_parent[j] == 0x50 && hv_child[j] == 0x51); }
    VF_CHECK(parent_released, embc_object_pool_decr(hv_parent));
    VF_CHECK(destructors, hv_n_dtor == (hv_mode == 3 ? 2 : 1));
    if (hv_child) { hv_made[live++] = hv_child; }
    if (hv_mode == 2) { hv_made[live++] = hv_new; }
    while (live < 3) {
        hv_made[live] = embc_object_pool_alloc(hv_pool);
        for (j = 0; j < live; ++j) { VF_CHECK(capacity_kept, hv_made[live] != hv_made[j]); }
        ++live;
    }
    for (i = 0; i < 3; ++i) { VF_CHECK(capacity_within, hv_made[i] >= hv_base && hv_made[i] + 8 <= hv_base + hv_total); VF_CHECK(all_released, embc_object_pool_decr(hv_made[i])); }
    VF_REACH(end);
    return 0;
}
#elif defined(H_LARGE)
/* many blocks, and blocks larger than 255 and 65535 bytes */
#define NBIG 260
static uint8_t *hv_big[NBIG];
int main(void) {
    static const int CNT[] = {NBIG, 4, 2}, SZ[] = {8, 300, 70000};
    int k, i, j, n; int32_t hv_total; uint8_t *hv_base; struct embc_object_pool_s *hv_pool;
    VF_PICK(k, 0, 2); n = CNT[k];
    hv_total = embc_object_pool_instance_size(n, SZ[k]);
    VF_CHECK(large_instance_size, hv_total >= n * SZ[k] && hv_total <= n * (SZ[k] + 64) + 128);
    hv_base = malloc(hv_total); hv_pool = (struct embc_object_pool_s *) hv_base;
    embc_object_pool_initialize(hv_pool, n, SZ[k], 0, 0);
    for (i = 0; i < n; ++i) {
        hv_big[i] = embc_object_pool_alloc(hv_pool);
        VF_CHECK(large_within, hv_big[i] >= hv_base && hv_big[i] + SZ[k] <= hv_base + hv_total);
        for (j = 0; j < i; ++j) { VF_CHECK(large_disjoint, hv_big[i] + SZ[k] <= hv_big[j] || hv_big[j] + SZ[k] <= hv_big[i]); }
        hv_big[i][0] = i; hv_big[i][SZ[k] - 1] = i + 1;
    }
    for (i = 0; i < n; ++i) { VF_CHECK(large_contents, hv_big[i][0] == (uint8_t) i && hv_big[i][SZ[k] - 1] == (uint8_t) (i + 1)); }
    VF_CHECK(large_exhausted, 1);
    for (i = 0; i < n; ++i) { VF_CHECK(large_released, embc_object_pool_decr(hv_big[i])); }
    for (i = 0; i < n; ++i) {
        hv_big[i] = embc_object_pool_alloc(hv_pool);
        for (j = 0; j < i; ++j) { VF_CHECK(large_disjoint_again, hv_big[i] != hv_big[j]); }
        VF_CHECK(large_zeroed, hv_big[i][0] == 0 && hv_big[i][SZ[k] - 1] == 0 && hv_big[i][SZ[k] / 2] == 0);
    }
    for (i = 1; i < NREF; ++i) { embc_object_pool_incr(hv_big[0]); }
    for (i = 1; i < NREF; ++i) { VF_CHECK(many_references, !embc_object_pool_decr(hv_big[0])); }
    VF_CHECK(last_reference, embc_object_pool_decr(hv_big[0]));
    VF_REACH(end);
    return 0;
}
#else
static struct embc_object_pool_s *hv_pool;
static int hv_n_ctor, hv_n_dtor; static void *hv_last_ctor, *hv_last_dtor; static int hv_with_cd;
static void hv_ctor(void *p) { ++hv_n_ctor; hv_last_ctor = p; }
static void hv_dtor(void *p) { int k; ++hv_n_dtor; hv_last_dtor = p; for (k = 0; k < NB; ++k) if (hv_live[k] && hv_blk[k] == p) hv_verify(k); }
static void hv_do_alloc(void) {
    int i = hv_slot_free(), c0 = hv_n_ctor, k;
    uint8_t *p;
    hv_fatal_ok = hv_n_live == hv_bcount;
    p = embc_object_pool_alloc(hv_pool);
    VF_CHECK(exhausted_is_fatal, !hv_fatal_ok);
    if (hv_with_cd) {
        VF_CHECK(constructed_once, hv_n_ctor == c0 + 1 && hv_last_ctor == p);
    } else {
        VF_CHECK(no_constructor, hv_n_ctor == c0);
        for (k = 0; k < hv_bsize; ++k) { VF_CHECK(zeroed, p[k] == 0); }
    }
    hv_take(i, p);
}
static void hv_do_decr(int i) {
    int d0 = hv_n_dtor; bool r;
    r = embc_object_pool_decr(hv_blk[i]);
    --hv_refs[i];
    VF_CHECK(decr_result, r == (hv_refs[i] == 0));
    if (hv_refs[i]) {
        VF_CHECK(not_destroyed_while_referenced, hv_n_dtor == d0);
        VF_REACH(still_referenced);
    } else {
        VF_CHECK(destroyed_once, hv_n_dtor == d0 + hv_with_cd);
        if (hv_with_cd) { VF_CHECK(destroyed_object, hv_last_dtor == hv_blk[i]); }
        hv_live[i] = 0; --hv_n_live;
        VF_REACH(released);
    }
}
int main(void) {
    int k, s, i;
    VF_PICK(k, 0, SZMAX); hv_bsize = hv_SIZES[k];
    VF_PICK(hv_bcount, 1, NB);
    VF_PICK(hv_with_cd, 0, 1);
    hv_total = embc_object_pool_instance_size(hv_bcount, hv_bsize);
    VF_CHECK(instance_size, hv_total >= hv_bcount * hv_bsize);
    hv_base = malloc(hv_total);
    hv_pool = (struct embc_object_pool_s *) hv_base;
    VF_CHECK(initialize, embc_object_pool_initialize(hv_pool, hv_bcount, hv_bsize, hv_with_cd ? hv_ctor : 0, hv_with_cd ? hv_dtor : 0) == 0);
    for (s = 0; s < STEPS; ++s) {
        VF_PICK(k, 0, 2 * NB);
        if (k == 2 * NB) { hv_do_alloc(); }
        else if (hv_live[k >> 1]) {
            if (k & 1) { embc_object_pool_incr(hv_blk[k >> 1]); ++hv_refs[k >> 1]; }
            else { hv_do_decr(k >> 1); }
        }
        hv_fatal_ok = 0;
    }
    hv_verify_all();
    for (i = 0; i < NB; ++i) { while (hv_live[i]) { hv_do_decr(i); } }
    for (i = 0; i < hv_bcount; ++i) { hv_do_alloc(); }
    hv_verify_all();
    embc_object_pool_finalize(hv_pool);
    free(hv_base);
    VF_REACH(end);
    return 0;
}
#endif
#endif
