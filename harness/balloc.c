/* Buffer allocator. */
#include "vf.h"
#include <stdlib.h>
#include "libc_model.h"
#include "src/memory/buffer.c"
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
static uint8_t *hv_mem; static embc_size_t hv_total;
void * embc_alloc(embc_size_t size) { hv_mem = malloc((size_t) size); hv_total = size; return hv_mem; }
void embc_free(void * ptr) { free(ptr); }
static struct embc_buffer_allocator_s *hv_a;

#ifdef H_SIZES
int main(void) {
    static const embc_size_t hv_sizes[8] = {1, 1, 1, 1, 1, 1, 1, 1};
    int n; embc_size_t want;
    struct embc_buffer_s *b;
    hv_a = embc_buffer_allocator_new(hv_sizes, 8);
    VF_CHECK(instance_size, hv_total == embc_buffer_allocator_instance_size(hv_sizes, 8));
    VF_PICK(n, LO, HI);
    hv_fatal_ok = n <= 0 || n > 4096;
    b = (n & 1) ? embc_buffer_alloc(hv_a, n) : embc_buffer_alloc_unsafe(hv_a, n);
    VF_CHECK(size_out_of_range_is_fatal, !hv_fatal_ok);
    for (want = 32; want < n; want *= 2) {}
    VF_CHECK(available, b != 0);
    VF_CHECK(capacity_at_least_size, b->capacity >= n);
    VF_CHECK(smallest_sufficient_pool, b->capacity == want);
    VF_CHECK(storage_inside, b->data >= hv_mem && b->data + b->capacity <= hv_mem + hv_total);
    embc_memset(b->data, 0xff, b->capacity);      /* must not damage any hv_pool */
    embc_buffer_free(b);
    for (want = 32; want <= 4096; want *= 2) {
        b = embc_buffer_alloc_unsafe(hv_a, want);
        VF_CHECK(all_available, b != 0 && b->capacity == want);
        VF_CHECK(one_each, embc_buffer_alloc_unsafe(hv_a, want) == 0);
    }
    VF_REACH(end);
    return 0;
}
#elif defined(H_LARGE)
/* the largest classes, and hv_a class of many buffers */
#define NB 300
int main(void) {
    static embc_size_t hv_sizes[11] = {NB, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1};
    static struct embc_buffer_s *q[NB]; struct embc_buffer_s *b, *c, *d; int i, r;
    hv_a = embc_buffer_allocator_new(hv_sizes, 11);
    for (r = 0; r < 2; ++r) {
        for (i = 0; i < NB; ++i) {
            q[i] = embc_buffer_alloc_unsafe(hv_a, 1 + i % 32);
            VF_CHECK(many_available, q[i] != 0 && q[i]->capacity == 32);
            VF_CHECK(many_fresh, q[i]->length == 0 && q[i]->cursor == 0 && q[i]->reserve == 0);
            VF_CHECK(many_inside, (uint8_t *) q[i] >= hv_mem && q[i]->data >= hv_mem && q[i]->data + 32 <= hv_mem + hv_total);
            q[i]->length = 1; q[i]->data[0] = i; q[i]->data[31] = i + 1; q[i]->buffer_id = i;
        }
        VF_CHECK(many_exhausted, embc_buffer_alloc_unsafe(hv_a, 32) == 0);
        for (i = 0; i < NB; ++i) { VF_CHECK(many_disjoint, q[i]->data[0] == (uint8_t) i && q[i]->data[31] == (uint8_t) (i + 1) && q[i]->buffer_id == (uint16_t) i); }
        for (i = 0; i < NB; ++i) { embc_buffer_free(q[i]); }
    }
    b = embc_buffer_alloc_unsafe(hv_a, 16384); c = embc_buffer_alloc_unsafe(hv_a, 8193); d = embc_buffer_alloc_unsafe(hv_a, 16385);
    VF_CHECK(large_capacity, b && c && d && b->capacity == 16384 && c->capacity == 16384 && d->capacity == 32768);
    VF_CHECK(large_exhausted, embc_buffer_alloc_unsafe(hv_a, 10000) == 0 && embc_buffer_alloc_unsafe(hv_a, 32768) == 0);
    b->data[0] = 1; b->data[16383] = 2; c->data[0] = 3; c->data[16383] = 4; d->data[0] = 5; d->data[32767] = 6;
    VF_CHECK(large_disjoint, b->data[0] == 1 && b->data[16383] == 2 && c->data[0] == 3 && c->data[16383] == 4 && d->data[0] == 5 && d->data[32767] == 6);
    VF_CHECK(large_inside, d->data + 32768 <= hv_mem + hv_total && d->data >= hv_mem);
    embc_buffer_free(d);
    VF_CHECK(large_again, embc_buffer_alloc_unsafe(hv_a, 32768) == d);
    hv_fatal_ok = 1;
    if (VF_BOOL()) { embc_buffer_alloc_unsafe(hv_a, 32769); VF_CHECK(large_limit, 0); }
    VF_REACH(end);
    return 0;
}
#else
#define NP 3
#define NBUF 4
static embc_size_t hv_sizes[NP];
static struct embc_buffer_s *hv_buf[NBUF]; static int hv_pool[NBUF], hv_live[NBUF], hv_nfree[NP];
static const int hv_REQ[5] = {1, 32, 33, 64, 128};
static const int hv_POOL[5] = {0, 0, 1, 1, 2};
static void hv_verify(int i) {
    int k;
    VF_CHECK(header_preserved, hv_buf[i]->capacity == (32 << hv_pool[i]));
    for (k = 0; k < (32 << hv_pool[i]); k += 31) { VF_CHECK(contents_preserved, hv_buf[i]->data[k] == 0x50 + i); }
}
static void hv_take(int i, int q) {
    int j, p = hv_POOL[q];
    struct embc_buffer_s *b;
    if (VF_BOOL()) {
        hv_fatal_ok = p >= NPOOL || hv_nfree[p] == 0;
        b = embc_buffer_alloc(hv_a, hv_REQ[q]);
        VF_CHECK(exhausted_is_fatal, !hv_fatal_ok);
        hv_fatal_ok = 0;
    } else {
        hv_fatal_ok = p >= NPOOL;
        b = embc_buffer_alloc_unsafe(hv_a, hv_REQ[q]);
        VF_CHECK(too_large_is_fatal, !hv_fatal_ok);
        VF_CHECK(null_iff_exhausted, (b == 0) == (hv_nfree[p] == 0));
        if (!b) { VF_REACH(exhausted); return; }
    }
    VF_CHECK(capacity, b->capacity == (32 << p));
    VF_CHECK(fresh_state, b->cursor == 0 && b->length == 0 && b->reserve == 0 && b->flags == 0 && b->buffer_id == 0);
    VF_CHECK(storage_inside, b->data >= hv_mem && b->data + b->capacity <= hv_mem + hv_total);
    VF_CHECK(header_inside, (uint8_t *) b >= hv_mem && (uint8_t *) (b + 1) <= hv_mem + hv_total);
    for (j = 0; j < NBUF; ++j) if (hv_live[j]) {
        VF_CHECK(not_handed_out_twice, hv_buf[j] != b);
        VF_CHECK(storage_disjoint, b->data + b->capacity <= hv_buf[j]->data || hv_buf[j]->data + hv_buf[j]->capacity <= b->data);
    }
    embc_memset(b->data, 0x50 + i, b->capacity);
    b->cursor = VF_INT(0, 7); b->length = VF_INT(0, 7); b->reserve = VF_INT(0, 5); b->flags = VF_INT(0, 255); b->buffer_id = VF_INT(0, 255);   /* whatever its user left */
    hv_buf[i] = b; hv_pool[i] = p; hv_live[i] = 1; --hv_nfree[p];
}
int main(void) {
    int i, k, p;
    for (i = 0; i < NPOOL; ++i) { VF_PICK(k, 0, 2); hv_sizes[i] = k; hv_nfree[i] = k; }
    hv_a = embc_buffer_allocator_new(hv_sizes, NPOOL);
    for (i = 0; i < 3; ++i) { VF_PICK(k, 0, 4); hv_take(i, k); }
    VF_PICK(k, 0, 2);
    if (hv_live[k]) {
        hv_verify(k);
        embc_buffer_free(hv_buf[k]); hv_live[k] = 0; ++hv_nfree[hv_pool[k]];
        VF_PICK(i, 0, 4);
        hv_take(3, i);
    }
    for (i = 0; i < NBUF; ++i) if (hv_live[i]) { hv_verify(i); embc_buffer_free(hv_buf[i]); hv_live[i] = 0; ++hv_nfree[hv_pool[i]]; }
    for (p = 0; p < NPOOL; ++p) {
        VF_CHECK(ghost, hv_nfree[p] == hv_sizes[p]);
        for (i = 0; i < hv_sizes[p]; ++i) { VF_CHECK(capacity_restored, embc_buffer_alloc_unsafe(hv_a, 32 << p) != 0); }
        VF_CHECK(no_extra, embc_buffer_alloc_unsafe(hv_a, 32 << p) == 0);
    }
    embc_buffer_allocator_finalize(hv_a);
    VF_REACH(end);
    return 0;
}
#endif
