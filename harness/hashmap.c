#include "vf.h"
#include "alloc.h"
#include "libc_model.h"
#include "src/collections/hashmap.c"
VF_DEFINE_FATAL()
void * embc_alloc(embc_size_t size) { return vf_malloc((size_t) size); }
void embc_free(void * ptr) { VF_CHECK(free_nonnull, ptr != 0); vf_free(ptr); }

/* user keys: objects compared by content; two objects per content; contents
 * 0 and 1 have equal hashes, 2 shares their bin, 3 is elsewhere (negative). */
struct key { int id; };
#define NK 4
#ifdef H_HASHES     /* wide hashes that agree in their low 8, 16 or 32 bits */
#define HASHES {40007, 40007 + 65536, 40007 + 4294967296LL, -40001}
#else
#define HASHES {0, 0, 4096, -1}      /* the first and the last bin, whatever their number */
#endif
static struct key hv_KA[NK] = {{0}, {1}, {2}, {3}}, hv_KB[NK] = {{0}, {1}, {2}, {3}};
static const embc_size_t hv_H[NK] = HASHES;
static embc_size_t hv_hash(void *k) { return hv_H[((struct key *) k)->id]; }
static bool hv_equiv(void *a, void *b) { return ((struct key *) a)->id == ((struct key *) b)->id; }
static int hv_V[8], hv_present[NK], *hv_val[NK], hv_count;
static struct embc_hashmap_s *hv_m;

static void hv_do_put(int k, int *v) {
    void *old = &hv_V[7];
    int rc = embc_hashmap_put(hv_m, (v == &hv_V[0] || v == &hv_V[3]) ? &hv_KA[k] : &hv_KB[k], v, &old);
    VF_CHECK(put_rc, rc == 0);
    VF_CHECK(put_old_value, old == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
    if (!hv_present[k]) { hv_present[k] = 1; ++hv_count; }
    hv_val[k] = v;
}
static void hv_check_all(void) {
    int k;
    VF_CHECK(length, embc_hashmap_length(hv_m) == hv_count);
    for (k = 0; k < NK; ++k) {
        void *v = &hv_V[7];
        int rc = embc_hashmap_get(hv_m, &hv_KB[k], &v);
        VF_CHECK(get_rc, (rc == 0) == hv_present[k]);
        VF_CHECK(get_value, v == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
        /* the value is optional */
        VF_CHECK(get_rc_novalue, (embc_hashmap_get(hv_m, &hv_KA[k], 0) == 0) == hv_present[k]);
    }
}
#ifdef H_MANY
#define NM 270
static struct key hv_mk[NM]; static int hv_tok[NM];
static embc_size_t hv_many_hash(void *k) { int i = ((struct key *) k)->id; return i < 200 ? i * 1000003 : 12; }
int main(void) {
    int i; void *v; struct key other = { NM };
    hv_m = embc_hashmap_new(hv_many_hash, hv_equiv);
    for (i = 0; i < NM; ++i) {
        hv_mk[i].id = i;
        VF_CHECK(many_put, embc_hashmap_put(hv_m, &hv_mk[i], &hv_tok[i], &v) == 0 && v == 0);
        VF_CHECK(many_length, embc_hashmap_length(hv_m) == i + 1);
    }
    for (i = 0; i < NM; ++i) { VF_CHECK(many_get, embc_hashmap_get(hv_m, &hv_mk[i], &v) == 0 && v == &hv_tok[i]); }
    VF_CHECK(many_absent, embc_hashmap_get(hv_m, &other, &v) != 0);
    VF_CHECK(many_replace, embc_hashmap_put(hv_m, &hv_mk[255], &hv_tok[0], &v) == 0 && v == &hv_tok[255] && embc_hashmap_length(hv_m) == NM);
    embc_hashmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#else
int main(void) {
    int i, k, n;
    VF_CHECK(null_map, embc_hashmap_length(0) == 0); embc_hashmap_free(0);
    VF_CHECK(new_requires_callbacks, embc_hashmap_new(0, hv_equiv) == 0 && embc_hashmap_new(hv_hash, 0) == 0);
    hv_m = embc_hashmap_new(hv_hash, hv_equiv);
    VF_CHECK(empty, embc_hashmap_length(hv_m) == 0);
#ifdef H_DEEP
    VF_PICK(n, 0, 4);
#else
    VF_PICK(n, 0, 3);
#endif
    for (i = 0; i < n; ++i) { VF_PICK(k, 0, NK - 1); hv_do_put(k, &hv_V[i]); }
    hv_check_all();
    if (n == 1) {                       /* so is the old value */
        VF_CHECK(put_without_old_value, embc_hashmap_put(hv_m, &hv_KA[k], &hv_V[6], 0) == 0 && embc_hashmap_put(hv_m, &hv_KA[(k + 2) % NK], &hv_V[5], 0) == 0);
        hv_val[k] = &hv_V[6]; k = (k + 2) % NK; hv_val[k] = &hv_V[5]; hv_present[k] = 1; hv_count = 2;
        hv_check_all();
    }
    embc_hashmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#endif
