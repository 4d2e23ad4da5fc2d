#include "vf.h"
#include "alloc.h"
#include "libc_model.h"
#include "src/collections/strmap.c"
VF_DEFINE_FATAL()
void * embc_alloc(embc_size_t size) { return vf_malloc((size_t) size); }
void embc_free(void * ptr) { VF_CHECK(free_nonnull, ptr != 0); vf_free(ptr); }

/* "Ez"/"FY": equal hash; "E": a prefix; "a"/"\xa1": same bin, other hash */
#define NK 5
static const char * const hv_K[NK] = {"Ez", "FY", "E", "a", "\xa1"};
static int hv_V[8], hv_present[NK], *hv_val[NK], hv_count;
static struct embc_strmap_s *hv_m;
static char hv_scratch[4];
static const char *hv_key(int k) {   /* the caller reuses its hv_key storage */
    hv_scratch[0] = hv_K[k][0]; hv_scratch[1] = hv_K[k][1]; hv_scratch[2] = hv_K[k][1] ? hv_K[k][2] : 0; hv_scratch[3] = 'X';
    return hv_scratch;
}
static void hv_do_put(int k, int *v) {
    void *old = &hv_V[7];
    int rc = embc_strmap_put(hv_m, hv_key(k), v, &old);
    VF_CHECK(put_rc, rc == 0);
    VF_CHECK(put_old_value, old == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
    if (!hv_present[k]) { hv_present[k] = 1; ++hv_count; }
    hv_val[k] = v;
}
static void hv_do_remove(int k) {
    void *old = &hv_V[7];
    int rc = embc_strmap_remove(hv_m, hv_key(k), &old);
    if (hv_present[k]) {
        VF_CHECK(remove_rc, rc == 0);
        VF_CHECK(remove_old_value, old == (void *) hv_val[k]);
        hv_present[k] = 0; --hv_count; VF_REACH(removed);
    } else { VF_CHECK(remove_absent_rc, rc != 0); VF_REACH(remove_absent); }
}
static void hv_check_all(void) {
    int k;
    VF_CHECK(length, embc_strmap_length(hv_m) == hv_count);
    for (k = 0; k < NK; ++k) {
        void *v = &hv_V[7];
        int rc = embc_strmap_get(hv_m, hv_key(k), &v);
        VF_CHECK(get_rc, (rc == 0) == hv_present[k]);
        VF_CHECK(get_value, v == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
    }
}
#ifdef H_LONG
/* long keys with equal hashes and lengths that differ only near their end, or only near their start */
#define LK 70
static char hv_key_a[LK + 1], hv_key_b[LK + 1];
int main(void) {
    int i, at; void *v, *old;
    VF_PICK(at, 0, LK - 2);
    for (i = 0; i < LK; ++i) { hv_key_a[i] = hv_key_b[i] = 'k'; }
    hv_key_a[at] = 'E'; hv_key_a[at + 1] = 'z'; hv_key_b[at] = 'F'; hv_key_b[at + 1] = 'Y';
    hv_m = embc_strmap_new();
    old = &hv_V[6];
    VF_CHECK(long_put, embc_strmap_put(hv_m, hv_key_a, &hv_V[0], &old) == 0 && old == 0);
    VF_CHECK(long_put_other, embc_strmap_put(hv_m, hv_key_b, &hv_V[1], &old) == 0 && old == 0);
    VF_CHECK(long_length, embc_strmap_length(hv_m) == 2);
    VF_CHECK(long_get, embc_strmap_get(hv_m, hv_key_a, &v) == 0 && v == &hv_V[0]);
    VF_CHECK(long_get, embc_strmap_get(hv_m, hv_key_b, &v) == 0 && v == &hv_V[1]);
    hv_key_b[LK - 1] = 'q';
    if (at < LK - 2) { VF_CHECK(long_absent, embc_strmap_get(hv_m, hv_key_b, &v) != 0); hv_key_b[LK - 1] = 'k'; VF_CHECK(long_remove, embc_strmap_remove(hv_m, hv_key_b, &v) == 0 && v == &hv_V[1]); }
    VF_CHECK(long_kept, embc_strmap_get(hv_m, hv_key_a, &v) == 0 && v == &hv_V[0]);
    embc_strmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#elif defined(H_MANY)
#define NM 270
static int hv_tok[NM];
static void hv_name(int i) { hv_scratch[0] = 'a' + i % 26; hv_scratch[1] = 'A' + i / 26; hv_scratch[2] = 0; }
int main(void) {
    int i, k; void *v;
    hv_m = embc_strmap_new();
    for (i = 0; i < NM; ++i) {
        hv_name(i);
        VF_CHECK(many_put, embc_strmap_put(hv_m, hv_scratch, &hv_tok[i], &v) == 0 && v == 0);
        VF_CHECK(many_length, embc_strmap_length(hv_m) == i + 1);
    }
    for (i = 0; i < NM; ++i) { hv_name(i); VF_CHECK(many_get, embc_strmap_get(hv_m, hv_scratch, &v) == 0 && v == &hv_tok[i]); }
    hv_name(NM); VF_CHECK(many_absent, embc_strmap_get(hv_m, hv_scratch, &v) != 0);
    VF_PICK(k, 0, 3); k = k == 0 ? 0 : k == 1 ? 64 : k == 2 ? 255 : NM - 1;
    hv_name(k); VF_CHECK(many_remove, embc_strmap_remove(hv_m, hv_scratch, &v) == 0 && v == &hv_tok[k]);
    for (i = 0; i < NM; ++i) { hv_name(i); VF_CHECK(many_kept, (embc_strmap_get(hv_m, hv_scratch, &v) == 0) == (i != k)); }
    VF_CHECK(many_length, embc_strmap_length(hv_m) == NM - 1);
    embc_strmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#elif defined(H_BINS)
/* the first and the last bin, optional results, and keys of several hundred characters */
static char hv_huge[320];
int main(void) {
    static const char * const B[4] = {"eua", "imd", "", hv_huge};
    int i, x, y; void *v; const char *a, *b;
    for (i = 0; i < 300; ++i) { hv_huge[i] = 'a' + i % 26; }
    VF_PICK(x, 0, 3); VF_PICK(y, 0, 2);
    a = B[x]; b = B[(x + y + 1) % 4];
    hv_m = embc_strmap_new();
    VF_CHECK(bins_put, embc_strmap_put(hv_m, a, &hv_V[0], 0) == 0);
    VF_CHECK(bins_put, embc_strmap_put(hv_m, b, &hv_V[1], 0) == 0);
    VF_CHECK(bins_replace, embc_strmap_put(hv_m, a, &hv_V[2], 0) == 0 && embc_strmap_length(hv_m) == 2);
    VF_CHECK(bins_get, embc_strmap_get(hv_m, a, &v) == 0 && v == &hv_V[2]);
    VF_CHECK(bins_get, embc_strmap_get(hv_m, b, &v) == 0 && v == &hv_V[1]);
    VF_CHECK(bins_get_novalue, embc_strmap_get(hv_m, a, 0) == 0);
    hv_huge[299] = 0;
    VF_CHECK(bins_shorter, (a != hv_huge && b != hv_huge) || embc_strmap_get(hv_m, hv_huge, 0) != 0);
    hv_huge[299] = 'a' + 299 % 26;
    VF_PICK(i, 0, 2);
    if (i == 1) { VF_CHECK(bins_remove, embc_strmap_remove(hv_m, a, 0) == 0 && embc_strmap_get(hv_m, a, 0) != 0 && embc_strmap_get(hv_m, b, &v) == 0 && v == &hv_V[1]); }
    if (i == 2) { VF_CHECK(bins_remove, embc_strmap_remove(hv_m, b, 0) == 0 && embc_strmap_get(hv_m, b, 0) != 0 && embc_strmap_get(hv_m, a, &v) == 0 && v == &hv_V[2]); }
    embc_strmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#else
int main(void) {
    int i, k, n;
    hv_m = embc_strmap_new();
    VF_CHECK(null_map, embc_strmap_length(0) == 0); embc_strmap_free(0);
    VF_CHECK(empty, embc_strmap_length(hv_m) == 0);
    VF_PICK(n, 0, 3);
    for (i = 0; i < n; ++i) { VF_PICK(k, 0, NK - 1); hv_do_put(k, &hv_V[i]); }
    hv_check_all();
    VF_PICK(k, 0, NK - 1);
    hv_do_remove(k);
    hv_check_all();
#ifdef H_DEEP
    VF_PICK(k, 0, NK - 1);
    hv_do_put(k, &hv_V[4]);
    hv_check_all();
#endif
    embc_strmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#endif
