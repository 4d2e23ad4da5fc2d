#include "vf.h"
#include "alloc.h"
#include "libc_model.h"
#define calloc vf_calloc
#define free vf_free
#include "src/collections/intmap.c"
#undef calloc
#undef free
VF_DEFINE_FATAL()
void * embc_alloc(embc_size_t size) { return vf_malloc((size_t) size); }
void embc_free(void * ptr) { VF_CHECK(free_nonnull, ptr != 0); vf_free(ptr); }

/* keys: 0, 8 and 40 share a bin before and (8, 40) after growth */
#define NK 4
#ifdef H_BIGKEYS   /* differ only in the upper half, or in the sign */
static const embc_size_t hv_K[NK] = {5, 5 + 4294967296LL, 5 + 256, 5 - 9223372036854775807LL - 1};
#else
static const embc_size_t hv_K[NK] = {8, 40, -24, 3};
#endif
static int hv_V[8];                 /* value tokens: &hv_V[i] */
static int hv_present[NK];
static int *hv_val[NK];
static int hv_count;
static struct embc_intmap_s *hv_m;

static void hv_do_put(int k, int *v) {
    void *old = &hv_V[7];
    int rc = embc_intmap_put(hv_m, hv_K[k], v, &old);
    VF_CHECK(put_rc, rc == 0);
    VF_CHECK(put_old_value, old == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
    if (!hv_present[k]) { hv_present[k] = 1; ++hv_count; }
    hv_val[k] = v;
}
static void hv_do_remove(int k) {
    void *old = &hv_V[7];
    int rc = embc_intmap_remove(hv_m, hv_K[k], &old);
    if (hv_present[k]) {
        VF_CHECK(remove_rc, rc == 0);
        VF_CHECK(remove_old_value, old == (void *) hv_val[k]);
        hv_present[k] = 0; --hv_count; VF_REACH(removed);
    } else { VF_CHECK(remove_absent_rc, rc != 0); VF_REACH(remove_absent); }
}
static void hv_check_all(void) {
    int k;
    VF_CHECK(length, embc_intmap_length(hv_m) == hv_count);
    for (k = 0; k < NK; ++k) {
        void *v = &hv_V[7];
        int rc = embc_intmap_get(hv_m, hv_K[k], &v);
        VF_CHECK(get_rc, (rc == 0) == hv_present[k]);
        VF_CHECK(get_value, v == (hv_present[k] ? (void *) hv_val[k] : (void *) 0));
    }
}

#ifdef H_MANY
/* several growths: no entry may be lost, and traversal stays complete */
#ifndef NM
#define NM 270
#endif
static int hv_tok[NM + 1], hv_seen[NM];
int main(void) {
    int i, k, n; embc_size_t key; void *v, *old; struct embc_intmap_iterator_s *it;
    hv_m = embc_intmap_new();
    for (i = 0; i < NM; ++i) {
        old = &hv_tok[NM];
        VF_CHECK(many_put, embc_intmap_put(hv_m, 3 * i - 5, &hv_tok[i], &old) == 0 && old == 0);
        VF_CHECK(many_length, embc_intmap_length(hv_m) == i + 1);
    }
    for (i = 0; i < NM; ++i) { VF_CHECK(many_get, embc_intmap_get(hv_m, 3 * i - 5, &v) == 0 && v == &hv_tok[i]); }
    VF_CHECK(many_absent, embc_intmap_get(hv_m, 3 * NM - 5, &v) != 0 && embc_intmap_get(hv_m, -8, &v) != 0 && embc_intmap_get(hv_m, 3 * 256 - 4, &v) != 0);
    VF_PICK(k, 0, 3); k = k == 0 ? 0 : k == 1 ? 14 : k == 2 ? 255 : NM - 1;
    it = embc_intmap_iterator_new(hv_m);
    for (n = 0; n < NM / 2; ++n) {
        VF_CHECK(many_next, embc_intmap_iterator_next(it, &key, &v) == 0);
        i = (int) (((int *) v) - hv_tok);
        VF_CHECK(many_visit, i >= 0 && i < NM && key == 3 * i - 5 && !hv_seen[i]);
        hv_seen[i] = 1;
    }
    VF_CHECK(many_remove, embc_intmap_remove(hv_m, 3 * k - 5, &old) == 0 && old == &hv_tok[k]);
    hv_seen[k] = 1;
    for (; n < NM; ++n) {
        if (embc_intmap_iterator_next(it, &key, &v)) { break; }
        i = (int) (((int *) v) - hv_tok);
        VF_CHECK(many_visit, i >= 0 && i < NM && key == 3 * i - 5 && !hv_seen[i]);
        hv_seen[i] = 1;
    }
    VF_CHECK(many_end, embc_intmap_iterator_next(it, &key, &v) != 0);
    for (i = 0; i < NM; ++i) { VF_CHECK(many_all_visited, hv_seen[i]); }
    embc_intmap_iterator_free(it);
    for (i = 0; i < NM; ++i) { VF_CHECK(many_kept, (embc_intmap_get(hv_m, 3 * i - 5, &v) == 0) == (i != k)); }
    VF_CHECK(many_length, embc_intmap_length(hv_m) == NM - 1);
    embc_intmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#elif defined(H_WRAP)
/* the type-specific wrappers generated by EMBC_INTMAP_DEFINE */
typedef int *vp;
#define calloc vf_calloc
#define free vf_free
EMBC_INTMAP_DECLARE(wm, vp)
EMBC_INTMAP_DEFINE_STRUCT(wm)
EMBC_INTMAP_DEFINE(wm, vp)
#undef calloc
#undef free
int main(void) {
    int i, k, n, seen[NK] = {0, 0, 0, 0};
    struct wm_s *w = wm_new();
    struct wm_iterator_s *it;
    embc_size_t key; vp v, old;
    VF_PICK(n, 0, 3);
    for (i = 0; i < n; ++i) {
        VF_PICK(k, 0, NK - 1);
        old = &hv_V[7];
        VF_CHECK(wrap_put, wm_put(w, hv_K[k], &hv_V[i], &old) == 0);
        VF_CHECK(wrap_put_old, old == (hv_present[k] ? hv_val[k] : (vp) 0));
        if (!hv_present[k]) { hv_present[k] = 1; ++hv_count; }
        hv_val[k] = &hv_V[i];
    }
    VF_PICK(k, 0, NK - 1);
    VF_CHECK(wrap_remove, (wm_remove(w, hv_K[k], &old) == 0) == hv_present[k]);
    if (hv_present[k]) { VF_CHECK(wrap_remove_old, old == hv_val[k]); hv_present[k] = 0; --hv_count; }
    VF_CHECK(wrap_length, wm_length(w) == hv_count);
    for (k = 0; k < NK; ++k) {
        v = &hv_V[7];
        VF_CHECK(wrap_get, (wm_get(w, hv_K[k], &v) == 0) == hv_present[k]);
        if (hv_present[k]) { VF_CHECK(wrap_get_value, v == hv_val[k]); }
    }
    it = wm_iterator_new(w);
    for (i = 0; i < 4; ++i) {
        if (wm_iterator_next(it, &key, &v)) break;
        for (k = 0; k < NK; ++k) if (hv_K[k] == key) { VF_CHECK(wrap_iter, hv_present[k] && !seen[k] && v == hv_val[k]); seen[k] = 1; }
    }
    VF_CHECK(wrap_iter_count, i == hv_count);
    wm_iterator_free(it);
    wm_free(w);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
    return 0;
}
#else
int main(void) {
    int i, k, n;
    hv_m = embc_intmap_new();
    VF_CHECK(null_map, embc_intmap_length(0) == 0); embc_intmap_free(0);
    VF_CHECK(empty, embc_intmap_length(hv_m) == 0);
#if defined(H_HISTORY)
    VF_PICK(n, 0, 3);
    for (i = 0; i < n; ++i) { VF_PICK(k, 0, NK - 1); hv_do_put(k, &hv_V[i]); }
    hv_check_all();
    VF_PICK(k, 0, NK - 1);
    hv_do_remove(k);
    hv_check_all();
    VF_PICK(k, 0, NK);
    if (k < NK) { hv_do_put(k, &hv_V[4]); hv_check_all(); }
    embc_intmap_free(hv_m);
    VF_CHECK(no_leak, vf_live == 0);
    VF_REACH(end);
#elif defined(H_GROW)
    /* enough entries to force growth, several per bin: none may be lost */
    #define NG 17
    int j;
    static int G[NG];
    n = VF_BOOL();
    for (i = 0; i < NG; ++i) {
        embc_size_t key = (n ? 8 * i : i);
        VF_CHECK(grow_put, embc_intmap_put(hv_m, key, &G[i], 0) == 0);
        for (j = 0; j <= i; ++j) {
            void *v = 0;
            VF_CHECK(grow_get_rc, embc_intmap_get(hv_m, n ? 8 * j : j, &v) == 0);
            VF_CHECK(grow_get_value, v == &G[j]);
        }
        VF_CHECK(grow_length, embc_intmap_length(hv_m) == i + 1);
    }
    VF_CHECK(grow_absent, embc_intmap_get(hv_m, 1000, 0) != 0);
    VF_CHECK(put_without_old_value, embc_intmap_put(hv_m, 8, &hv_V[6], 0) == 0 && embc_intmap_length(hv_m) == NG);
    VF_CHECK(put_without_old_value, embc_intmap_get(hv_m, 8, 0) == 0);
    VF_PICK(k, 0, NG - 1);
    VF_CHECK(grow_remove, embc_intmap_remove(hv_m, n ? 8 * k : k, 0) == 0);
    for (j = 0; j < NG; ++j) {
        VF_CHECK(grow_after_remove, (embc_intmap_get(hv_m, n ? 8 * j : j, 0) == 0) == (j != k));
    }
    embc_intmap_free(hv_m);
    VF_CHECK(grow_no_leak, vf_live == 0);
    VF_REACH(end);
#elif defined(H_ITER)
    /* traversal with one removal or insertion at an arbitrary moment */
    struct embc_intmap_iterator_s *it;
    int visited[NK] = {0, 0, 0, 0}, was[NK], steps = 0, at, what, kk;
    int mask;
    VF_PICK(mask, 0, 15);
    for (i = 0; i < NK; ++i) { if ((mask >> i) & 1) { hv_do_put(i, &hv_V[i]); } was[i] = hv_present[i]; }
    it = embc_intmap_iterator_new(hv_m);
    VF_PICK(at, 0, 4);
    VF_PICK(what, 0, 1);
    VF_PICK(kk, 0, NK - 1);
    while (1) {
        embc_size_t key = 999; void *v = 0;
        int rc;
        if (steps == at) {
            if (what) { hv_do_remove(kk); } else { hv_do_put(kk, &hv_V[5]); }
        }
        rc = embc_intmap_iterator_next(it, &key, &v);
        if (rc) { break; }
        ++steps;
        VF_CHECK(iter_ends, steps <= NK + 1);
        for (k = 0; k < NK; ++k) { if (hv_K[k] == key) { break; } }
        VF_CHECK(iter_key_known, k < NK);
        VF_CHECK(iter_present, hv_present[k]);
        VF_CHECK(iter_value, v == (void *) hv_val[k]);
        VF_CHECK(iter_once, !visited[k]);
        visited[k] = 1;
    }
    for (k = 0; k < NK; ++k) { VF_CHECK(iter_complete, !(was[k] && hv_present[k]) || visited[k]); }
    embc_intmap_iterator_free(it);
    hv_check_all();
    embc_intmap_free(hv_m);
    VF_CHECK(iter_no_leak, vf_live == 0);
    VF_REACH(end);
#elif defined(H_ITER2)
    /* two traversals at arbitrary positions, and a removal */
    struct embc_intmap_iterator_s *it[2];
    int seen[2][NK] = {{0}}, mask, x, kk, steps; embc_size_t key; void *v;
    VF_PICK(mask, 1, 15);
    for (i = 0; i < NK; ++i) { if ((mask >> i) & 1) { hv_do_put(i, &hv_V[i]); } }
    it[0] = embc_intmap_iterator_new(hv_m); it[1] = embc_intmap_iterator_new(hv_m);
    for (i = 0; i < 2; ++i) {
        VF_PICK(x, 0, 3);
        for (; x > 0; --x) {
            if (embc_intmap_iterator_next(it[i], &key, &v)) { break; }
            for (k = 0; k < NK; ++k) { if (hv_K[k] == key) { break; } }
            VF_CHECK(iter2_known, k < NK && hv_present[k] && !seen[i][k] && v == (void *) hv_val[k]);
            seen[i][k] = 1;
        }
    }
    VF_PICK(kk, 0, NK - 1);
    hv_do_remove(kk);
    for (i = 0; i < 2; ++i) {
        for (steps = 0; steps <= NK; ++steps) {
            if (embc_intmap_iterator_next(it[i], &key, &v)) { break; }
            for (k = 0; k < NK; ++k) { if (hv_K[k] == key) { break; } }
            VF_CHECK(iter2_known, k < NK && hv_present[k] && !seen[i][k] && v == (void *) hv_val[k]);
            seen[i][k] = 1;
        }
        for (k = 0; k < NK; ++k) { VF_CHECK(iter2_complete, !hv_present[k] || seen[i][k]); }
    }
    embc_intmap_iterator_free(it[0]);
    hv_do_put(3, &hv_V[6]);
    embc_intmap_iterator_free(it[1]);
    hv_check_all();
    embc_intmap_free(hv_m);
    VF_CHECK(iter2_no_leak, vf_live == 0);
    VF_REACH(end);
#elif defined(H_ITERGROW)
    /* insertions that reach the growth threshold while iterators are active */
#define NG 14
    static int G[NG + 3];
    int seen[NG + 3] = {0}, at, steps = 0, j;
    struct embc_intmap_iterator_s *it, *it2;
    embc_size_t key; void *v;
    n = VF_BOOL();
    for (i = 0; i < NG; ++i) { embc_intmap_put(hv_m, n ? 8 * i : 3 * i, &G[i], 0); }
    it = embc_intmap_iterator_new(hv_m);
    it2 = embc_intmap_iterator_new(hv_m);
    VF_PICK(j, 0, 1);
    if (j) { embc_intmap_iterator_free(it2); }
    VF_PICK(at, 0, NG);
    while (1) {
        if (steps == at) { for (i = NG; i < NG + 3; ++i) { embc_intmap_put(hv_m, n ? 8 * i : 3 * i, &G[i], 0); } }
        if (embc_intmap_iterator_next(it, &key, &v)) break;
        ++steps;
        VF_CHECK(itergrow_ends, steps <= NG + 3);
        i = key / (n ? 8 : 3);
        VF_CHECK(itergrow_known, i >= 0 && i < NG + 3 && v == &G[i]);
        VF_CHECK(itergrow_once, !seen[i]);
        seen[i] = 1;
    }
    for (i = 0; i < NG; ++i) { VF_CHECK(itergrow_complete, seen[i]); }
    embc_intmap_iterator_free(it);
    if (!j) { embc_intmap_iterator_free(it2); }
    embc_intmap_put(hv_m, 1001, &hv_V[0], 0);      /* now it may grow */
    for (i = 0; i < (at <= NG ? NG + 3 : NG); ++i) { VF_CHECK(itergrow_get, embc_intmap_get(hv_m, n ? 8 * i : 3 * i, &v) == 0 && v == &G[i]); }
    embc_intmap_free(hv_m);
    VF_CHECK(itergrow_no_leak, vf_live == 0);
    VF_REACH(end);
#endif
    return 0;
}
#endif
