/* Two lists and a set of items in an arbitrary consistent configuration; one
 * arbitrary operation; the complete structure is compared with a ghost
 * sequence model. */
#include "vf.h"
#include "src/collections/list.c"
VF_DEFINE_FATAL()

#define NI 5
#ifndef MAXA
#define MAXA 3
#endif
struct entry { int before; struct embc_list_s item; int after; };
static struct entry hv_E[NI];
static struct embc_list_s hv_L[2];
static int hv_seq[2][NI + 1];
static int hv_len[2];

static void hv_build(int na, int nb) {
    struct embc_list_s *p;
    int k = 0, i, j;
    hv_len[0] = na; hv_len[1] = nb;
    for (j = 0; j < 2; ++j) {
        p = &hv_L[j];
        for (i = 0; i < hv_len[j]; ++i) {
            hv_seq[j][i] = k;
            hv_E[k].item.prev = p;
            p->next = &hv_E[k].item;
            p = &hv_E[k].item;
            ++k;
        }
        p->next = &hv_L[j];
        hv_L[j].prev = p;
    }
    for (; k < NI; ++k) { hv_E[k].item.next = hv_E[k].item.prev = &hv_E[k].item; }
}

static void hv_g_remove(int x) {
    int i, j, k;
    for (j = 0; j < 2; ++j)
        for (i = 0; i < hv_len[j]; ++i)
            if (hv_seq[j][i] == x) {
                for (k = i; k + 1 < hv_len[j]; ++k) hv_seq[j][k] = hv_seq[j][k + 1];
                --hv_len[j];
            }
}
static void hv_g_insert(int j, int at, int x) {
    int k;
    for (k = hv_len[j]; k > at; --k) hv_seq[j][k] = hv_seq[j][k - 1];
    hv_seq[j][at] = x;
    ++hv_len[j];
}
static int hv_g_in(int x) { /* 0: none, 1: list 0, 2: list 1 */
    int i, j;
    for (j = 0; j < 2; ++j) for (i = 0; i < hv_len[j]; ++i) if (hv_seq[j][i] == x) return j + 1;
    return 0;
}
static int hv_g_at(int x) {
    int i, j;
    for (j = 0; j < 2; ++j) for (i = 0; i < hv_len[j]; ++i) if (hv_seq[j][i] == x) return i;
    return -1;
}

#define CHECK_ALL() do { int i_, j_; struct embc_list_s *p_; \
    for (j_ = 0; j_ < 2; ++j_) { \
        p_ = &hv_L[j_]; \
        for (i_ = 0; i_ < hv_len[j_]; ++i_) { \
            VF_CHECK(forward_links, p_->next == &hv_E[hv_seq[j_][i_]].item); \
            VF_CHECK(backward_links, hv_E[hv_seq[j_][i_]].item.prev == p_); \
            p_ = &hv_E[hv_seq[j_][i_]].item; \
        } \
        VF_CHECK(tail_next, p_->next == &hv_L[j_]); \
        VF_CHECK(tail_prev, hv_L[j_].prev == p_); \
        VF_CHECK(length, embc_list_length(&hv_L[j_]) == hv_len[j_]); \
        VF_CHECK(is_empty, embc_list_is_empty(&hv_L[j_]) == (hv_len[j_] == 0)); \
        VF_CHECK(peek_head, embc_list_peek_head(&hv_L[j_]) == (hv_len[j_] ? &hv_E[hv_seq[j_][0]].item : 0)); \
        VF_CHECK(peek_tail, embc_list_peek_tail(&hv_L[j_]) == (hv_len[j_] ? &hv_E[hv_seq[j_][hv_len[j_] - 1]].item : 0)); \
    } } while (0)

#if defined(H_LONG)
/* long lists: counts and positions do not wrap */
static struct embc_list_s hv_X[LONG];
int main(void) {
    int i, n = 0;
    struct embc_list_s * item;
    embc_list_initialize(&hv_L[0]);
    for (i = 0; i < LONG; ++i) { embc_list_initialize(&hv_X[i]); embc_list_add_tail(&hv_L[0], &hv_X[i]); }
    VF_CHECK(long_length, embc_list_length(&hv_L[0]) == LONG);
    for (i = LONG - 300; i < LONG; i += 43) {
        VF_CHECK(long_index, embc_list_index(&hv_L[0], i) == &hv_X[i]);
        VF_CHECK(long_index_of, embc_list_index_of(&hv_L[0], &hv_X[i]) == i);
    }
    VF_CHECK(long_beyond, embc_list_index(&hv_L[0], LONG) == 0 && embc_list_index(&hv_L[0], -1) == 0);
    VF_CHECK(long_contains, embc_list_contains(&hv_L[0], &hv_X[LONG - 1]) && !embc_list_contains(&hv_L[0], &hv_E[0].item));
    embc_list_foreach(&hv_L[0], item) { ++n; }
    VF_CHECK(long_foreach, n == LONG);
    VF_REACH(long_list);
    return 0;
}
#else
int main(void) {
    int na, nb, x, y, j, op;
    VF_PICK(na, 0, MAXA);
    VF_PICK(nb, 0, 1);
    hv_build(na, nb);
    VF_PICK(x, 0, na + nb);   /* an item of list A, of list B, or in no list */
#if defined(H_MUTATE)
    VF_PICK(j, 0, 1);
    VF_PICK(op, 0, 7);
    struct embc_list_s *r;
    switch (op) {
        case 0: embc_list_add_head(&hv_L[j], &hv_E[x].item); hv_g_remove(x); hv_g_insert(j, 0, x); VF_REACH(add_head); break;
        case 1: embc_list_add_tail(&hv_L[j], &hv_E[x].item); hv_g_remove(x); hv_g_insert(j, hv_len[j], x); VF_REACH(add_tail); break;
        case 2:
            r = embc_list_remove_head(&hv_L[j]);
            VF_CHECK(remove_head_result, r == (hv_len[j] ? &hv_E[hv_seq[j][0]].item : 0));
            if (r) { y = hv_seq[j][0]; hv_g_remove(y); VF_CHECK(removed_isolated, hv_E[y].item.next == &hv_E[y].item && hv_E[y].item.prev == &hv_E[y].item); VF_REACH(remove_head); }
            break;
        case 3:
            r = embc_list_remove_tail(&hv_L[j]);
            VF_CHECK(remove_tail_result, r == (hv_len[j] ? &hv_E[hv_seq[j][hv_len[j] - 1]].item : 0));
            if (r) { y = hv_seq[j][hv_len[j] - 1]; hv_g_remove(y); VF_CHECK(removed_isolated2, hv_E[y].item.next == &hv_E[y].item && hv_E[y].item.prev == &hv_E[y].item); VF_REACH(remove_tail); }
            break;
        case 4: embc_list_remove(&hv_E[x].item); hv_g_remove(x);
            VF_CHECK(removed_isolated3, hv_E[x].item.next == &hv_E[x].item && hv_E[x].item.prev == &hv_E[x].item);
            embc_list_remove(&hv_E[x].item); /* idempotent */
            VF_REACH(remove); break;
        case 5: case 6:
            VF_PICK(y, 0, na + nb - 1);
            VF_ASSUME(y < na + nb && x != y);
            if (op == 5) { embc_list_insert_before(&hv_E[y].item, &hv_E[x].item); hv_g_remove(x); hv_g_insert(hv_g_in(y) - 1, hv_g_at(y), x); VF_REACH(insert_before); }
            else if (op == 6) { embc_list_insert_after(&hv_E[y].item, &hv_E[x].item); hv_g_remove(x); hv_g_insert(hv_g_in(y) - 1, hv_g_at(y) + 1, x); VF_REACH(insert_after); }
            break;
        case 7: {
            int k, n = hv_len[1 - j];
            embc_list_append(&hv_L[j], &hv_L[1 - j]);
            for (k = 0; k < n; ++k) { y = hv_seq[1 - j][0]; hv_g_remove(y); hv_g_insert(j, hv_len[j], y); }
            VF_REACH(append); break;
        }
    }
    CHECK_ALL();
#elif defined(H_QUERY)
    int i;
    CHECK_ALL();
    for (j = 0; j < 2; ++j) {
        for (i = 0; i <= hv_len[j]; ++i) {
            struct embc_list_s *r = embc_list_index(&hv_L[j], i);
            VF_CHECK(index, r == (i < hv_len[j] ? &hv_E[hv_seq[j][i]].item : 0));
        }
        VF_CHECK(index_of, embc_list_index_of(&hv_L[j], &hv_E[x].item) == (hv_g_in(x) == j + 1 ? hv_g_at(x) : -1));
        VF_CHECK(contains, embc_list_contains(&hv_L[j], &hv_E[x].item) == (hv_g_in(x) == j + 1));
        VF_CHECK(entry, embc_list_entry(&hv_E[x].item, struct entry, item) == &hv_E[x]);
    }
    if (hv_g_in(x) == 1) { VF_REACH(member); } else { VF_REACH(nonmember); }
    CHECK_ALL();
#elif defined(H_FOREACH)
    struct embc_list_s *item;
    int n = 0, mode, rem;
    VF_PICK(mode, 0, 3);
    if (mode == 0) {
        embc_list_foreach_unsafe(&hv_L[0], item) { VF_CHECK(fwd_order_unsafe, n < hv_len[0] && item == &hv_E[hv_seq[0][n]].item); ++n; }
        VF_CHECK(fwd_count_unsafe, n == na); VF_REACH(foreach_unsafe);
    } else if (mode == 1) {
        embc_list_foreach_reverse_unsafe(&hv_L[0], item) { VF_CHECK(rev_order_unsafe, n < hv_len[0] && item == &hv_E[hv_seq[0][na - 1 - n]].item); ++n; }
        VF_CHECK(rev_count_unsafe, n == na); VF_REACH(foreach_reverse_unsafe);
    } else {
        /* the current item may be removed (nondeterministically) */
        int kept[NI]; int nk = 0, k;
        if (mode == 2) {
            embc_list_foreach(&hv_L[0], item) {
                VF_CHECK(fwd_order, n < na && item == &hv_E[n].item);
                if (VF_BOOL()) { embc_list_remove(item); hv_g_remove(n); }
                ++n;
            }
        } else {
            embc_list_foreach_reverse(&hv_L[0], item) {
                VF_CHECK(rev_order, n < na && item == &hv_E[na - 1 - n].item);
                if (VF_BOOL()) { embc_list_remove(item); hv_g_remove(na - 1 - n); }
                ++n;
            }
        }
        VF_CHECK(safe_count, n == na); VF_REACH(foreach_safe);
    }
    CHECK_ALL();
#endif
    return 0;
}
#endif
