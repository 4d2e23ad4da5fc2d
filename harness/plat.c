/* Platform arithmetic, allocator indirection, time conversions, log levels, error codes. */
#include "vf.h"
#include <stdlib.h>
#include "libc_model.h"
#include "embc.h"
#ifdef H_ALLOC
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
#include "src/platform.c"
static char hv_store[64]; static int hv_n_alloc, hv_n_free, hv_give; static embc_size_t hv_asked; static void *hv_freed;
static void *hv_my_alloc(embc_size_t n) { ++hv_n_alloc; hv_asked = n; return hv_give ? hv_store : 0; }
static void *hv_other_alloc(embc_size_t n) { return n > 0 ? hv_store + 32 : 0; }
static void hv_my_free(void *p) { ++hv_n_free; hv_freed = p; }
int main(void) {
    int k, i; void *p;
    VF_PICK(k, 0, 5);
    if (k == 0) { hv_fatal_ok = 1; embc_alloc(8); VF_CHECK(default_alloc_is_fatal, 0); }
    if (k == 1) { hv_fatal_ok = 1; embc_free(hv_store); VF_CHECK(default_free_is_fatal, 0); }
    embc_allocator_set(hv_my_alloc, hv_my_free);
    hv_give = 1;
    for (i = 0; i < 16; ++i) { hv_store[i] = 'x'; }
    p = embc_alloc(8);
    VF_CHECK(alloc_forwards, p == hv_store && hv_n_alloc == 1 && hv_asked == 8 && hv_store[0] == 'x');
    p = embc_alloc_clr(12);
    VF_CHECK(alloc_clr_forwards, p == hv_store && hv_n_alloc == 2 && hv_asked == 12);
    for (i = 0; i < 12; ++i) { VF_CHECK(cleared, hv_store[i] == 0); }
    for (i = 12; i < 16; ++i) { VF_CHECK(not_beyond, hv_store[i] == 'x'); }
    embc_free(p);
    VF_CHECK(free_forwards, hv_n_free == 1 && hv_freed == hv_store);
    if (k == 2) { hv_give = 0; hv_fatal_ok = 1; embc_alloc(8); VF_CHECK(null_alloc_is_fatal, 0); }
    if (k == 3) { hv_give = 0; hv_fatal_ok = 1; embc_alloc_clr(8); VF_CHECK(null_alloc_clr_is_fatal, 0); }
    if (k == 4) { hv_fatal_ok = 1; embc_free(0); VF_CHECK(free_null_is_fatal, 0); }
    embc_allocator_set(hv_other_alloc, hv_my_free);
    VF_CHECK(replaced, embc_alloc(4) == hv_store + 32 && hv_n_alloc == 2);
    embc_allocator_set(hv_my_alloc, 0);
    VF_CHECK(alloc_kept, embc_alloc(4) == hv_store);
    embc_allocator_set(0, hv_my_free);
    embc_free(hv_store); VF_CHECK(free_kept, hv_n_free == 2);
    hv_fatal_ok = 1; embc_alloc(4); VF_CHECK(reset_alloc_is_fatal, 0);
    return 0;
}
#endif
#ifdef H_CLZ
void embc_fatal(char const * file, int line, char const * msg) { Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop(); }
int main(void) {
    int k; uint32_t x, lo, r;
    VF_PICK(k, 0, 32);
    if (k == 32) { VF_CHECK(clz_zero, embc_clz(0) == 32); VF_CHECK(pow2_one, embc_upper_power_of_two(1) == 1); VF_REACH(zero); return 0; }
    lo = 1U << k;
    x = Frama_C_unsigned_int_interval(lo, lo + (lo - 1));
    VF_CHECK(clz, embc_clz(x) == (uint32_t) (31 - k));
    VF_CHECK(pow2_exact, embc_upper_power_of_two(lo) == lo);
    if (k > 0 && k < 31) {
        x = Frama_C_unsigned_int_interval(lo + 1, lo + (lo - 1));
        VF_CHECK(pow2_next, embc_upper_power_of_two(x) == lo * 2);
    }
    VF_REACH(value);
    return 0;
}
#endif
#ifdef H_MEM
void embc_fatal(char const * file, int line, char const * msg) { Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop(); }
int main(void) {
    static uint8_t d[10], s[10]; int i, n, o;
    VF_PICK(n, 0, 6); VF_PICK(o, 0, 2);
    for (i = 0; i < 10; ++i) { d[i] = 100 + i; s[i] = i; }
    embc_memcpy(d + o, s + 1, n);
    for (i = 0; i < 10; ++i) { VF_CHECK(memcpy_exact, d[i] == (i >= o && i < o + n ? i - o + 1 : 100 + i)); }
    embc_memset(d + o, 7, n);
    for (i = 0; i < 10; ++i) { VF_CHECK(memset_exact, d[i] == (i >= o && i < o + n ? 7 : 100 + i)); }
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_CDEF
#include "embc/cdef.h"
#include "embc/assert.h"
struct box { char c; long v; short m[3]; };
static int hv_rc(int x) { EMBC_RETURN_ON_ERROR(x); return -99; }
static int hv_ex(int x) { int v = 5; EMBC_EXIT_WITH_ERROR(v, x); v = 6; exit: return v; }
static int hv_eo(int x) { int v = 5; EMBC_EXIT_ON_ERROR(x); v = 6; exit: return v; }
int main(void) {
    static struct box b; int32_t arr[7]; int k, m, x, q; int64_t r;
    VF_PICK(k, 0, 12); x = VF_INT(-1000000, 1000000);
    VF_CHECK(array_size, EMBC_ARRAY_SIZE(arr) == 7 && EMBC_ARRAY_SIZE(b.m) == 3);
    VF_CHECK(container_of, EMBC_CONTAINER_OF(&b.v, struct box, v) == &b && EMBC_CONTAINER_OF(&b.m, struct box, m) == &b && EMBC_CONTAINER_OF(&b.c, struct box, c) == &b);
    VF_CHECK(range_low, EMBC_RESTRICT_TO_RANGE(x, -5, 9) >= -5 && EMBC_RESTRICT_TO_RANGE(x, -5, 9) <= 9);
    for (q = -7; q <= 11; ++q) { VF_CHECK(range_exact, EMBC_RESTRICT_TO_RANGE(q, -5, 9) == (q < -5 ? -5 : q > 9 ? 9 : q)); VF_CHECK(signum, EMBC_SIGNUM(q) == (q > 0) - (q < 0)); }
    for (q = -40; q <= 40; ++q) {
        m = 1 + k; r = EMBC_ROUND_UP_TO_MULTIPLE(q, 1 + k);
        VF_CHECK(round_is_multiple, r % m == 0);
        VF_CHECK(round_away, q >= 0 ? r >= q && r - q < m : r <= q && q - r < m);
    }
    VF_CHECK(return_on_error, hv_rc(k - 3) == (k == 3 ? -99 : k - 3));
    VF_CHECK(exit_with_error, hv_ex(k - 3) == (k == 3 ? 6 : k - 3));
    VF_CHECK(exit_on_error, hv_eo(k - 3) == (k == 3 ? 6 : 5));
    b.v = 5; b.c = 1; b.m[2] = 3;
    EMBC_STRUCT_PTR_INIT(&b);
    VF_CHECK(struct_ptr_init, !b.v && !b.c && !b.m[2]);
    b.v = 5; b.c = 1; b.m[2] = 3;
    EMBC_STRUCT_INIT(b);
    VF_CHECK(struct_init, !b.v && !b.c && !b.m[2]);
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_TIME
#include "embc/time.h"
void embc_fatal(char const * file, int line, char const * msg) { Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop(); }
static int64_t hv_fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
#define S1 1073741824LL
int main(void) {
    static const int64_t Z[] = { 1, 3, 1000, 32768, 1000000, 12345678, 1000000000, 1073741824 };
    static const int64_t K[] = { 0, 1, 2, 7, 999, 1000, 65535, 1000000, 2147483647, 4000000000LL };
    int i, j, d; int64_t z, k, x, p, t;
    VF_PICK(i, 0, 7); z = Z[i];
    VF_PICK(j, 0, 9); k = K[j];
    if (VF_BOOL()) { k = -k; }
    if ((k < 0 ? -k : k) < 8589934591LL) {
        t = EMBC_COUNTER_TO_TIME(k, z);           /* truncated quotient: no more than one unit early or late */
        VF_CHECK(counter_to_time, t == (k * S1) / z);
        VF_CHECK(counter_expr, EMBC_COUNTER_TO_TIME(k - 1 + 1, z + 1 - 1) == t);
        VF_CHECK(counter_sign, k >= 0 ? t >= 0 : t <= 0);
        if (z <= 536870912 && (t == 0 || (t < 0 ? -t : t) < 4611686018427387904LL / z)) {
            VF_CHECK(round_trip, EMBC_TIME_TO_COUNTER(t, z) == k);
        }
    }
    /* time to ticks around exact ticks and half ticks */
    for (j = 0; j < 2; ++j) {
        for (d = -2; d <= 2; ++d) {
            x = hv_fdiv(k * S1 + (j ? S1 / 2 : 0), z) + d;
            if (x > 4000000000000000000LL / z || x < -4000000000000000000LL / z) { continue; }
            p = x * z;
            VF_CHECK(nearest, EMBC_TIME_TO_COUNTER(x, z) == hv_fdiv(p + S1 / 2, S1));
            VF_CHECK(up, EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) == -hv_fdiv(-p, S1));
            VF_CHECK(down, EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) == hv_fdiv(p, S1));
            VF_CHECK(expr_frequency, EMBC_TIME_TO_COUNTER(x, z - 1 + 1) == EMBC_TIME_TO_COUNTER(x, z) && EMBC_TIME_TO_COUNTER_ROUND_UP(x + 1 - 1, z - 1 + 1) == EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) && EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z - 1 + 1) == EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z));
            if (z == 1) { VF_CHECK(seconds, EMBC_TIME_TO_SECONDS(x) == hv_fdiv(p + S1 / 2, S1)); }
            if (z == 1000) { VF_CHECK(milliseconds, EMBC_TIME_TO_MILLISECONDS(x) == hv_fdiv(p + S1 / 2, S1)); }
            if (z == 1000000) { VF_CHECK(microseconds, EMBC_TIME_TO_MICROSECONDS(x) == hv_fdiv(p + S1 / 2, S1)); }
            if (z == 1000000000) { VF_CHECK(nanoseconds, EMBC_TIME_TO_NANOSECONDS(x) == hv_fdiv(p + S1 / 2, S1)); }
            VF_CHECK(abs, EMBC_TIME_ABS(x) == (x < 0 ? -x : x));
            if (x < 4503599627370496LL && x > -4503599627370496LL) {
                VF_CHECK(f64_round_trip, EMBC_F64_TO_TIME(EMBC_TIME_TO_F64(x)) == x);
                VF_CHECK(f32_round_trip, EMBC_F32_TO_TIME(EMBC_TIME_TO_F32(x)) == x);
                VF_CHECK(f64_value, EMBC_TIME_TO_F64(x) * 1073741824.0 == (double) x);
            }
        }
    }
    if (k < 8000000000LL && k > -8000000000LL) {
        VF_CHECK(from_seconds, EMBC_SECONDS_TO_TIME(k) == k * S1);
        VF_CHECK(from_milliseconds, EMBC_MILLISECONDS_TO_TIME(k) == k * S1 / 1000);
        VF_CHECK(from_microseconds, EMBC_MICROSECONDS_TO_TIME(k) == k * S1 / 1000000);
        VF_CHECK(from_nanoseconds, EMBC_NANOSECONDS_TO_TIME(k) == k * S1 / 1000000000);
    }
    VF_CHECK(units, EMBC_TIME_Q == 30 && EMBC_TIME_SECOND == S1 && EMBC_TIME_MILLISECOND == S1 / 1000 && EMBC_TIME_MICROSECOND == S1 / 1000000 && EMBC_TIME_NANOSECOND == 1);
    VF_CHECK(long_units, EMBC_TIME_MINUTE == 60 * S1 && EMBC_TIME_HOUR == 3600 * S1 && EMBC_TIME_DAY == 86400 * S1 && EMBC_TIME_WEEK == 604800 * S1 && EMBC_TIME_YEAR == 31536000 * S1 && EMBC_TIME_MONTH == 31536000 * S1 / 12);
    VF_CHECK(limits, EMBC_TIME_MAX == INT64_MAX && EMBC_TIME_MIN == INT64_MIN);
    VF_CHECK(epoch, EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS == 1514764800);
    VF_REACH(end);
    return 0;
}
#endif
