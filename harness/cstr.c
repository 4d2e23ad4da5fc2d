/* String utilities against independently written specifications. */
#include "vf.h"
#include "libc_model.h"
#ifdef H_F32
#include <stdlib.h>
#include "embc/config.h"
#undef EMBC_CSTR_FLOAT_ENABLE
#define EMBC_CSTR_FLOAT_ENABLE 1
static char *hv_stop_at; static const char *hv_began; static int hv_calls; static float hv_result;
/* strtof accepts a prefix: white space, then any non-empty run of characters that are not white space, or nothing. */
static float hv_strtof(const char *s, char **end) {
    const char *b = s; int k;
    ++hv_calls;
    while (*s == ' ' || *s == '\t' || *s == '\n' || *s == '\v' || *s == '\f' || *s == '\r') { ++s; }
    hv_began = s;
    while (*s && *s != ' ' && *s != '\t' && *s != '\n' && *s != '\v' && *s != '\f' && *s != '\r' && Frama_C_interval(0, 1)) { ++s; }
    hv_stop_at = (char *) s;
    if (end) { *end = (char *) (s == hv_began ? b : s); }
    return s == hv_began ? 0.0f : hv_result;
}
#define strtof hv_strtof
#define strtod hv_strtof
#endif
#include "src/cstr.c"
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop();
}
#ifndef HALF
#define HALF 0
#endif
static char hv_s[40], hv_t[40];
static int hv_isd(char c) { return c >= '0' && c <= '9'; }
static int hv_isw(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static void hv_text(char *d, int max, const char *al, int nal) {
    int i, n, k;
    VF_PICK(n, 0, max);
    for (i = 0; i < n; ++i) { VF_PICK(k, 0, nal - 1); d[i] = al[k]; }
    d[n] = 0;
}
#if defined(H_COPY)
int main(void) {
    static char m[12], src[8];
    int i, n, z, rc, k;
    VF_PICK(n, 0, 6); VF_PICK(z, -1, 9);
    for (i = 0; i < n; ++i) { src[i] = VF_INT(1, 127); }
    src[n] = 0;
    for (i = 0; i < 12; ++i) { m[i] = 'M'; }
    rc = embc_cstr_copy(m + 1, src, z);
    if (z <= 0) { VF_CHECK(refused, rc == -1); for (i = 0; i < 12; ++i) { VF_CHECK(untouched, m[i] == 'M'); } }
    else {
        int len = n < z ? n : z - 1;
        VF_CHECK(truncation_reported, rc == (n > z - 1));
        VF_CHECK(terminated, m[1 + len] == 0);
        for (i = 0; i < len; ++i) { VF_CHECK(copied_nonzero, m[1 + i] != 0); }
        VF_CHECK(before_untouched, m[0] == 'M');
        for (i = z; i < 11; ++i) { VF_CHECK(after_untouched, m[1 + i] == 'M'); }
        for (i = 0; i < n; ++i) { src[i] = 'a' + i; }
        embc_cstr_copy(m + 1, src, z);
        for (i = 0; i < len; ++i) { VF_CHECK(copied, m[1 + i] == 'a' + i); }
        VF_CHECK(null_source, embc_cstr_copy(m + 1, 0, z) == 0 && m[1] == 0);
    }
    VF_CHECK(null_target, embc_cstr_copy(0, src, z) == -1);
    {   static char arr[5]; VF_CHECK(array_copy, embc_cstr_array_copy(arr, src) == (n > 4)); VF_CHECK(array_end, arr[n > 4 ? 4 : n] == 0); }
    VF_REACH(end);
    return 0;
}
#elif defined(H_LONGTEXT)
/* texts and tables around 255 */
#define LT 600
static char hv_a[LT + 2], hv_b[LT + 2], hv_m[LT + 3];
static const char *hv_table[302];
int main(void) {
    static const int N[] = {254, 255, 256, 257};
    int i, k, n, z, w, rc; uint32_t u; int32_t s;
    VF_PICK(k, 0, 3); n = N[k]; VF_PICK(w, 0, 4);
    for (i = 0; i < n; ++i) { hv_a[i] = 'a' + i % 26; hv_b[i] = 'A' + i % 26; }
    if (w == 0) {
        VF_PICK(z, 0, 2); z = n + z;      /* one too small, exact, one to spare */
        hv_m[0] = hv_m[z + 1] = 'M';
        rc = embc_cstr_copy(hv_m + 1, hv_a, z);
        VF_CHECK(long_copy, rc == (z < n + 1));
        z = z < n + 1 ? z - 1 : n;
        VF_CHECK(long_copied, hv_m[1] == 'a' && hv_m[z] == hv_a[z - 1] && hv_m[z + 1] == 0 && hv_m[100] == hv_a[99] && hv_m[0] == 'M');
        for (i = 200; i < 300 && i < z; ++i) { VF_CHECK(long_copied, hv_m[1 + i] == hv_a[i]); }
    } else if (w == 1) {
        VF_CHECK(long_equal, embc_cstr_casecmp(hv_a, hv_b) == 0);
        VF_CHECK(long_toupper, embc_cstr_toupper(hv_a) == 0);
        VF_CHECK(long_uppered, hv_a[0] == 'A' && hv_a[n - 1] == hv_b[n - 1] && hv_a[253] == hv_b[253]);
        hv_b[n] = 'Z';
        VF_CHECK(long_shorter, embc_cstr_casecmp(hv_a, hv_b) < 0 && embc_cstr_casecmp(hv_b, hv_a) > 0);
        hv_a[n] = 'y';
        VF_CHECK(long_less, embc_cstr_casecmp(hv_a, hv_b) < 0 && embc_cstr_casecmp(hv_b, hv_a) > 0);
    } else if (w == 2) {
        for (i = 0; i < n; ++i) { hv_b[i] = hv_a[i]; }
        VF_CHECK(long_prefix, embc_cstr_starts_with(hv_a, hv_b) == hv_a + n);
        hv_a[n] = 'x';
        VF_CHECK(long_prefix, embc_cstr_starts_with(hv_a, hv_b) == hv_a + n);
        hv_b[n] = 'y';
        VF_CHECK(long_no_prefix, embc_cstr_starts_with(hv_a, hv_b) == 0);
    } else if (w == 3) {                  /* white space and zeros around a number */
        for (i = 0; i < n; ++i) { hv_a[i] = ' '; }
        hv_a[n] = '7';
        for (i = n + 1; i < n + 300; ++i) { hv_a[i] = '\t'; }
        VF_CHECK(long_space, embc_cstr_to_u32(hv_a, &u) == 0 && u == 7 && embc_cstr_to_i32(hv_a, &s) == 0 && s == 7);
        hv_a[n + 299] = 'x';
        VF_CHECK(long_trailer, embc_cstr_to_u32(hv_a, &u) != 0 && embc_cstr_to_i32(hv_a, &s) != 0);
        for (i = 0; i < n; ++i) { hv_a[i] = '0'; }
        hv_a[n] = '9'; hv_a[n + 1] = 0;
        VF_CHECK(long_zeros, embc_cstr_to_u32(hv_a, &u) == 0 && u == 9 && embc_cstr_to_i32(hv_a, &s) == 0 && s == 9);
    } else {
        z = n < 300 ? n : 300;
        for (i = 0; i <= z; ++i) { hv_table[i] = "ab"; }
        hv_table[z] = "abc"; hv_table[z + 1] = 0;
        VF_CHECK(long_table, embc_cstr_to_index("abc", hv_table, &rc) == 0 && rc == z);
        VF_CHECK(long_table_absent, embc_cstr_to_index("a", hv_table, &rc) == 1);
    }
    VF_REACH(end);
    return 0;
}
#elif defined(H_F32)
int main(void) {
    static const char AL[] = { ' ', '\t', '\v', '1', '.', 'x' };
    float v = 7.5f; int i, rc, ok;
    hv_text(hv_s, NTXT, AL, 6);
    hv_result = 2.25f;
    rc = embc_cstr_to_f32(hv_s, &v);
    if (hv_calls) {
        ok = hv_stop_at != hv_began;
        for (i = 0; hv_stop_at[i]; ++i) { if (!hv_isw(hv_stop_at[i])) { ok = 0; } }
    } else {
        ok = 0;                                          /* refused without looking: only an empty text */
        for (i = 0; hv_s[i]; ++i) { VF_CHECK(only_space_refused_early, hv_isw(hv_s[i])); }
    }
    VF_CHECK(result, (rc == 0) == ok);
    VF_CHECK(value, v == (ok ? 2.25f : 7.5f));
    if (ok) { VF_REACH(accepted); } else { VF_REACH(rejected); }
    VF_CHECK(null_text, embc_cstr_to_f32(0, &v) != 0);
    VF_CHECK(null_value, embc_cstr_to_f32("1", 0) != 0);
    return 0;
}
#elif defined(H_CASE)
static int hv_up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int main(void) {
    static const char AL[] = { 'a', 'A', 'z', 'Z', '[', '_', '1' };
    int i, k, r, q; const char *p;
    hv_text(hv_s, 2, AL, 7); hv_text(hv_t, 2, AL, 7);
    for (i = 0; hv_s[i] && hv_t[i] && hv_up(hv_s[i]) == hv_up(hv_t[i]); ++i) {}
    r = hv_up(hv_s[i]) < hv_up(hv_t[i]) ? -1 : hv_up(hv_s[i]) > hv_up(hv_t[i]);
    VF_CHECK(casecmp, embc_cstr_casecmp(hv_s, hv_t) == r);
    for (i = 0; hv_t[i] && hv_t[i] == hv_s[i]; ++i) {}
    p = embc_cstr_starts_with(hv_s, hv_t);
    VF_CHECK(starts_with, hv_t[i] ? p == 0 : p == hv_s + i);
    VF_CHECK(null_order, embc_cstr_casecmp(0, hv_t) == -1 && embc_cstr_casecmp(hv_s, 0) == 1);
    VF_REACH(end);
    return 0;
}
#elif defined(H_CHARS)
int main(void) {
    int k; uint8_t v; char c;
    VF_PICK(k, 0, 255);
    c = (char) k;
    v = embc_cstr_hex_to_u4(c);
    VF_CHECK(hex_to_u4, v == (hv_isd(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0));
    c = embc_cstr_u4_to_hex((uint8_t) k);
    VF_CHECK(u4_to_hex, c == (k < 16 ? "0123456789ABCDEF"[k] : '0'));
    hv_s[0] = 'x'; hv_s[1] = (char) k; hv_s[2] = 'Q'; hv_s[3] = 0;
    VF_CHECK(toupper_ok, embc_cstr_toupper(hv_s) == 0);
    c = (char) k;
    VF_CHECK(toupper_char, hv_s[1] == (c >= 'a' && c <= 'z' ? c - 32 : c));
    VF_CHECK(toupper_rest, k == 0 ? hv_s[0] == 'X' && hv_s[2] == 'Q' : hv_s[0] == 'X' && hv_s[2] == 'Q' && hv_s[3] == 0);
    VF_CHECK(toupper_null, embc_cstr_toupper(0) != 0);
    VF_REACH(end);
    return 0;
}
#elif defined(H_U32) || defined(H_I32)
/* grammar: ws* [sign] ( digits | 0x hexdigits ) ws*  ; 2: unspecified hv_text */
static int hv_parse(const char *p, int sign, int64_t *out) {
    int64_t v = 0; int neg = 0, n = 0;
    while (hv_isw(*p)) { ++p; }
    if (sign && (*p == '-' || *p == '+')) { neg = *p == '-'; ++p; if (hv_isw(*p)) { return 2; } }
    if (p[0] == '0' && p[1] == 'x') {
        p += 2;
        for (;; ++p, ++n) {
            int d = hv_isd(*p) ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10 : -1;
            if (d < 0) { break; }
            if (v <= 0xffffffffLL) { v = v * 16 + d; }
        }
        if (!n) { return 2; }
    } else {
        for (; hv_isd(*p); ++p, ++n) { if (v <= 0xffffffffLL) { v = v * 10 + (*p - '0'); } }
        if (!n) { return 1; }
    }
    while (hv_isw(*p)) { ++p; }
    if (*p) { return 1; }
    if (neg) { v = -v; }
    if (sign ? v > 2147483647LL || v < -2147483648LL : v > 4294967295LL) { return 1; }
    *out = v;
    return 0;
}
static void hv_check(int sign) {
    int64_t want = 0; int e = hv_parse(hv_s, sign, &want), rc;
    uint32_t u = 7; int32_t v = 7;
    rc = sign ? embc_cstr_to_i32(hv_s, &v) : embc_cstr_to_u32(hv_s, &u);
    if (e == 0) { VF_CHECK(accepted, rc == 0); VF_CHECK(value, sign ? (int64_t) v == want : (int64_t) u == want); VF_REACH(number); }
    else if (e == 1) { VF_CHECK(rejected, rc != 0); VF_REACH(error); }
    if (rc) { VF_CHECK(unmodified_on_error, u == 7 && v == 7); }
}
#ifdef H_I32
#define SIGN 1
#else
#define SIGN 0
#endif
int main(void) {
    static const char AL[] = { '0', '9', ' ', 'x', 'F', '-', 'g', '\t', '+', 'b' };
    static const char * const BASE[] = { "429496729", "214748364", "0xffffffff", "0x0fffffff", "0x7FFFFFFF", "0x80000000", "-214748364", "000429496729", "+214748364", "  -2147483648", "42949672950", "99999999999999999999" };
    static const char TAIL[] = { '0', '4', '5', '6', '7', '8', '9', ' ' , 'a'};
    /* numbers with any one character replaced by any character */
    static const char * const TPL[] = { "12", "0x1F", "0xA0b2", " 7 ", "-5", "+31 " };
    int k, i, n;
    k = MODE;
    if (k == 1) { hv_text(hv_s, NTXT, AL, 10); }
    else if (k == 2) {
        VF_PICK(k, 0, 2); k = 3 * HALF + k;
        for (n = 0; TPL[k][n]; ++n) { hv_s[n] = TPL[k][n]; }
        hv_s[n] = 0;
        VF_PICK(i, 0, n - 1);
        VF_PICK(k, 1, 255); hv_s[i] = (char) k;
    } else {
        VF_PICK(k, 0, 11);
        for (n = 0; BASE[k][n]; ++n) { hv_s[n] = BASE[k][n]; }
        VF_PICK(k, 0, 8); hv_s[n++] = TAIL[k];
        VF_PICK(k, 0, 2); if (k) { hv_s[n++] = k == 1 ? '0' : ' '; }
        hv_s[n] = 0;
    }
    hv_check(SIGN);
    {   uint32_t u; int32_t v;
        VF_CHECK(null_args, embc_cstr_to_u32(0, &u) && embc_cstr_to_u32(hv_s, 0) && embc_cstr_to_i32(0, &v) && embc_cstr_to_i32(hv_s, 0)); }
    return 0;
}
#elif defined(H_I32S)
/* ws* [sign] digits [. digits] ws* with at least one digit before the point */
static int hv_parse(const char *p, int ex, int64_t *out) {
    int64_t v = 0; int neg = 0, n = 0, f = 0, ov = 0;
    while (hv_isw(*p)) { ++p; }
    if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    if (!hv_isd(*p)) { return 2; }
    for (; hv_isd(*p); ++p) { v = v * 10 + (*p - '0'); if (v > 4000000000LL) { v = 4000000000LL; } }
    if (*p == '.') { for (++p; hv_isd(*p); ++p) { if (f < ex) { v = v * 10 + (*p - '0'); ++f; if (v > 4000000000LL) { v = 4000000000LL; } } } }
    while (hv_isw(*p)) { ++p; }
    if (*p) { return *p == ',' || *p == '.' ? 2 : 1; }
    for (; f < ex; ++f) { v = v * 10; if (v > 4000000000LL) { v = 4000000000LL; } }
    if (neg) { v = -v; }
    if (v > 2147483647LL || v < -2147483648LL) { return 1; }
    *out = v;
    return 0;
}
int main(void) {
    static const char AL[] = { '0', '7', ' ', '.', '-', 'q', '+' };
    static const char * const BASE[] = { "214748364", "-214748364", "21474836.4", "2.14748364", "-2.14748364", "0.000000000", "  21474836475", "1.99", "-0.0", "9999999999999999999999" };
    static const char TAIL[] = { '7', '8', '9', '.', ' ', '0' };
    static const char * const TPL[] = { "12", "1.25", "-3.7 ", " +0.5" };
    int k, i, ex, n, e, rc; int32_t v = 7; int64_t want = 0;
    k = MODE;
    if (k == 1) { hv_text(hv_s, NTXT, AL, 7); VF_PICK(ex, 0, 3); }
    else if (k == 2) {
        VF_PICK(k, 0, 1); k = 2 * HALF + k; VF_PICK(ex, 0, 1); ex *= 2;
        for (n = 0; TPL[k][n]; ++n) { hv_s[n] = TPL[k][n]; }
        hv_s[n] = 0;
        VF_PICK(i, 0, n - 1);
        VF_PICK(k, 1, 255); hv_s[i] = (char) k;
    } else {
        VF_PICK(k, 0, 9);
        for (n = 0; BASE[k][n]; ++n) { hv_s[n] = BASE[k][n]; }
        VF_PICK(k, 0, 5); hv_s[n++] = TAIL[k];
        VF_PICK(k, 0, 2); if (k) { hv_s[n++] = k == 1 ? '5' : ' '; }
        hv_s[n] = 0;
        VF_PICK(ex, 0, 11);
    }
    e = hv_parse(hv_s, ex, &want);
    rc = embc_cstr_to_i32s(hv_s, ex, &v);
    if (e == 0) { VF_CHECK(accepted, rc == 0); VF_CHECK(value, (int64_t) v == want); VF_REACH(number); }
    else if (e == 1) { VF_CHECK(rejected, rc != 0); VF_REACH(error); }
    if (rc) { VF_CHECK(unmodified_on_error, v == 7); }
    VF_CHECK(negative_exponent, embc_cstr_to_i32s(hv_s, -1, &v) != 0 && embc_cstr_to_i32s(0, ex, &v) != 0);
    return 0;
}
#elif defined(H_BOOL)
int main(void) {
    static const char * const W[] = { "on", "1", "enable", "true", "off", "0", "disable", "false" };
    static const char * const BAD[] = { "", "o", "onn", "10", "enabled", "tru", "truefalsetruefalse", " on", "on ", "of", "disablez", "00", "2", "no", "enableenableenable" };
    static const char * const TAB[] = { "abc", "ab", "", "abcd", 0 };
    int k, i, m, idx; bool v;
    VF_PICK(k, 0, 7);
    for (i = 0; W[k][i]; ++i) {
        VF_PICK(m, 0, 1);
        hv_s[i] = m && W[k][i] >= 'a' ? W[k][i] - 32 : W[k][i];
    }
    hv_s[i] = 0;
    v = k >= 4;
    VF_CHECK(bool_word, embc_cstr_to_bool(hv_s, &v) == 0 && v == (k < 4));
    VF_PICK(k, 0, 14);
    VF_PICK(m, 0, 1); v = m;
    VF_CHECK(not_a_bool, embc_cstr_to_bool(BAD[k], &v) != 0 && v == m);
    VF_CHECK(bool_null, embc_cstr_to_bool(0, &v) != 0 && embc_cstr_to_bool(hv_s, 0) != 0);
    for (i = 0; i < 4; ++i) { idx = -5; VF_CHECK(index_found, embc_cstr_to_index(TAB[i], TAB, &idx) == 0 && idx == i); }
    idx = -5;
    VF_CHECK(index_missing, embc_cstr_to_index("a", TAB, &idx) == 1 && idx == -5);
    VF_CHECK(index_missing, embc_cstr_to_index("abcde", TAB, &idx) == 1 && idx == -5);
    VF_CHECK(index_case, embc_cstr_to_index("ABC", TAB, &idx) == 1 && idx == -5);
    VF_REACH(end);
    return 0;
}
#endif
