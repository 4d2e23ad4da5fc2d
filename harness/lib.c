/* Host library services: fatal handler, print handler, allocation routing. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include "libc_model.h"
#define volatile
#undef EMBC_LOG_PRINTF
#undef __FILENAME__
#define __FILENAME__ "unit.c"
#include "embc/platform.h"
/* Model of the C formatter: %s, %d, %c, %u, %%. */
static int hv_format(char *buf, size_t size, const char *f, va_list a) {
    size_t n = 0; char num[12]; const char *s; int k, neg; unsigned v;
#define HV_OUT(c) do { if (size && n < size - 1) { buf[n] = (c); } ++n; } while (0)
    for (; *f; ++f) {
        if (*f != '%') { HV_OUT(*f); continue; }
        ++f;
        if (*f == 's') { s = va_arg(a, const char *); while (*s) { HV_OUT(*s); ++s; } }
        else if (*f == 'c') { k = va_arg(a, int); HV_OUT((char) k); }
        else if (*f == '%') { HV_OUT('%'); }
        else if (*f == 'd') {
            k = va_arg(a, int); neg = k < 0; v = neg ? 0U - (unsigned) k : (unsigned) k; k = 0;
            do { num[k++] = (char) ('0' + v % 10U); v /= 10U; } while (v);
            if (neg) { num[k++] = '-'; }
            while (k) { --k; HV_OUT(num[k]); }
        }
        else { Frama_C_show_each_FAIL_unknown_conversion(*f); vf_stop(); }
    }
    if (size) { buf[n < size ? n : size - 1] = 0; }
    return (int) n;
}
static int hv_n_out; static char hv_out[200];
static int hv_long;
static int hv_vsnprintf(char *b, size_t size, const char *f, va_list a) {
    if (hv_long) { if (size) { memset(b, 'a', size - 1); b[size - 1] = 0; } return 1000000; }      /* a text longer than any buffer */
    return hv_format(b, size, f, a);
}
static int hv_vprintf(const char *f, va_list a) { ++hv_n_out; return hv_format(hv_out, sizeof(hv_out), f, a); }
static int hv_printf(const char *f, ...) { va_list a; int r; va_start(a, f); r = hv_vprintf(f, a); va_end(a); return r; }
static int hv_puts(const char *s) { return hv_printf("%s\n", s); }
static int hv_snprintf(char *b, size_t size, const char *f, ...) { va_list a; int r; va_start(a, f); r = hv_format(b, size, f, a); va_end(a); return r; }
static char hv_store[40]; static int hv_n_alloc, hv_n_free, hv_give; static embc_size_t hv_asked; static void *hv_freed;
static void *hv_malloc(embc_size_t n) { ++hv_n_alloc; hv_asked = n; return hv_give ? hv_store : 0; }
static void *hv_calloc(size_t c, size_t n) { void *p = hv_malloc(c * n); if (p) { memset(p, 0, c * n); } return p; }
static void hv_free(void *p) { ++hv_n_free; hv_freed = p; }
#define vsnprintf hv_vsnprintf
#define snprintf hv_snprintf
#define vprintf hv_vprintf
#define printf hv_printf
#define puts hv_puts
#define malloc hv_malloc
#define calloc hv_calloc
#define free hv_free
#define vfprintf(s, f, a) hv_vprintf(f, a)
#include "src/platform.c"
#include "src/log.c"
#include "src/lib.c"
static int hv_u1, hv_u2, hv_n_fatal, hv_n_fatal2, hv_n_print, hv_n_print2, hv_die, hv_line; static const char *hv_file, *hv_msg, *hv_expect;
static int hv_same(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static int hv_contains(const char *h, const char *n) {
    int i, j;
    for (i = 0; h[i]; ++i) { for (j = 0; n[j] && h[i + j] == n[j]; ++j) {} if (!n[j]) { return 1; } }
    return 0;
}
static void hv_on_fatal(void *u, char const *file, int line, char const *msg) {
    ++hv_n_fatal; VF_CHECK(fatal_user_data, u == &hv_u1);
    if (hv_die) { VF_REACH(fatal); vf_stop(); }
    VF_CHECK(fatal_arguments, file == hv_file && line == hv_line && msg == hv_msg);
}
static void hv_on_fatal2(void *u, char const *file, int line, char const *msg) {
    ++hv_n_fatal2; VF_CHECK(fatal2_user_data, u == &hv_u2);
    VF_CHECK(fatal2_arguments, file == hv_file && line == hv_line && msg == hv_msg);
}
static void hv_on_print(void *u, char const *s) {
    int i;
    ++hv_n_print; VF_CHECK(print_user_data, u == &hv_u1);
    if (hv_long) { VF_CHECK(long_text_is_a_prefix, s[0] == 'a' && s[HV_KEEP - 1] == 'a' && strlen(s) >= HV_KEEP); return; }
    if (hv_expect) { VF_CHECK(print_text, hv_same(s, hv_expect)); }
}
static void hv_on_print2(void *u, char const *s) { ++hv_n_print2; VF_CHECK(print2_user_data, u == &hv_u2); VF_CHECK(print2_text, hv_same(s, hv_expect)); }
static void *hv_on_any; static int hv_n_print3, hv_n_fatal3;
static void hv_on_print3(void *u, char const *s) { ++hv_n_print3; VF_CHECK(print3_user_data, u == hv_on_any); VF_CHECK(print3_text, hv_same(s, hv_expect)); }
static void hv_on_fatal3(void *u, char const *file, int line, char const *msg) { ++hv_n_fatal3; VF_CHECK(fatal3_user_data, u == hv_on_any); }
int main(void) {
    int k, i, n; char *p;
    hv_file = "some.c"; hv_line = 0; hv_msg = "boom%d";
#ifdef H_FATAL
    VF_PICK(k, 0, 1);
    hv_line = k ? 123 : -7;
    embc_fatal(hv_file, hv_line, hv_msg);                 /* nothing installed: standard output */
    VF_CHECK(default_fatal_on_stdout, hv_n_out == 1 && hv_contains(hv_out, "some.c") && hv_contains(hv_out, k ? "123" : "-7") && hv_contains(hv_out, "boom%d"));
    embc_lib_print_set(hv_on_print, &hv_u1);
    hv_expect = 0;
    embc_fatal(hv_file, hv_line, hv_msg);
    VF_CHECK(fatal_to_print, hv_n_print == 1 && hv_n_out == 1);
    embc_lib_fatal_set(hv_on_fatal, &hv_u1);
    hv_line = k ? 2147483647 : -2147483647 - 1;
    embc_fatal(hv_file, hv_line, hv_msg);
    VF_CHECK(fatal_once, hv_n_fatal == 1 && hv_n_print == 1 && hv_n_out == 1);
    embc_lib_fatal_set(hv_on_fatal2, &hv_u2);
    embc_fatal(hv_file, hv_line, hv_msg);
    VF_CHECK(fatal_replaced, hv_n_fatal == 1 && hv_n_fatal2 == 1);
    hv_on_any = &hv_u1; embc_lib_fatal_set(hv_on_fatal3, &hv_u1); embc_fatal(hv_file, 1, hv_msg);
    hv_on_any = &hv_u2; embc_lib_fatal_set(hv_on_fatal3, &hv_u2); embc_fatal(hv_file, 1, hv_msg);
    VF_CHECK(same_fatal_other_data, hv_n_fatal3 == 2 && hv_n_fatal2 == 1);
    embc_lib_fatal_set(0, 0);
    embc_fatal(hv_file, 5, hv_msg);
    VF_CHECK(fatal_removed, hv_n_fatal == 1 && hv_n_fatal2 == 1 && hv_n_print == 2);
    VF_REACH(end);
#endif
#ifdef H_PRINT
    VF_PICK(k, 0, 2);
    embc_lib_fatal_set(hv_on_fatal, &hv_u1);
    embc_log_printf_("x");
    VF_CHECK(silent_before, hv_n_print == 0 && hv_n_out == 0);
    if (k == 2) { embc_lib_print_set(0, 0); embc_log_printf_("a %s %d", "b%s", 3); VF_CHECK(stdout_text, hv_n_out == 1 && hv_same(hv_out, "a b%s 3")); hv_n_out = 0; }
    embc_lib_print_set(hv_on_print, &hv_u1);
    hv_expect = "v=-5 s=100%d %";
    embc_log_printf_("v=%d s=%s %%", -5, "100%d");
    VF_CHECK(printed_once, hv_n_print == 1 && hv_n_out == 0);
    hv_expect = ""; embc_log_printf_("%s", "");
    VF_CHECK(printed_empty, hv_n_print == 2);
    hv_expect = "E unit.c:77: bad 9\n";
#define EMBC_LOG_LEVEL 6
#line 77
    EMBC_LOGE("bad %d", 9);
    VF_CHECK(log_reaches_print, hv_n_print == 3);
    embc_lib_print_set(hv_on_print2, &hv_u2);
    hv_expect = "again"; embc_log_printf_("again");
    VF_CHECK(print_replaced, hv_n_print == 3 && hv_n_print2 == 1);
    hv_on_any = &hv_u1; embc_lib_print_set(hv_on_print3, &hv_u1); embc_log_printf_("again");
    hv_on_any = &hv_u2; embc_lib_print_set(hv_on_print3, &hv_u2); embc_log_printf_("again");
    VF_CHECK(same_handler_other_data, hv_n_print3 == 2);
    embc_lib_print_set(0, 0);
    embc_log_printf_("out %d", 4);
    VF_CHECK(print_removed, hv_n_print == 3 && hv_n_print2 == 1 && hv_n_out == 1 && hv_same(hv_out, "out 4"));
    VF_CHECK(no_fatal, hv_n_fatal == 0);
    VF_REACH(end);
#endif
#ifdef H_LONG
    hv_long = 1;
    embc_lib_print_set(hv_on_print, &hv_u1);
    embc_log_printf_("%s", "text");
    VF_CHECK(long_once, hv_n_print == 1);
    hv_long = 0; hv_expect = "short";
    embc_log_printf_("short");
    VF_CHECK(short_after_long, hv_n_print == 2);
    VF_REACH(end);
#endif
#ifdef H_HEAP
    VF_PICK(k, 0, 3);
    embc_lib_fatal_set(hv_on_fatal, &hv_u1);
    embc_lib_initialize();
    VF_CHECK(nothing_yet, hv_n_alloc == 0 && hv_n_free == 0);
    hv_give = 1; hv_die = 1;
    VF_PICK(n, 1, 32);
    for (i = 0; i < 40; ++i) { hv_store[i] = 'x'; }
    p = embc_lib_alloc(n);
    VF_CHECK(allocates, p == hv_store && hv_n_alloc == 1 && hv_asked >= n);
    for (i = 0; i < 32; ++i) { VF_CHECK(cleared_exactly, i < n ? p[i] == 0 : 1); }
    for (i = 0; i < 40; ++i) { if (i >= hv_asked) { VF_CHECK(not_beyond, hv_store[i] == 'x'); } }
    embc_lib_free(0);
    VF_CHECK(free_null_does_nothing, hv_n_free == 0);
    embc_lib_free(p);
    VF_CHECK(frees_once, hv_n_free == 1 && hv_freed == p);
    if (k == 1) { p = embc_alloc(n); VF_CHECK(library_allocates, p == hv_store && hv_n_alloc == 2 && hv_asked == n); embc_free(p); VF_CHECK(library_frees, hv_n_free == 2); }
    if (k == 2) { hv_give = 0; p = embc_lib_alloc(n); VF_CHECK(failure_is_reported, p == 0); }
    if (k == 3) { hv_give = 0; p = embc_alloc(n); VF_CHECK(failure_is_fatal, 0); }
    VF_REACH(end);
#endif
    return 0;
}
