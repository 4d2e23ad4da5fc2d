/* Logging filter, error code tables, contract and argument-check macros. */
#include "vf.h"
#include <stdarg.h>
#include "libc_model.h"
#define volatile
#ifdef H_LOG
#undef EMBC_LOG_PRINTF
#undef __FILENAME__
#define __FILENAME__ "unit.c"
#define EMBC_LOG_GLOBAL_LEVEL GLOBAL
#include "src/log.c"
void embc_fatal(char const * file, int line, char const * msg) { Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop(); }
static int hv_n, hv_n2, hv_lvl, hv_ln, hv_evaluated; static char hv_ch; 
static int hv_eval(void) { ++hv_evaluated; return 42; }
static const char hv_FMT[] = "%c %s:%d: x %d\n", hv_FMT1[] = "%c %s:%d: %s\n";
static void hv_handler(const char *f, ...) {
    va_list a; int i, c, line, v; const char *file;
    ++hv_n;
    va_start(a, f);
    c = va_arg(a, int); file = va_arg(a, const char *); line = va_arg(a, int);
    VF_CHECK(level_char, c == hv_ch);
    VF_CHECK(file_name, strcmp(file, "unit.c") == 0);
    VF_CHECK(line_number, line == hv_ln);
    if (strcmp(f, hv_FMT) == 0) { v = va_arg(a, int); VF_CHECK(argument, v == 42); }
    else {
        VF_CHECK(plain_format, strcmp(f, hv_FMT1) == 0);
        file = va_arg(a, const char *);
        VF_CHECK(message_is_not_a_format, strcmp(file, "50%d") == 0);
    }
    va_end(a);
}
static void hv_handler2(const char *f, ...) { ++hv_n2; }
#define ONE(LEVEL, NUM, CHR, CALL, PASS) do { \
    hv_n = 0; hv_evaluated = 0; hv_ch = CHR; hv_ln = __LINE__; CALL; \
    VF_CHECK(level_value, LEVEL == NUM); \
    VF_CHECK(filtered, hv_n == (NUM <= (PASS) && NUM <= GLOBAL)); } while (0)
#define ALL(PASS) \
    ONE(EMBC_LOG_LEVEL_EMERGENCY, 0, '!', EMBC_LOG_EMERGENCY("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_ALERT, 1, 'A', EMBC_LOG_ALERT("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_CRITICAL, 2, 'C', EMBC_LOG_CRITICAL("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_ERROR, 3, 'E', EMBC_LOG_ERROR("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_ERROR, 3, 'E', EMBC_LOG_ERR("50%d"), PASS); \
    ONE(EMBC_LOG_LEVEL_WARNING, 4, 'W', EMBC_LOG_WARNING("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_WARNING, 4, 'W', EMBC_LOG_WARN("50%d"), PASS); \
    ONE(EMBC_LOG_LEVEL_NOTICE, 5, 'N', EMBC_LOG_NOTICE("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_INFO, 6, 'I', EMBC_LOG_INFO("50%d"), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG1, 7, 'D', EMBC_LOG_DEBUG1("x %d", hv_eval()), PASS); VF_CHECK(arguments_once, hv_evaluated == hv_n); \
    ONE(EMBC_LOG_LEVEL_DEBUG, 7, 'D', EMBC_LOG_DEBUG("50%d"), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG1, 7, 'D', EMBC_LOG_DBG("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG2, 8, 'D', EMBC_LOG_DEBUG2("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG3, 9, 'D', EMBC_LOG_DEBUG3("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_ERROR, 3, 'E', EMBC_LOGE("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_WARNING, 4, 'W', EMBC_LOGW("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_NOTICE, 5, 'N', EMBC_LOGN("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_INFO, 6, 'I', EMBC_LOGI("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG1, 7, 'D', EMBC_LOGD("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG1, 7, 'D', EMBC_LOGD1("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG2, 8, 'D', EMBC_LOGD2("x %d", 42), PASS); \
    ONE(EMBC_LOG_LEVEL_DEBUG3, 9, 'D', EMBC_LOGD3("x %d", 42), PASS)
static void hv_at_default(void) { ALL(6); }
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_OFF
static void hv_at_off(void) { ALL(-1); }
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_WARNING
static void hv_at_warn(void) { ALL(4); }
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL EMBC_LOG_LEVEL_ALL
static void hv_at_all(void) { ALL(10); }
int main(void) {
    static const char * const NAMES[] = { "EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL" };
    int i;
    EMBC_LOG_ERROR("before initialize %d", 1);   /* must not fault */
    VF_CHECK(initialize, embc_log_initialize(hv_handler) == 0);
    hv_at_default(); hv_at_off(); hv_at_warn(); hv_at_all();
    VF_CHECK(reinitialize, embc_log_initialize(hv_handler2) == 0);
    hv_n = 0; EMBC_LOG_EMERGENCY("50%d");
    VF_CHECK(replaced, hv_n == 0 && hv_n2 == (GLOBAL >= 0));
    if (VF_BOOL()) { embc_log_finalize(); } else { embc_log_initialize(0); }
    hv_n2 = 0; EMBC_LOG_EMERGENCY("50%d");
    VF_CHECK(finalized, hv_n == 0 && hv_n2 == 0);
    for (i = 0; i <= EMBC_LOG_LEVEL_ALL; ++i) { VF_CHECK(level_names, strcmp(embc_log_level_str[i], NAMES[i]) == 0); VF_CHECK(level_chars, embc_log_level_char[i] == "!ACEWNIDDD."[i]); }
    VF_CHECK(level_check, EMBC_LOG_LEVEL_CHECK(3, 3) && EMBC_LOG_LEVEL_CHECK(2, 3) && !EMBC_LOG_LEVEL_CHECK(4, 3));
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_EC
#include "src/ec.c"
void embc_fatal(char const * file, int line, char const * msg) { Frama_C_show_each_FAIL_unexpected_fatal(); vf_stop(); }
static const char * const hv_N[] = { "SUCCESS", "UNSPECIFIED", "NOT_ENOUGH_MEMORY", "NOT_SUPPORTED", "IO", "PARAMETER_INVALID", "INVALID_RETURN_CONDITION",
    "INVALID_CONTEXT", "INVALID_MESSAGE_LENGTH", "MESSAGE_INTEGRITY", "SYNTAX_ERROR", "TIMED_OUT", "FULL", "EMPTY", "TOO_SMALL", "TOO_BIG", "NOT_FOUND",
    "ALREADY_EXISTS", "PERMISSIONS", "BUSY", "UNAVAILABLE", "IN_USE", "CLOSED", "SEQUENCE", "ABORTED", "SYNCHRONIZATION" };
int main(void) {
    int i, j; const char *d;
    VF_CHECK(values, EMBC_SUCCESS == 0 && EMBC_ERROR_PARAMETER_INVALID == 5 && EMBC_ERROR_NOT_ENOUGH_MEMORY == 2 && EMBC_ERROR_SYNCHRONIZATION == 25 && EMBC_ERROR_CODE_COUNT == 26 && EMBC_ARGCHK_FAIL_RETURN_CODE == 5);
    for (i = 0; i < 26; ++i) {
        VF_CHECK(name, strcmp(embc_error_code_name(i), hv_N[i]) == 0);
        d = embc_error_code_description(i);
        VF_CHECK(description, d && d[0]);
        VF_CHECK(described, strcmp(d, embc_error_code_description(-1)) != 0);
        for (j = 0; j < i; ++j) { VF_CHECK(distinct, strcmp(d, embc_error_code_description(j)) != 0); }
    }
    i = VF_INT(-2147483647 - 1, 2147483647);
    if (i >= 0 && i < 26) { vf_stop(); }
    VF_CHECK(unknown_name, strcmp(embc_error_code_name(i), "UNKNOWN") == 0);
    VF_CHECK(unknown_description, strcmp(embc_error_code_description(i), "Unknown error") == 0);
    VF_REACH(end);
    return 0;
}
#endif
#ifdef H_DBC
#include "embc.h"
#include "embc/dbc.h"
#include "embc/argchk.h"
static int hv_hit, hv_want; static const char *hv_text;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_want) { Frama_C_show_each_FAIL_fatal_on_valid(line); }
    if (!msg || !msg[0] || !file || line <= 0) { Frama_C_show_each_FAIL_fatal_without_diagnosis(); }
    Frama_C_show_each_REACH_fatal(); vf_stop();
}
#define D(COND, STMT) do { hv_want = !(COND); { STMT; } if (hv_want) { Frama_C_show_each_FAIL_violation_not_fatal(__LINE__); vf_stop(); } } while (0)
#define A(NAME, STMT) static int NAME(int a, int b, int c, void *p) { STMT; return -77; }
A(a_true, EMBC_ARGCHK_TRUE(a)) A(a_false, EMBC_ARGCHK_FALSE(a)) A(a_null, EMBC_ARGCHK_NOT_NULL(p)) A(a_gt0, EMBC_ARGCHK_GT_ZERO(a))
A(a_gte0, EMBC_ARGCHK_GTE_ZERO(a)) A(a_ne0, EMBC_ARGCHK_NE_ZERO(a)) A(a_lt0, EMBC_ARGCHK_LT_ZERO(a)) A(a_lte0, EMBC_ARGCHK_LTE_ZERO(a))
A(a_range, EMBC_ARGCHK_RANGE_INT(a, b, c)) A(a_req, EMBC_ARGCHK_REQUIRE(a == b)) A(a_assert, EMBC_ARGCHK_ASSERT(a < b, "x"))
A(e_true, EMBC_ARGCHK_TRUE(a & b)) A(e_false, EMBC_ARGCHK_FALSE(a | b)) A(e_null, EMBC_ARGCHK_NOT_NULL(c ? p : 0)) A(e_gt0, EMBC_ARGCHK_GT_ZERO(a & b))
A(e_gte0, EMBC_ARGCHK_GTE_ZERO(c ? a : b)) A(e_ne0, EMBC_ARGCHK_NE_ZERO(a & b)) A(e_lt0, EMBC_ARGCHK_LT_ZERO(c ? a : b)) A(e_lte0, EMBC_ARGCHK_LTE_ZERO(a | b))
A(e_range, EMBC_ARGCHK_RANGE_INT(a | b, b & c, c ? a : b)) A(e_req, EMBC_ARGCHK_REQUIRE(a == b || c)) A(e_assert, EMBC_ARGCHK_ASSERT(a & b, "x"))
#define AC(NAME, COND) VF_CHECK(NAME, NAME(a, b, c, p) == ((COND) ? -77 : EMBC_ERROR_PARAMETER_INVALID))
int main(void) {
    int a, b, c, k, cell; void *p;
    VF_PICK(a, -2, 2); VF_PICK(b, -2, 2); VF_PICK(c, -1, 1);
    VF_PICK(k, 0, 1); p = k ? &cell : 0;
    AC(a_true, a); AC(a_false, !a); AC(a_null, p != 0); AC(a_gt0, a > 0); AC(a_gte0, a >= 0); AC(a_ne0, a != 0); AC(a_lt0, a < 0); AC(a_lte0, a <= 0);
    AC(a_range, a >= b && a <= c); AC(a_req, a == b); AC(a_assert, a < b);
    AC(e_true, a & b); AC(e_false, !(a | b)); AC(e_null, (c ? p : 0) != 0); AC(e_gt0, (a & b) > 0); AC(e_gte0, (c ? a : b) >= 0); AC(e_ne0, (a & b) != 0);
    AC(e_lt0, (c ? a : b) < 0); AC(e_lte0, (a | b) <= 0); AC(e_range, (a | b) >= (b & c) && (a | b) <= (c ? a : b)); AC(e_req, a == b || c); AC(e_assert, a & b);
    VF_PICK(k, 0, 35);
    switch (k) {
        case 0: D(a, EMBC_DBC_TRUE(a)); break;
        case 1: D(!a, EMBC_DBC_FALSE(a)); break;
        case 2: D(p, EMBC_DBC_NOT_NULL(p)); break;
        case 3: D(a == b, EMBC_DBC_EQUAL(a, b)); break;
        case 4: D(a > b, EMBC_DBC_GT(a, b)); break;
        case 5: D(a >= b, EMBC_DBC_GTE(a, b)); break;
        case 6: D(a != b, EMBC_DBC_NE(a, b)); break;
        case 7: D(a < b, EMBC_DBC_LT(a, b)); break;
        case 8: D(a <= b, EMBC_DBC_LTE(a, b)); break;
        case 9: D(a > 0, EMBC_DBC_GT_ZERO(a)); break;
        case 10: D(a >= 0, EMBC_DBC_GTE_ZERO(a)); break;
        case 11: D(a != 0, EMBC_DBC_NE_ZERO(a)); break;
        case 12: D(a < 0, EMBC_DBC_LT_ZERO(a)); break;
        case 13: D(a <= 0, EMBC_DBC_LTE_ZERO(a)); break;
        case 14: D(a >= b && a <= c, EMBC_DBC_RANGE_INT(a, b, c)); break;
        case 15: D(a == b || c, EMBC_DBC_REQUIRE(a == b || c)); break;
        case 16: D(a < b, EMBC_DBC_ASSERT(a < b, "message")); break;
        case 17: D(a < b, EMBC_ASSERT(a < b)); break;
        /* operands with operators of low precedence */
        case 18: D((a & b), EMBC_DBC_TRUE(a & b)); break;
        case 19: D(!(a | b), EMBC_DBC_FALSE(a | b)); break;
        case 20: D((c ? p : 0), EMBC_DBC_NOT_NULL(c ? p : 0)); break;
        case 21: D((a & c) == (b | c), EMBC_DBC_EQUAL(a & c, b | c)); break;
        case 22: D((c ? a : b) > (b | c), EMBC_DBC_GT(c ? a : b, b | c)); break;
        case 23: D((c ? a : b) >= (b & c), EMBC_DBC_GTE(c ? a : b, b & c)); break;
        case 24: D((a | c) != (c ? b : a), EMBC_DBC_NE(a | c, c ? b : a)); break;
        case 25: D((a & c) < (b & a), EMBC_DBC_LT(a & c, b & a)); break;
        case 26: D((a | c) <= (b & a), EMBC_DBC_LTE(a | c, b & a)); break;
        case 27: D((a & b) > 0, EMBC_DBC_GT_ZERO(a & b)); break;
        case 28: D((c ? a : b) >= 0, EMBC_DBC_GTE_ZERO(c ? a : b)); break;
        case 29: D((a & b) != 0, EMBC_DBC_NE_ZERO(a & b)); break;
        case 30: D((c ? a : b) < 0, EMBC_DBC_LT_ZERO(c ? a : b)); break;
        case 31: D((a | b) <= 0, EMBC_DBC_LTE_ZERO(a | b)); break;
        case 32: D((a | b) >= (b & c) && (a | b) <= (c ? a : b), EMBC_DBC_RANGE_INT(a | b, b & c, c ? a : b)); break;
        case 33: D((a & b), EMBC_ASSERT(a & b)); break;
        case 34: D((c ? p : 0) != 0, EMBC_ASSERT_ALLOC(c ? p : 0)); break;
        default: D(p != 0, EMBC_ASSERT_ALLOC(p)); break;
    }
    VF_REACH(end);
    return 0;
}
#endif
