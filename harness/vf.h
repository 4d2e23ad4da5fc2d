/* Obligation vocabulary of the abstract-interpretation harnesses.
 *
 * A harness is never executed: Frama-C/EVA interprets it abstractly together
 * with the current /repo sources.  VF_CHECK states an obligation: the analyser
 * must prove that the failing branch is unreachable for every concretisation of
 * the abstract inputs.  VF_REACH is the anti-vacuity marker: the analyser must
 * not find the point unreachable. */
#ifndef VF_H_
#define VF_H_
#include "__fc_builtin.h"
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#ifndef VF_TICK_LIMIT
static int vf_ticks;
#endif

/*@ assigns \nothing; ensures \false; */
void vf_stop(void);

#define VF_CHECK(name, cond) \
    do { vf_ticks = 0; if (!(cond)) { Frama_C_show_each_FAIL_##name(); vf_stop(); } vf_ticks = 0; } while (0)
/* with values to print in the diagnosis */
#define VF_CHECKV(name, cond, ...) \
    do { vf_ticks = 0; if (!(cond)) { Frama_C_show_each_FAIL_##name(__VA_ARGS__); vf_stop(); } vf_ticks = 0; } while (0)
#define VF_REACH(name) Frama_C_show_each_REACH_##name()
/* restrict the abstract state to a documented precondition */
#define VF_ASSUME(cond) do { if (!(cond)) { vf_stop(); } } while (0)

#define VF_INT(lo, hi)  Frama_C_interval((lo), (hi))
#define VF_LONG(lo, hi) Frama_C_long_interval((lo), (hi))
#define VF_U8()  ((uint8_t) Frama_C_unsigned_char_interval(0, 255))
#define VF_U16() ((uint16_t) Frama_C_unsigned_int_interval(0, 65535))
#define VF_U32() ((uint32_t) Frama_C_unsigned_int_interval(0, 4294967295U))
#define VF_BOOL() (Frama_C_interval(0, 1))

/* Case split: 'var' takes every value of lo..hi, one abstract state per value
 * (the analyser does not join the states of distinct loop exits). */
#define VF_PICK(var, lo, hi) \
    for (var = (lo); var < (hi); ++var) { if (VF_BOOL()) { break; } } vf_ticks = 0

#ifndef __FILENAME__
#define __FILENAME__ "repo.c"
#endif

/* The library assumes embc_fatal does not return (assert.h). */
#if defined(VF_FATAL_FORBIDDEN)
#define VF_FATAL_BODY Frama_C_show_each_FAIL_fatal(file, line, msg); vf_stop();
#elif defined(VF_FATAL_FLAG)
extern int vf_fatal_allowed;
#define VF_FATAL_BODY \
    if (!vf_fatal_allowed) { Frama_C_show_each_FAIL_fatal(file, line, msg); } \
    else { Frama_C_show_each_REACH_fatal(); } \
    vf_stop();
#else
#define VF_FATAL_BODY Frama_C_show_each_REACH_fatal(); vf_stop();
#endif
#define VF_DEFINE_FATAL() \
    void embc_fatal(char const * file, int line, char const * msg) { VF_FATAL_BODY }

/* Logging sink: arguments are evaluated at the call, the call has no effect. */
/*@ assigns \nothing; */
void vf_log_sink(const char * format, ...);
#define EMBC_LOG_PRINTF(level, format, ...) vf_log_sink(format, __VA_ARGS__)
#endif
