/* Loop instrumentation: every iteration of every loop is counted since the last
 * case split, so that a loop which never ends is seen as such (an analyser
 * otherwise only finds what follows it unreachable).  A count that has not been
 * joined with others is exact: exceeding the bound then is a hang. */
#ifndef VF_TICK_H_
#define VF_TICK_H_
int vf_ticks;
/*@ assigns \nothing; ensures \false; */
void vf_tick_stop(void);
#define VF_TICK() ((void) (++vf_ticks > VF_TICK_LIMIT ? (vf_ticks == VF_TICK_LIMIT + 1 ? (Frama_C_show_each_TICKS(vf_ticks), vf_tick_stop()) : (void) 0, vf_ticks = 0) : 0))
#define while(...) while ((VF_TICK(), (__VA_ARGS__)))
#define for(...) for (__VA_ARGS__) if (VF_TICK(), 0) {} else
#endif
