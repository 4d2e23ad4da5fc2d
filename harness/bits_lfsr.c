#include "src/lfsr.c"
static void hv_nolog(const char *f, ...) {}
volatile embc_log_printf embc_log_printf_ = hv_nolog;
char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1] = {0};
void h_set(struct embc_lfsr_s *s, uint16_t v, int e, int r) { s->value = v; s->error_count = e; s->resync_bit_count = r; }
uint16_t h_value(struct embc_lfsr_s *s) { return s->value; }
int h_errors(struct embc_lfsr_s *s) { return s->error_count; }
int h_sizeof(void) { return sizeof(struct embc_lfsr_s); }
