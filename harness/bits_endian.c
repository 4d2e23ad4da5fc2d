#include "src/memory/buffer.c"
#include "embc/bbuf.h"
static void hv_nolog(const char *f, ...) {}
volatile embc_log_printf embc_log_printf_ = hv_nolog;
char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1] = {0};
#define BUF(m, c, l) struct embc_buffer_s b = {.data = (m), .capacity = 16, .cursor = (c), .length = (l), .reserve = 0}
#define E(T, U, S, B) \
    void h_mac_enc_##S(uint8_t *p, T v) { EMBC_BBUF_ENCODE_##U(p, v); } \
    T h_mac_dec_##S(uint8_t const *p) { T v = EMBC_BBUF_DECODE_##U(p); return v; } \
    T h_moff_dec_##S(uint8_t const *p) { return (T) (EMBC_BBUF_DECODE_##U(p + 3) ^ 0); } \
    void h_mac_xenc_##S(uint8_t *p, T v, T w) { EMBC_BBUF_ENCODE_##U(p + 3, v ^ w); } \
    int h_fun_enc_##S(uint8_t *p, T v) { uint8_t *q = p; embc_bbuf_unsafe_encode_##S(&q, v); return (int) (q - p); } \
    T h_fun_dec_##S(uint8_t const *p, int *n) { uint8_t const *q = p; T v = embc_bbuf_unsafe_decode_##S(&q); *n = (int) (q - p); return v; } \
    void h_buf_enc_##S(uint8_t *p, T v, int c, int l, int *o) { BUF(p, c, l); embc_buffer_write_##S(&b, v); o[0] = b.cursor; o[1] = b.length; } \
    T h_buf_dec_##S(uint8_t *p, int c, int l, int *o) { BUF(p, c, l); T v = embc_buffer_read_##S(&b); o[0] = b.cursor; o[1] = b.length; return v; }
E(uint8_t, U8, u8, 1)
E(uint16_t, U16_BE, u16_be, 2)
E(uint16_t, U16_LE, u16_le, 2)
E(uint32_t, U32_BE, u32_be, 4)
E(uint32_t, U32_LE, u32_le, 4)
E(uint64_t, U64_BE, u64_be, 8)
E(uint64_t, U64_LE, u64_le, 8)
