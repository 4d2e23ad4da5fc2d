/* Contracts of the public functions: a call that violates one stops in embc_fatal, before it touches memory. */
#include "vf.h"
#include <stdlib.h>
#include "libc_model.h"
#include "embc/memory/pool.h"
#include "embc/memory/object_pool.h"
#include "embc/memory/block.h"
#include "embc/memory/buffer.h"
#include "embc/collections/intmap.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
#include "embc/fsm.h"
#include "embc/lfsr.h"
#include "embc/pattern_32a.h"
#include "embc/cli.h"
#include "embc/event_manager.h"
#include "embc/stream/async_sink.h"
#include "embc/stream/async_source.h"
#include "embc/stream/framer.h"
#include "embc/platform.h"

static union { uint64_t align; uint8_t b[4096]; } hv_mem, hv_mem2;
static uint8_t hv_data[600];
static int hv_k;

#if defined(H_MEMORY)
static struct embc_buffer_s * hv_b, * hv_b2;
static struct embc_buffer_allocator_s * hv_a;
static struct embc_object_pool_s * hv_op; static void * hv_obj;
static struct embc_pool_s * hv_p; static void * hv_blk;
static int32_t hv_bad;
static const embc_size_t hv_sizes[3] = {0, 0, 4};
static void hv_setup(void) {
    hv_bad = -VF_INT(0, 5);
    hv_p = (struct embc_pool_s *) &hv_mem; embc_pool_initialize(hv_p, 4, 8); hv_blk = embc_pool_alloc(hv_p);
    hv_a = (struct embc_buffer_allocator_s *) &hv_mem2; embc_buffer_allocator_initialize(hv_a, hv_sizes, 3);
    hv_b = embc_buffer_alloc(hv_a, 128); hv_b2 = embc_buffer_alloc(hv_a, 128);
    embc_buffer_write_u32_le(hv_b, 0x12345678);
}
static union { uint64_t align; uint8_t b[256]; } hv_opm;
/* memory with a rest that is smaller than a block, the instance exactly as large as required */
static uint8_t hv_big[1034]; static void * hv_mb;
static void hv_tail(void) { hv_mb = malloc((size_t) embc_mblock_instance_size(1034, 16)); VF_ASSUME(hv_mb != 0); embc_mblock_initialize((struct embc_mblock_s *) hv_mb, hv_big, 1034, 16); embc_mblock_alloc((struct embc_mblock_s *) hv_mb, 1024); }
static void hv_objects(void) { hv_op = (struct embc_object_pool_s *) &hv_opm; embc_object_pool_initialize(hv_op, 2, 8, 0, 0); hv_obj = embc_object_pool_alloc(hv_op); }
#define CASES(X) \
    X(pool_initialize_null, embc_pool_initialize(0, 4, 8)) X(pool_initialize_count, embc_pool_initialize(hv_p, hv_bad, 8)) X(pool_initialize_size, embc_pool_initialize(hv_p, 4, hv_bad)) \
    \
    X(pool_finalize_null, embc_pool_finalize(0)) X(pool_is_empty_null, embc_pool_is_empty(0)) X(pool_alloc_null, embc_pool_alloc(0)) X(pool_alloc_unsafe_null, embc_pool_alloc_unsafe(0)) \
    X(pool_free_null, embc_pool_free(0, hv_blk)) X(pool_free_no_block, embc_pool_free(hv_p, 0)) \
    \
    X(object_pool_finalize_null, embc_object_pool_finalize(0)) \
    X(object_pool_exhausted, hv_objects(); embc_object_pool_alloc(hv_op); embc_object_pool_alloc(hv_op)) \
    \
    \
    X(mblock_size_mem, embc_mblock_instance_size(hv_bad, 16)) X(mblock_size_block, embc_mblock_instance_size(64, hv_bad)) \
    X(mblock_initialize_null, embc_mblock_initialize(0, hv_data, 64, 16)) X(mblock_initialize_no_memory, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, 0, 64, 16)) \
    X(mblock_initialize_mem_size, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data, hv_bad, 16)) X(mblock_initialize_block_size, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data, 64, hv_bad)) \
    X(mblock_alloc_null, embc_mblock_alloc(0, 16)) X(mblock_alloc_unsafe_null, embc_mblock_alloc_unsafe(0, 16)) X(mblock_free_null, embc_mblock_free(0, hv_data, 16)) \
    X(mblock_alloc_size, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data, 64, 16); embc_mblock_alloc((struct embc_mblock_s *) &hv_mem, hv_bad)) \
    X(mblock_free_size, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data, 64, 16); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data, hv_bad)) \
    X(mblock_free_below, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data + 64, 64, 16); embc_mblock_alloc((struct embc_mblock_s *) &hv_mem, 16); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data + 48, 16)) \
    X(mblock_free_above, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data + 64, 64, 16); embc_mblock_alloc((struct embc_mblock_s *) &hv_mem, 16); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data + 128, 16)) \
    X(mblock_free_too_long, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data + 64, 64, 16); embc_mblock_alloc((struct embc_mblock_s *) &hv_mem, 64); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data + 112, 32)) \
    X(mblock_free_tail, hv_tail(); embc_mblock_free((struct embc_mblock_s *) hv_mb, hv_big + 1008, 26)) \
    X(mblock_double_free, embc_mblock_initialize((struct embc_mblock_s *) &hv_mem, hv_data + 64, 64, 16); embc_mblock_alloc((struct embc_mblock_s *) &hv_mem, 16); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data + 64, 16); embc_mblock_free((struct embc_mblock_s *) &hv_mem, hv_data + 64, 16)) \
    X(allocator_size_null, embc_buffer_allocator_instance_size(0, 3)) X(allocator_initialize_no_sizes, embc_buffer_allocator_initialize(hv_a, 0, 3)) \
    X(buffer_alloc_size, embc_buffer_alloc(hv_a, hv_bad)) \
    X(buffer_write_null, embc_buffer_write(0, hv_data, 1)) X(buffer_write_no_data, embc_buffer_write(hv_b, 0, 1)) X(buffer_write_size, embc_buffer_write(hv_b, hv_data, 125)) \
    X(buffer_copy_null, embc_buffer_copy(0, hv_b2, 0)) X(buffer_copy_no_source, embc_buffer_copy(hv_b, 0, 0)) \
    X(buffer_write_str_null, embc_buffer_write_str(0, "a")) X(buffer_write_str_no_text, embc_buffer_write_str(hv_b, 0)) X(buffer_truncate_null, embc_buffer_write_str_truncate(0, "a")) X(buffer_truncate_no_text, embc_buffer_write_str_truncate(hv_b, 0)) \
    X(buffer_w8_null, embc_buffer_write_u8(0, 1)) X(buffer_w16_null, embc_buffer_write_u16_le(0, 1)) X(buffer_w32_null, embc_buffer_write_u32_le(0, 1)) X(buffer_w64_null, embc_buffer_write_u64_le(0, 1)) \
    X(buffer_w16b_null, embc_buffer_write_u16_be(0, 1)) X(buffer_w32b_null, embc_buffer_write_u32_be(0, 1)) X(buffer_w64b_null, embc_buffer_write_u64_be(0, 1)) \
    X(buffer_read_null, embc_buffer_read(0, hv_data, 1)) X(buffer_read_no_data, embc_buffer_cursor_set(hv_b, 0); embc_buffer_read(hv_b, 0, 1)) X(buffer_read_size, embc_buffer_cursor_set(hv_b, 0); embc_buffer_read(hv_b, hv_data, 5)) \
    X(buffer_r8_null, embc_buffer_read_u8(0)) X(buffer_r16_null, embc_buffer_read_u16_le(0)) X(buffer_r32_null, embc_buffer_read_u32_le(0)) X(buffer_r64_null, embc_buffer_read_u64_le(0)) \
    X(buffer_r16b_null, embc_buffer_read_u16_be(0)) X(buffer_r32b_null, embc_buffer_read_u32_be(0)) X(buffer_r64b_null, embc_buffer_read_u64_be(0)) \
    X(buffer_erase_null, embc_buffer_erase(0, 0, 0)) X(buffer_erase_start_low, embc_buffer_erase(hv_b, -1 - VF_INT(0, 5), 2)) X(buffer_erase_start_high, embc_buffer_erase(hv_b, VF_INT(4, 9), 4)) X(buffer_erase_end_low, embc_buffer_erase(hv_b, 0, -1 - VF_INT(0, 5))) X(buffer_erase_end_high, embc_buffer_erase(hv_b, 0, VF_INT(5, 9))) \
    X(buffer_cursor_low, embc_buffer_cursor_set(hv_b, -1 - VF_INT(0, 5))) X(buffer_cursor_high, embc_buffer_cursor_set(hv_b, VF_INT(5, 200)))
#elif defined(H_LOGIC)
static struct embc_fsm_s hv_fsm; static struct embc_lfsr_s hv_lfsr; static struct embc_pattern_32a_tx_s hv_ptx; static struct embc_pattern_32a_rx_s hv_prx; static embc_cli_t hv_cli;
static void hv_setup(void) { }
#define CASES(X) \
    X(fsm_initialize_null, embc_fsm_initialize(0)) X(fsm_event_null, embc_fsm_event(0, 1)) X(fsm_reset_null, embc_fsm_reset(0)) \
    X(lfsr_initialize_null, embc_lfsr_initialize(0)) X(lfsr_seed_null, embc_lfsr_seed_u16(0, 1)) X(lfsr_u1_null, embc_lfsr_next_u1(0)) X(lfsr_u8_null, embc_lfsr_next_u8(0)) X(lfsr_u16_null, embc_lfsr_next_u16(0)) X(lfsr_u32_null, embc_lfsr_next_u32(0)) X(lfsr_follow_null, embc_lfsr_follow_u8(0, 1)) \
    X(pattern_tx_initialize_null, embc_pattern_32a_tx_initialize(0)) \
    X(pattern_rx_initialize_null, embc_pattern_32a_rx_initialize(0)) X(pattern_rx_buffer_null, embc_pattern_32a_rx_buffer(0, (uint32_t *) &hv_mem, 4)) X(pattern_rx_no_buffer, embc_pattern_32a_rx_buffer(&hv_prx, 0, 4)) \
    X(cli_initialize_null, embc_cli_initialize(0)) X(cli_echo_null, embc_cli_set_echo(0, EMBC_CLI_ECHO_ON, 0)) X(cli_verbose_null, embc_cli_set_verbose(0, EMBC_CLI_VERBOSE_FULL)) X(cli_insert_null, embc_cli_insert_char(0, 'a')) X(cli_parser_null, embc_cli_line_parser(0, "a"))
#elif defined(H_MAPS)
static void * hv_v; static embc_size_t hv_key;
static embc_size_t hv_hash(void * v) { return 1; }
static bool hv_equiv(void * a, void * b) { return a == b; }
static void hv_setup(void) {    /* an absent map is empty, and there is nothing to free */
    VF_CHECK(absent_empty, embc_intmap_length(0) == 0 && embc_strmap_length(0) == 0 && embc_hashmap_length(0) == 0);
    embc_intmap_free(0); embc_intmap_iterator_free(0); embc_strmap_free(0); embc_hashmap_free(0);
    VF_REACH(absent_freed);
}
#define CASES(X) \
    X(intmap_put_null, embc_intmap_put(0, 1, 0, 0)) X(intmap_get_null, embc_intmap_get(0, 1, &hv_v)) X(intmap_remove_null, embc_intmap_remove(0, 1, &hv_v)) \
    X(intmap_iter_null, embc_intmap_iterator_new(0)) X(intmap_next_null, embc_intmap_iterator_next(0, &hv_key, &hv_v)) \
    \
    X(hashmap_put_null, embc_hashmap_put(0, hv_data, 0, 0)) X(hashmap_get_null, embc_hashmap_get(0, hv_data, &hv_v)) \
    \
    
#elif defined(H_STREAM)
static struct embc_stream_sink_s hv_sink; static struct embc_stream_source_s hv_source; static struct embc_stream_producer_s hv_prod; static struct embc_stream_consumer_s hv_cons;
static struct embc_framer_s * hv_fr; static struct embc_framer_hal_callbacks_s hv_cb; static struct embc_framer_port_callbacks_s hv_pc; static struct embc_buffer_allocator_s * hv_a; static struct embc_buffer_s * hv_b;
static const embc_size_t hv_sizes[4] = {0, 0, 0, 6};
static void hv_tx(void * hal, struct embc_buffer_s * b) { }
static int64_t hv_time(void * hal) { return 1; }
static int32_t hv_tset(void * hal, int64_t t, void (*f)(void *, uint32_t), void * d, uint32_t * id) { *id = 1; return 0; }
static int32_t hv_tcancel(void * hal, uint32_t id) { return 0; }
static void hv_setup(void) {
    hv_a = (struct embc_buffer_allocator_s *) &hv_mem2; embc_buffer_allocator_initialize(hv_a, hv_sizes, 4);
    hv_fr = (struct embc_framer_s *) &hv_mem;
    hv_cb.tx_fn = hv_tx; hv_cb.time_get = hv_time; hv_cb.timer_set_fn = hv_tset; hv_cb.timer_cancel_fn = hv_tcancel;
    VF_CHECK(instance_fits, embc_framer_instance_size() <= sizeof(hv_mem));
    embc_framer_initialize(hv_fr, hv_a, &hv_cb);
    hv_b = embc_framer_alloc(hv_fr);
}
static struct embc_buffer_s * hv_foreign(void) { struct embc_buffer_s * b = embc_buffer_alloc(hv_a, 256); b->length = b->cursor = 241; return b; }
#define CASES(X) \
    X(sink_initialize_null, embc_stream_sink_initialize(0, hv_data, 8)) X(sink_consumer_null, embc_stream_sink_get_consumer(0)) X(sink_producer_null, embc_stream_sink_set_producer(0, &hv_prod)) X(sink_write_fn_null, embc_stream_sink_set_write_fn(0, 0, 0)) X(sink_receive_null, embc_stream_sink_receive(0, hv_data, 8, 0, 0)) \
    X(source_initialize_null, embc_stream_source_initialize(0, hv_data, 8)) X(source_consumer_null, embc_stream_source_set_consumer(0, &hv_cons)) X(source_producer_null, embc_stream_source_get_producer(0)) \
    X(source_configure_no_buffer, embc_stream_source_configure(&hv_source, 0, 8, 0, 0)) X(source_configure_length, embc_stream_source_configure(&hv_source, hv_data, 0, 0, 0)) X(source_configure_null, embc_stream_source_configure(0, hv_data, 8, 0, 0)) \
    X(framer_initialize_null, embc_framer_initialize(0, hv_a, &hv_cb)) X(framer_no_allocator, embc_framer_initialize(hv_fr, 0, &hv_cb)) X(framer_no_callbacks, embc_framer_initialize(hv_fr, hv_a, 0)) \
    X(framer_no_tx, hv_cb.tx_fn = 0; embc_framer_initialize(hv_fr, hv_a, &hv_cb)) X(framer_no_time, hv_cb.time_get = 0; embc_framer_initialize(hv_fr, hv_a, &hv_cb)) X(framer_no_set, hv_cb.timer_set_fn = 0; embc_framer_initialize(hv_fr, hv_a, &hv_cb)) X(framer_no_cancel, hv_cb.timer_cancel_fn = 0; embc_framer_initialize(hv_fr, hv_a, &hv_cb)) \
    X(framer_port_null, embc_framer_register_port_callbacks(0, 1, &hv_pc)) X(framer_port_range, embc_framer_register_port_callbacks(hv_fr, (uint8_t) VF_INT(16, 255), &hv_pc)) X(framer_port_no_callbacks, embc_framer_register_port_callbacks(hv_fr, 1, 0)) \
    X(framer_hook_null, embc_framer_register_rx_hook(0, 0, 0)) X(framer_rx_byte_null, embc_framer_hal_rx_byte(0, 1)) X(framer_rx_buffer_null, embc_framer_hal_rx_buffer(0, hv_data, 8)) X(framer_rx_no_buffer, embc_framer_hal_rx_buffer(hv_fr, 0, 8)) \
    X(framer_done_null, embc_framer_hal_tx_done(0, hv_b)) X(framer_done_no_buffer, embc_framer_hal_tx_done(hv_fr, 0)) \
    X(framer_frame_null, embc_framer_construct_frame(0, 1, 1, 1, 1, hv_data, 4)) X(framer_frame_port, embc_framer_construct_frame(hv_fr, 1, (uint8_t) VF_INT(16, 255), 1, 1, hv_data, 4)) X(framer_frame_length, embc_framer_construct_frame(hv_fr, 1, 1, 1, 1, hv_data, (uint8_t) VF_INT(241, 255))) X(framer_ack_null, embc_framer_construct_ack(0, 1, 1, 1, 1, 1)) \
    X(framer_send_null, embc_framer_send(0, 1, 1, 1, hv_b)) X(framer_send_port, embc_framer_send(hv_fr, (uint8_t) VF_INT(16, 255), 1, 1, hv_b)) X(framer_send_no_buffer, embc_framer_send(hv_fr, 1, 1, 1, 0)) X(framer_send_too_long, embc_framer_send(hv_fr, 1, 1, 1, hv_foreign())) \
    X(framer_payload_null, embc_framer_send_payload(0, 1, 1, 1, hv_data, 4)) X(framer_payload_port, embc_framer_send_payload(hv_fr, (uint8_t) VF_INT(16, 255), 1, 1, hv_data, 4)) X(framer_payload_length, embc_framer_send_payload(hv_fr, 1, 1, 1, hv_data, (uint8_t) VF_INT(241, 255))) X(framer_payload_no_data, embc_framer_send_payload(hv_fr, 1, 1, 1, 0, 4)) \
    X(framer_resync_null, embc_framer_resync(0)) X(framer_alloc_null, embc_framer_alloc(0)) X(framer_status_null, embc_framer_status_get(0))
#endif

#define NAME(name, stmt) hv_c_##name,
enum hv_cases { CASES(NAME) hv_cases };
#define STOPPED(name, stmt) if (hv_k == hv_c_##name) { VF_REACH(name); }
static int hv_ready;
void embc_fatal(char const * file, int line, char const * msg) {
    VF_CHECK(setup_valid, hv_ready);
    CASES(STOPPED)
    vf_stop();
}
#define CALL(name, stmt) if (hv_k == hv_c_##name) { stmt; VF_CHECK(name, 0); }
int main(void) {
    hv_setup();
    hv_ready = 1;
    VF_PICK(hv_k, 0, hv_cases - 1);
    CASES(CALL)
    return 0;
}
