/* Heap with ghost ownership accounting; use after free, double free and
 * out-of-bounds are decided by the analyser's own memory model. */
#include <stdlib.h>
static int vf_live;
static long vf_live_bytes;
/* a request is of a size that some embedded heap could serve: not a negative one taken as huge */
static void *vf_malloc(size_t n) { VF_CHECK(allocation_size, n <= 0x1000000); void *p = malloc(n); ++vf_live; return p; }
static void *vf_calloc(size_t a, size_t b) { VF_CHECK(allocation_size, a <= 0x10000 && b <= 0x1000000); void *p = calloc(a, b); ++vf_live; return p; }
static void vf_free(void *p) { if (p) { --vf_live; } free(p); }
#ifdef VF_LIBC_HEAP
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#endif
