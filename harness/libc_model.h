/* Executable models of string.h functions for which the analyser only has a
 * non-deterministic specification. */
#include <string.h>
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) { ++a; ++b; }
    return (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strncmp(const char *a, const char *b, size_t n) {
    while (n && *a && *a == *b) { ++a; ++b; --n; }
    return n ? (int) (unsigned char) *a - (int) (unsigned char) *b : 0;
}
int memcmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = x, *b = y;
    while (n && *a == *b) { ++a; ++b; --n; }
    return n ? (int) *a - (int) *b : 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
    char *r = d;
    while (n && *s) { *d++ = *s++; --n; }
    while (n) { *d++ = 0; --n; }
    return r;
}
/* A zero-length copy never touches memory (Frama-C's specification wants even
 * then a dereferenceable pointer, which rejects one-past-the-end). */
static inline void *vf_memcpy(void *d, const void *s, size_t n) { if (n) { memcpy(d, s, n); } return d; }
static inline void *vf_memset(void *d, int c, size_t n) { if (n) { memset(d, c, n); } return d; }
#undef memcpy
#undef memset
#define memcpy(d, s, n) vf_memcpy((d), (s), (n))
#define memset(d, c, n) vf_memset((d), (c), (n))
