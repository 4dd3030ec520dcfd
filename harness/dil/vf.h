/* Shared by every C harness.  VF_SET is the parameter set (2, 3 or 5).  Under the
   verification condition generator the vf_* functions are its primitives; in a
   native replay (VF_NATIVE) they draw values from the model or at random. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#define VF_CAT_(a, b, c) a##b##c
#define VF_CAT(a, b, c) VF_CAT_(a, b, c)
#define F(name) VF_CAT(PQCLEAN_DILITHIUM, VF_SET, _CLEAN_##name)
/* n arbitrary bytes / 32-bit values / 32-bit values in [lo, hi] */
void vf_any(void *p, size_t n, const char *tag, size_t l);
void vf_any32(int32_t *p, size_t n, const char *tag, size_t l, int32_t lo, int32_t hi);
void vf_any64(int64_t *p, size_t n, const char *tag, size_t l, int64_t lo, int64_t hi);
void vf_assume(_Bool c);
void vf_assert(_Bool c, const char *m, size_t l);
void vf_reach(const char *m, size_t l);
size_t vf_choice(size_t n);
_Bool vf_eq(const void *a, const void *b, size_t n);
#define ANY(p, n, tag) vf_any((p), (n), tag, sizeof(tag) - 1)
#define ANY32(p, n, tag, lo, hi) vf_any32((p), (n), tag, sizeof(tag) - 1, (lo), (hi))
#define ANY64(p, n, tag, lo, hi) vf_any64((p), (n), tag, sizeof(tag) - 1, (lo), (hi))
#define I32MIN (-2147483647 - 1)
#define I32MAX 2147483647
#define REQUIRE(c) vf_assume(c)
#define ENSURE(c, m) vf_assert((c), m, sizeof(m) - 1)
#define REACH(m) vf_reach(m, sizeof(m) - 1)
#define ENTRY(name, ...) void name(void); void name(void)
#endif
