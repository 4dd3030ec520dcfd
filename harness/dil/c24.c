/* C24: key generation is a function of the 32-byte seed.  Polynomial operations
   and the Keccak permutation are unknown functions of exactly the bytes they are
   given; everything else is the real code. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "params.h"
#include "sign.h"
#include "api.h"
#define PK F(CRYPTO_PUBLICKEYBYTES)
#define SK F(CRYPTO_SECRETKEYBYTES)
_Bool vf_depall(const void *p, size_t n, const char *tag, size_t l, size_t cnt, size_t from);
_Bool vf_only(const void *p, size_t n, const char *tag, size_t l, size_t cnt, size_t from);
size_t vf_drawn(void *p, size_t n);
/* all of / nothing but coins from .. from+31 */
#define ALL(p, n, f) vf_depall(p, n, "coin", 4, 32, f)
#define ONLY(p, n, f) vf_only(p, n, "coin", 4, 32, f)
static void seed(uint8_t *c) { for (int i = 0; i < 32; i++) ANY(c + i, 1, "coin"); }
static uint8_t *buf(size_t n, int fill) {
    uint8_t *p = malloc(n); REQUIRE(p != NULL);
#ifdef VF_NATIVE
    memset(p, fill, n);
#endif
    return p;
}
/* the same seed again after another key pair was generated: equal key pairs,
   whole buffers written, nothing but the seed enters */
ENTRY(vf_same_seed, "same", "other") {
    uint8_t *a = malloc(32), *b = malloc(32), *a0 = malloc(32); REQUIRE(a && b && a0);
    seed(a); seed(b); memcpy(a0, a, 32);
    uint8_t *p1 = buf(PK, 0), *s1 = buf(SK, 0), *p2 = buf(PK, 0x55), *s2 = buf(SK, 0x55), *p3 = buf(PK, 0xff), *s3 = buf(SK, 0xff);
    ENSURE(F(crypto_sign_keypair_det)(a, p1, s1) == 0, "deterministic key generation succeeds");
    ENSURE(ALL(p1, PK, 0) && ALL(s1, SK, 0), "every byte of the seed reaches every part of the key pair");
    ENSURE(ONLY(p1, PK, 0) && ONLY(s1, SK, 0), "the whole key pair is written and only the seed enters it");
    ENSURE(vf_eq(a, a0, 32), "the caller's seed is left as it was");
    ENSURE(F(crypto_sign_keypair_det)(b, p2, s2) == 0, "deterministic key generation succeeds");
    ENSURE(ALL(p2, PK, 32) && ALL(s2, SK, 32), "every byte of the seed reaches every part of the key pair");
    ENSURE(ONLY(p2, PK, 32) && ONLY(s2, SK, 32), "the whole key pair is written and only the seed enters it");
#ifdef VF_NATIVE
    for (int i = 1; i < 32; i++) { memcpy(a, b, i); F(crypto_sign_keypair_det)(b, p3, s3); F(crypto_sign_keypair_det)(a, p2, s2); ENSURE(memcmp(p2, p3, 32) && memcmp(s2 + 32, s3 + 32, 32), "the whole key pair is written and only the seed enters it"); } memcpy(a, a0, 32);
    for (int i = 0; i < 32; i++) { a[i] ^= 1 << (i % 8); F(crypto_sign_keypair_det)(a, p2, s2); ENSURE(memcmp(p1, p2, 32) && memcmp(p1 + 32, p2 + 32, PK - 32) && memcmp(s1 + 32, s2 + 32, 32), "every byte of the seed reaches every part of the key pair"); a[i] ^= 1 << (i % 8); }
#endif
    REACH("other");
    ENSURE(F(crypto_sign_keypair_det)(a, p3, s3) == 0, "deterministic key generation succeeds");
    ENSURE(vf_eq(p1, p3, PK), "the same seed gives the same public key");
    ENSURE(vf_eq(s1, s3, SK), "the same seed gives the same secret key");
    REACH("same");
}
/* ordinary key generation = deterministic key generation from what was drawn */
ENTRY(vf_random, "random") {
    uint8_t *p1 = buf(PK, 0), *s1 = buf(SK, 0), *p2 = buf(PK, 0x55), *s2 = buf(SK, 0x55), *d = malloc(32); REQUIRE(d);
    for (int k = 0; k < 2; k++) {
        ENSURE(F(crypto_sign_keypair)(p1, s1) == 0, "key generation succeeds");
        ENSURE(vf_drawn(d, 32) == 32, "key generation draws a whole seed from the system generator, freshly each time");
        ENSURE(F(crypto_sign_keypair_det)(d, p2, s2) == 0, "deterministic key generation succeeds");
        ENSURE(vf_eq(p1, p2, PK) && vf_eq(s1, s2, SK), "ordinary key generation equals deterministic key generation from the bytes drawn");
        ENSURE(vf_drawn(d, 32) == 0, "deterministic key generation draws nothing");
    }
    REACH("random");
}
