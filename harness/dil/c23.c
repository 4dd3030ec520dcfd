/* C23, C layer: the message wrappers around signing and verification.  The signing
   and verification functions themselves are contracts (unknown functions of exactly
   the bytes they are given); VARIANT is CLEAN or AVX2. */
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "vf.h"
#undef F
#define VF_CAT4_(a, b, c, d) a##b##_##c##_##d
#define VF_CAT4(a, b, c, d) VF_CAT4_(a, b, c, d)
#define F(name) VF_CAT4(PQCLEAN_DILITHIUM, VF_SET, VARIANT, name)
#define CB ((size_t) F(CRYPTO_BYTES))
static uint8_t pk[F(CRYPTO_PUBLICKEYBYTES)], sk[F(CRYPTO_SECRETKEYBYTES)], sig[F(CRYPTO_BYTES)];
static void keys(void) {
#ifdef VF_NATIVE
    F(crypto_sign_keypair)(pk, sk);
#else
    ANY(pk, sizeof pk, "pk");
    ANY(sk, sizeof sk, "sk");
#endif
}
static size_t msglen(void) {
    static const size_t l[] = {0, 1, 2, 8, 33, 300, 66000};
    return l[vf_choice(7)];
}
/* alias 0: separate buffers, 1: sm == m (documented), 2: the message already in place */
ENTRY(vf_sign, "signed") {
    size_t n = msglen(), alias = vf_choice(3), smlen, l2;
    uint8_t *msg = malloc(n), *sm = malloc(CB + n), *m = alias == 0 ? malloc(n) : alias == 1 ? sm : sm + CB;
    int r;
    keys();
    ANY(&smlen, 8, "smlen");
    ANY(msg, n, "msg");
    memcpy(m, msg, n);
    r = F(crypto_sign)(sm, &smlen, m, n, sk);
    F(crypto_sign_signature)(sig, &l2, msg, n, sk);
    ENSURE(r == 0, "signing succeeds");
    ENSURE(smlen == CB + n, "a signed message is as long as the signature and the message");
    ENSURE(vf_eq(sm, sig, CB), "a signed message starts with the signature of the message");
    ENSURE(vf_eq(sm + CB, msg, n), "the message follows the signature");
    if (alias == 0) ENSURE(vf_eq(m, msg, n), "signing leaves the message as it was");
    REACH("signed");
}
ENTRY(vf_open, "opened", "refused", "too short") {
    static const size_t lens[] = {0, 1, 31, F(CRYPTO_BYTES) - 1, F(CRYPTO_BYTES), F(CRYPTO_BYTES) + 1, F(CRYPTO_BYTES) + 300, F(CRYPTO_BYTES) + 66000};
    size_t n = lens[vf_choice(8)], alias = vf_choice(2), mlen;
    uint8_t *sm0 = malloc(n), *sm = malloc(n), *m = alias ? sm : malloc(n);
    int r, v;
    keys();
    ANY(&mlen, 8, "mlen");
    ANY(sm0, n, "sm");
#ifdef VF_NATIVE
    if (n >= CB && vf_choice(2)) { size_t l; F(crypto_sign_signature)(sm0, &l, sm0 + CB, n - CB, sk); }
#endif
    memcpy(sm, sm0, n);
    r = F(crypto_sign_open)(m, &mlen, sm, n, pk);
    if (n < CB) {
        ENSURE(r == -1, "a signed message shorter than a signature is refused");
        REACH("too short");
        return;
    }
    v = F(crypto_sign_verify)(sm0, CB, sm0 + CB, n - CB, pk);
    if (v == 0) {
        ENSURE(r == 0, "opening succeeds when verification accepts");
        ENSURE(mlen == n - CB, "the opened message has the length of what follows the signature");
        ENSURE(vf_eq(m, sm0 + CB, n - CB), "opening returns the message that was signed");
        REACH("opened");
    } else {
        ENSURE(r == -1, "opening fails when verification refuses");
        REACH("refused");
    }
    if (!alias) ENSURE(vf_eq(sm, sm0, n), "opening leaves the signed message as it was");
}
/* a signature of the wrong length is refused, whatever everything else computes */
ENTRY(vf_siglen, "refused") {
    static const size_t lens[] = {0, 1, 31, F(CRYPTO_BYTES) - 1, F(CRYPTO_BYTES) + 1, 2 * F(CRYPTO_BYTES), F(CRYPTO_BYTES) + 256, F(CRYPTO_BYTES) + 65536};
    size_t n = lens[vf_choice(8)], ml = 20;
    uint8_t *s = malloc(n), *m = malloc(ml);
    keys();
    ANY(m, ml, "msg");
    ANY(s, n, "sig");
#ifdef VF_NATIVE
    { size_t l; F(crypto_sign_signature)(sig, &l, m, ml, sk); memcpy(s, sig, n < CB ? n : CB); }
#endif
    ENSURE(F(crypto_sign_verify)(s, n, m, ml, pk) != 0, "a signature of the wrong length is refused");
    REACH("refused");
}
