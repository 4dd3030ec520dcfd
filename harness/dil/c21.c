/* Encodings: unpack(pack(x)) = x for every x in the encoding's range, and
   pack(unpack(b)) = b for every byte string where the encoding uses all of them. */
#include "params.h"
#include "poly.h"
#include "polyvec.h"
#include "packing.h"
#include "vf.h"
static poly p, r, r2;
static uint8_t eta[POLYETA_PACKEDBYTES], t1b[POLYT1_PACKEDBYTES], t0b[POLYT0_PACKEDBYTES], zb[POLYZ_PACKEDBYTES], w1b[POLYW1_PACKEDBYTES];
static uint8_t t1c[POLYT1_PACKEDBYTES], t0c[POLYT0_PACKEDBYTES], zc[POLYZ_PACKEDBYTES];
static int32_t x[N];
#define FILL(lo, hi) unsigned i; ANY32(x, N, "coeff", lo, hi); for (i = 0; i < N; i++) { p.coeffs[i] = x[i]; } ANY(&r, sizeof r, "old")
#define BACK(m) for (i = 0; i < N; i++) { ENSURE(r.coeffs[i] == x[i], m); ENSURE(p.coeffs[i] == x[i], "packing leaves its input as it was"); }
ENTRY(vf_c21_eta) { FILL(-ETA, ETA); F(polyeta_pack)(eta, &p); F(polyeta_unpack)(&r, eta); BACK("eta encoding: unpack(pack(a)) = a") }
ENTRY(vf_c21_t1) { FILL(0, 1023); F(polyt1_pack)(t1b, &p); F(polyt1_unpack)(&r, t1b); BACK("t1 encoding: unpack(pack(a)) = a") }
ENTRY(vf_c21_t0) { FILL(-4095, 4096); F(polyt0_pack)(t0b, &p); F(polyt0_unpack)(&r, t0b); BACK("t0 encoding: unpack(pack(a)) = a") }
ENTRY(vf_c21_z) { FILL(-GAMMA1 + 1, GAMMA1); F(polyz_pack)(zb, &p); F(polyz_unpack)(&r, zb); BACK("z encoding: unpack(pack(a)) = a") }
/* w1 has no decoder in the code: it is read back with the documented layout */
#define W1BITS (VF_SET == 2 ? 6 : 4)
ENTRY(vf_c21_w1) {
    FILL(0, (Q - 1) / (2 * GAMMA2) - 1); F(polyw1_pack)(w1b, &p);
    for (i = 0; i < N; i++) {
        unsigned b = i * W1BITS, v = w1b[b / 8];
        if (b / 8 + 1 < POLYW1_PACKEDBYTES) { v |= (unsigned) w1b[b / 8 + 1] << 8; }
        ENSURE((int32_t) ((v >> (b % 8)) & ((1u << W1BITS) - 1)) == x[i], "w1 encoding keeps every coefficient");
    }
}
ENTRY(vf_c21_bytes_t1) {
    unsigned i; ANY(t1b, sizeof t1b, "bytes"); ANY(&r, sizeof r, "old");
    F(polyt1_unpack)(&r, t1b); F(polyt1_pack)(t1c, &r);
    for (i = 0; i < N; i++) { ENSURE(r.coeffs[i] >= 0 && r.coeffs[i] < 1024, "t1 decoding stays in range"); }
    for (i = 0; i < sizeof t1b; i++) { ENSURE(t1b[i] == t1c[i], "t1 encoding: pack(unpack(b)) = b"); }
}
ENTRY(vf_c21_bytes_t0) {
    unsigned i; ANY(t0b, sizeof t0b, "bytes"); ANY(&r, sizeof r, "old");
    F(polyt0_unpack)(&r, t0b); F(polyt0_pack)(t0c, &r);
    for (i = 0; i < N; i++) { ENSURE(r.coeffs[i] >= -4095 && r.coeffs[i] <= 4096, "t0 decoding stays in range"); }
    for (i = 0; i < sizeof t0b; i++) { ENSURE(t0b[i] == t0c[i], "t0 encoding: pack(unpack(b)) = b"); }
}
ENTRY(vf_c21_bytes_z) {
    unsigned i; ANY(zb, sizeof zb, "bytes"); ANY(&r, sizeof r, "old");
    F(polyz_unpack)(&r, zb); F(polyz_pack)(zc, &r);
    for (i = 0; i < N; i++) { ENSURE(r.coeffs[i] > -GAMMA1 && r.coeffs[i] <= GAMMA1, "z decoding stays in range"); }
    for (i = 0; i < sizeof zb; i++) { ENSURE(zb[i] == zc[i], "z encoding: pack(unpack(b)) = b"); }
}
ENTRY(vf_c21_bytes_eta) {
    unsigned i; ANY(eta, sizeof eta, "bytes"); ANY(&r, sizeof r, "old");
    F(polyeta_unpack)(&r, eta);
    for (i = 0; i < N; i++) { ENSURE(r.coeffs[i] >= ETA - 15 && r.coeffs[i] <= ETA, "eta decoding stays in its field"); }
}
static uint8_t pk[VF_CAT(PQCLEAN_DILITHIUM, VF_SET, _CLEAN_CRYPTO_PUBLICKEYBYTES)], sk[VF_CAT(PQCLEAN_DILITHIUM, VF_SET, _CLEAN_CRYPTO_SECRETKEYBYTES)];
static uint8_t rho[SEEDBYTES], rho2[SEEDBYTES], tr[TRBYTES], tr2[TRBYTES], key[SEEDBYTES], key2[SEEDBYTES];
static polyveck kt, kt2, ks2, ks22;
static polyvecl ls, ls2;
static int32_t xk[K][N], yk[K][N], xl[L][N];
ENTRY(vf_c21_pk) {
    unsigned i, j;
    ANY(rho, sizeof rho, "rho"); ANY32(&xk[0][0], K * N, "t1", 0, 1023);
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) { kt.vec[i].coeffs[j] = xk[i][j]; } }
    F(pack_pk)(pk, rho, &kt); F(unpack_pk)(rho2, &kt2, pk);
    ENSURE(vf_eq(rho, rho2, sizeof rho), "public key: rho comes back");
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) { ENSURE(kt2.vec[i].coeffs[j] == xk[i][j], "public key: t1 comes back"); } }
}
ENTRY(vf_c21_pk_bytes) {
    static uint8_t back[sizeof pk]; unsigned i;
    ANY(pk, sizeof pk, "pk"); F(unpack_pk)(rho2, &kt2, pk); F(pack_pk)(back, rho2, &kt2);
    for (i = 0; i < sizeof pk; i++) { ENSURE(back[i] == pk[i], "public key: pack(unpack(b)) = b"); }
}
ENTRY(vf_c21_sk) {
    unsigned i, j;
    ANY(rho, sizeof rho, "rho"); ANY(tr, sizeof tr, "tr"); ANY(key, sizeof key, "key");
    ANY32(&xk[0][0], K * N, "t0", -4095, 4096); ANY32(&yk[0][0], K * N, "s2", -ETA, ETA); ANY32(&xl[0][0], L * N, "s1", -ETA, ETA);
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) { kt.vec[i].coeffs[j] = xk[i][j]; ks2.vec[i].coeffs[j] = yk[i][j]; } }
    for (i = 0; i < L; i++) { for (j = 0; j < N; j++) { ls.vec[i].coeffs[j] = xl[i][j]; } }
    F(pack_sk)(sk, rho, tr, key, &kt, &ls, &ks2); F(unpack_sk)(rho2, tr2, key2, &kt2, &ls2, &ks22, sk);
    ENSURE(vf_eq(rho, rho2, sizeof rho), "secret key: rho comes back");
    ENSURE(vf_eq(tr, tr2, sizeof tr), "secret key: tr comes back");
    ENSURE(vf_eq(key, key2, sizeof key), "secret key: key comes back");
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) {
        ENSURE(kt2.vec[i].coeffs[j] == xk[i][j], "secret key: t0 comes back"); ENSURE(ks22.vec[i].coeffs[j] == yk[i][j], "secret key: s2 comes back"); } }
    for (i = 0; i < L; i++) { for (j = 0; j < N; j++) { ENSURE(ls2.vec[i].coeffs[j] == xl[i][j], "secret key: s1 comes back"); } }
}
ENTRY(vf_c21_w1_vec) {
    static uint8_t out[K * POLYW1_PACKEDBYTES]; unsigned i, j;
    ANY32(&xk[0][0], K * N, "w1", 0, (Q - 1) / (2 * GAMMA2) - 1);
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) { kt.vec[i].coeffs[j] = xk[i][j]; } }
    F(polyveck_pack_w1)(out, &kt);
    for (i = 0; i < K; i++) { F(polyw1_pack)(w1b, &kt.vec[i]); for (j = 0; j < POLYW1_PACKEDBYTES; j++) { ENSURE(out[i * POLYW1_PACKEDBYTES + j] == w1b[j], "w1 vector: polynomial after polynomial"); } }
}
