/* Signature decoding: what unpack_sig accepts is canonical.
   bounded: which polynomials may hold hints is bounded (see the entries);
   the position bytes, padding, c and z bytes are arbitrary. */
#include "params.h"
#include "poly.h"
#include "polyvec.h"
#include "packing.h"
#include "vf.h"
#ifndef VF_QUICK
#define VF_QUICK 0
#endif
#define SIGBYTES VF_CAT(PQCLEAN_DILITHIUM, VF_SET, _CLEAN_CRYPTO_BYTES)
static uint8_t sig[SIGBYTES], out[SIGBYTES], c[CTILDEBYTES], c2[CTILDEBYTES], zb[POLYZ_PACKEDBYTES];
static polyvecl z, z2;
static polyveck h, h2;
static int32_t xl[L][N];
#define HINT (CTILDEBYTES + L * POLYZ_PACKEDBYTES)
#define POS(t) sig[HINT + (t)]
#define CNT(i) sig[HINT + OMEGA + (i)]
/* the one encoding of a hint vector with the given counts: positions strictly
   increasing within each polynomial, unused bytes zero */
static _Bool increasing(unsigned lo, unsigned hi) {
    _Bool ok = 1; unsigned t;
    for (t = lo + 1; t < hi; t++) { ok = ok & (POS(t) > POS(t - 1)); }
    return ok;
}
static _Bool zeros(unsigned from) {
    _Bool ok = 1; unsigned t;
    for (t = from; t < OMEGA; t++) { ok = ok & (POS(t) == 0); }
    return ok;
}
static uint8_t expect[K][N];
/* counts cnt[0..K-1] are valid and written to sig: acceptance is exactly
   canonicity, and the decoded hints are exactly the encoded positions */
static void decode(const unsigned cnt[K]) {
    unsigned i, j, t; _Bool canon = zeros(cnt[K - 1]);
    for (i = 0; i < K; i++) { CNT(i) = (uint8_t) cnt[i]; canon = canon & increasing(i == 0 ? 0 : cnt[i - 1], cnt[i]); }
    ANY(&h, sizeof h, "old");
    if (F(unpack_sig)(c, &z, &h, sig) == 0) {
        ENSURE(canon, "accepted: hint positions strictly increase within each polynomial and unused bytes are zero");
        for (i = 0; i < K; i++) {
            for (t = i == 0 ? 0 : cnt[i - 1]; t < cnt[i]; t++) { expect[i][POS(t)] = 1; }
            for (j = 0; j < N; j++) { ENSURE(h.vec[i].coeffs[j] == expect[i][j], "the decoded hints are exactly the encoded positions"); }
        }
        REACH("accepted");
    } else { ENSURE(!canon, "a canonical hint section is accepted"); }
}
/* c and z: decoded byte for byte from their own parts of the signature */
ENTRY(vf_c22_cz, "accepted") {
    unsigned i, j;
    ANY(sig, HINT, "sig");
    if (F(unpack_sig)(c, &z, &h, sig) == 0) {
        for (i = 0; i < CTILDEBYTES; i++) { ENSURE(c[i] == sig[i], "challenge bytes"); }
        for (i = 0; i < L; i++) {
            F(polyz_pack)(zb, &z.vec[i]);
            for (j = 0; j < POLYZ_PACKEDBYTES; j++) { ENSURE(zb[j] == sig[CTILDEBYTES + i * POLYZ_PACKEDBYTES + j], "z: pack(unpack(b)) = b"); }
        }
        REACH("accepted");
    } else { ENSURE(0, "an all-zero hint section is the valid encoding of no hints"); }
}
ENTRY(vf_c22_cz_pack) {
    unsigned i, j;
    ANY(c, sizeof c, "c"); ANY32(&xl[0][0], L * N, "z", -GAMMA1 + 1, GAMMA1); ANY(out, sizeof out, "old");
    for (i = 0; i < L; i++) { for (j = 0; j < N; j++) { z.vec[i].coeffs[j] = xl[i][j]; } }
    F(pack_sig)(out, c, &z, &h);
    ENSURE(F(unpack_sig)(c2, &z2, &h2, out) == 0, "an encoded signature is accepted");
    ENSURE(vf_eq(c, c2, sizeof c), "the challenge comes back");
    for (i = 0; i < L; i++) { for (j = 0; j < N; j++) { ENSURE(z2.vec[i].coeffs[j] == xl[i][j], "z comes back"); } }
    for (i = 0; i < K; i++) { for (j = 0; j < N; j++) { ENSURE(h2.vec[i].coeffs[j] == 0, "no hints come back"); } }
}
/* all hints in polynomial I, any number of them, any position bytes */
#define ALLIN(I) void vf_c22_all_in_##I(void); void vf_c22_all_in_##I(void) { \
    unsigned cnt[K], i, b; if (I >= K) { return; } \
    b = (unsigned) vf_choice(VF_QUICK && I > 0 && I < K - 1 ? 12 : OMEGA + 1); \
    if (VF_QUICK && I > 0 && I < K - 1 && b > 9) { b = OMEGA - 11 + b; } \
    for (i = 0; i < K; i++) { cnt[i] = i < I ? 0 : b; } \
    ANY(&POS(0), OMEGA, "pos"); decode(cnt); }
// ENTRY c22_all_in_0
ALLIN(0)
// ENTRY c22_all_in_1
ALLIN(1)
// ENTRY c22_all_in_2
ALLIN(2)
// ENTRY c22_all_in_3
ALLIN(3)
// ENTRY c22_all_in_4
ALLIN(4)
// ENTRY c22_all_in_5
ALLIN(5)
// ENTRY c22_all_in_6
ALLIN(6)
// ENTRY c22_all_in_7
ALLIN(7)
/* none or two hints in every polynomial; also after the first holds enough to fill the section */
ENTRY(vf_c22_spread, "accepted") {
    unsigned cnt[K], i, k = 0;
    for (i = 0; i < K; i++) { k += vf_choice(2) ? 2 : 0; cnt[i] = k; }
    ANY(&POS(0), OMEGA, "pos"); decode(cnt);
}
ENTRY(vf_c22_full, "accepted") {
    unsigned cnt[K], i, k = OMEGA - 3;
    for (i = 0; i < K; i++) { if (i > 0 && k < OMEGA && vf_choice(2)) { k++; } cnt[i] = k; }
    for (i = 0; i < OMEGA - 3; i++) { POS(i) = (uint8_t) (2 * i + 1); }
    ANY(&POS(OMEGA - 3), 3, "pos"); decode(cnt);
}
/* count bytes out of order or above omega are refused, whatever else the signature holds */
ENTRY(vf_c22_counts, "refused") {
    unsigned i, at = (unsigned) vf_choice(K), b = (unsigned) (vf_choice(3) * (OMEGA / 2));
    uint8_t v;
    ANY(&v, 1, "count");
    for (i = 0; i < b; i++) { POS(i) = (uint8_t) (i + 3); }
    ANY(&POS(b), OMEGA - b, "pos");
    for (i = 0; i < K; i++) { CNT(i) = (uint8_t) b; }
    CNT(at) = v;
    REQUIRE(v > OMEGA || (at > 0 && v < b));
    ENSURE(F(unpack_sig)(c, &z, &h, sig) != 0, "counts that decrease or exceed omega are refused");
    REACH("refused");
}
/* pack_sig writes the encoding of h: free hint bits at the ends of the first,
   second and last polynomial, a block of hints in between */
ENTRY(vf_c22_pack, "done") {
    unsigned i, j, k = 0, m = (unsigned) vf_choice(3), extra = m == 0 ? 0 : m == 1 ? 5 : OMEGA - 7;
    static const uint8_t at[7][2] = {{0, 0}, {0, 1}, {0, 255}, {1, 0}, {1, 254}, {K - 1, 0}, {K - 1, 255}};
    for (i = 0; i < 7; i++) { h.vec[at[i][0]].coeffs[at[i][1]] = (int32_t) vf_choice(2); }
    for (i = 0; i < extra; i++) { h.vec[K / 2].coeffs[3 * i + 1] = 1; }
    ANY(out, sizeof out, "old");
    F(pack_sig)(out, c, &z, &h);
    for (i = 0; i < K; i++) {
        for (j = 0; j < N; j++) { if (h.vec[i].coeffs[j]) { ENSURE(out[HINT + k] == j, "hint positions in order"); k++; } }
        ENSURE(out[HINT + OMEGA + i] == k, "hint counts");
    }
    for (; k < OMEGA; k++) { ENSURE(out[HINT + k] == 0, "unused hint bytes are zero"); }
    REACH("done");
}
