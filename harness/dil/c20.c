/* Contracts of reduce.c and rounding.c (scalars, over their whole documented
   domain) and of the polynomial functions that apply them lane by lane. */
#include "params.h"
#include "poly.h"
#include "reduce.h"
#include "rounding.h"
#include "vf.h"
#define QINV32 58728449u               /* q^-1 mod 2^32, checked below */
#define A2 (2 * (int32_t) ((Q - 1) / (VF_SET == 2 ? 88 : 32)))
#define G2 (A2 / 2)
#define M ((Q - 1) / A2)               /* number of high parts: 44 or 16 */
#define B_ (VF_SET == 2 ? 78 : VF_SET == 3 ? 196 : 120)
static int32_t one(int32_t lo, int32_t hi) { int32_t x; ANY32(&x, 1, "in", lo, hi); return x; }

ENTRY(vf_c20_constants) {
    ENSURE(Q == 8380417 && D == 13 && N == 256, "q = 2^23 - 2^13 + 1, d = 13, n = 256");
    ENSURE((uint32_t) (8380417u * QINV32) == 1, "specification constant");
    ENSURE(GAMMA2 == (VF_SET == 2 ? 95232 : 261888), "gamma2 as specified");
    ENSURE(GAMMA1 == (VF_SET == 2 ? (1 << 17) : (1 << 19)), "gamma1 as specified");
    ENSURE(BETA == B_ && TAU == (VF_SET == 2 ? 39 : VF_SET == 3 ? 49 : 60) && ETA == (VF_SET == 3 ? 4 : 2), "tau, eta, beta as specified");
    ENSURE(K == (VF_SET == 2 ? 4 : VF_SET == 3 ? 6 : 8) && L == (VF_SET == 2 ? 4 : VF_SET == 3 ? 5 : 7) && OMEGA == (VF_SET == 2 ? 80 : VF_SET == 3 ? 55 : 75), "k, l, omega as specified");
}
/* |a| <= 2^31 q: r = a * 2^-32 mod q.  The quotient k with a - r 2^32 = k q satisfies
   k = a q^-1 mod 2^32 and |k| <= 2^32, so it is t, t - 2^32 or t + 2^32 */
ENTRY(vf_c20_montgomery) {
    int64_t a; ANY64(&a, 1, "in", -2147483648LL * Q, 2147483648LL * Q);
    int32_t r = F(montgomery_reduce)(a);
    ENSURE(-Q <= r && r <= Q, "montgomery_reduce: |r| <= q");
    int64_t q = (int64_t) (int32_t) ((uint32_t) a * QINV32) * Q, x = (int64_t) r * 4294967296LL;
    ENSURE(x == a - q || x == a - q + 4294967296LL * Q || x == a - q - 4294967296LL * Q, "montgomery_reduce: r * 2^32 = a mod q");
}
ENTRY(vf_c20_reduce32) {
    int32_t a = one(I32MIN, I32MAX - (1 << 22)), r = F(reduce32)(a);
    ENSURE(-6283009 <= r && r <= 6283008, "reduce32: output interval");
    int64_t k = ((int64_t) a - r + 4096 * (int64_t) Q) ; /* a - r is one of 513 multiples of q */
    int64_t t = ((int64_t) a + (1 << 22)) >> 23, d = (int64_t) a - r - t * Q;
    (void) k;
    ENSURE(d == 0 || d == Q || d == -Q, "reduce32: r = a mod q");
}
ENTRY(vf_c20_caddq) {
    int32_t a = one(I32MIN, I32MAX), r = F(caddq)(a);
    ENSURE(r == (a < 0 ? a + Q : a), "caddq: adds q exactly to negative inputs");
}
ENTRY(vf_c20_freeze) {
    int32_t a = one(I32MIN, I32MAX - (1 << 22)), r = F(freeze)(a);
    ENSURE(0 <= r && r < Q, "freeze: standard representative");
    int64_t t = ((int64_t) a + (1 << 22)) >> 23, d = (int64_t) a - r - t * Q;
    ENSURE(d == 0 || d == Q || d == -Q, "freeze: r = a mod q");
}
ENTRY(vf_c20_power2round) {
    int32_t a = one(0, Q - 1), a0 = one(I32MIN, I32MAX), a1 = F(power2round)(&a0, a);
    ENSURE(a0 > -4096 && a0 <= 4096, "power2round: low part range");
    ENSURE(a1 >= 0 && a1 < 1024, "power2round: high part fits ten bits");
    ENSURE(a1 * 8192 + a0 == a, "power2round: a1*2^d + a0 = a");
}
ENTRY(vf_c20_decompose) {
    int32_t a = one(0, Q - 1), a0 = one(I32MIN, I32MAX), a1 = F(decompose)(&a0, a);
    ENSURE(a1 >= 0 && a1 < M, "decompose: high part range");
    ENSURE(a0 >= -G2 && a0 <= G2, "decompose: low part range");
    int32_t s = a1 * A2 + a0;
    ENSURE(s == a || (s == a - Q && a1 == 0 && a0 < 0), "decompose: a1*2*gamma2 + a0 = a mod q");
    ENSURE(s != a || a0 > -G2, "decompose: low part range in the ordinary case");
}
ENTRY(vf_c20_make_hint) {
    int32_t a = one(I32MIN, I32MAX), b = one(I32MIN, I32MAX);
    unsigned h = F(make_hint)(a, b);
    ENSURE(h <= 1, "make_hint: a bit");
    ENSURE(h == (a > G2 || a < -G2 || (a == -G2 && b != 0)), "make_hint: set exactly when the low part leaves its interval");
}
ENTRY(vf_c20_use_hint) {
    int32_t a = one(0, Q - 1), h = one(0, 1), a0 = 0, a1 = F(decompose)(&a0, a);
    int32_t r = F(use_hint)(a, (unsigned) h);
    int32_t up = a1 == M - 1 ? 0 : a1 + 1, down = a1 == 0 ? M - 1 : a1 - 1;
    ENSURE(r >= 0 && r < M, "use_hint: high part range");
    ENSURE(r == (h == 0 ? a1 : a0 > 0 ? up : down), "use_hint: moves one step towards the low part");
}
/* w = w1*2*gamma2 + w0 (decomposed); the signer knows w0 + e, |e| <= gamma2,
   and sends h = make_hint(w0 + e, w1); the verifier knows w + e.           */
ENTRY(vf_c20_hint_recovers) {
    int32_t w = one(0, Q - 1), e = one(-G2 + 1, G2 - 1), w0 = 0;
    int32_t w1 = F(decompose)(&w0, w);
    REQUIRE(w0 > -G2 + B_ && w0 < G2 - B_); /* as the signer enforces */
    unsigned h = F(make_hint)(w0 + e, w1);
    int32_t v = w + e;
    if (v < 0) { v += Q; }
    if (v >= Q) { v -= Q; }
    ENSURE(F(use_hint)(v, h) == w1, "use_hint(w + e, make_hint(w0 + e, w1)) = w1");
}
/* every lane of the polynomial functions, also in place */
static poly a, b, c;
#define LANES(ALO, AHI, BLO, BHI, CALL, POST, MSG) \
    int32_t x[N], y[N]; unsigned i; \
    ANY32(x, N, "a", ALO, AHI); ANY32(y, N, "b", BLO, BHI); ANY(&c, sizeof c, "c"); \
    for (i = 0; i < N; i++) { a.coeffs[i] = x[i]; b.coeffs[i] = y[i]; } \
    CALL; \
    for (i = 0; i < N; i++) { ENSURE(POST, MSG); }
static int32_t p2r_hi(int32_t z) { int32_t l; return F(power2round)(&l, z); }
static int32_t p2r_lo(int32_t z) { int32_t l; F(power2round)(&l, z); return l; }
static int32_t dec_hi(int32_t z) { int32_t l; return F(decompose)(&l, z); }
static int32_t dec_lo(int32_t z) { int32_t l; F(decompose)(&l, z); return l; }
ENTRY(vf_c20_poly_reduce) { LANES(I32MIN, I32MAX - (1 << 22), 0, 0, F(poly_reduce)(&a), a.coeffs[i] == F(reduce32)(x[i]), "poly_reduce: every lane") }
ENTRY(vf_c20_poly_caddq) { LANES(I32MIN, I32MAX, 0, 0, F(poly_caddq)(&a), a.coeffs[i] == F(caddq)(x[i]), "poly_caddq: every lane") }
ENTRY(vf_c20_poly_add) { LANES(-(1 << 30) + 1, (1 << 30) - 1, -(1 << 30) + 1, (1 << 30) - 1, F(poly_add)(&c, &a, &b), c.coeffs[i] == x[i] + y[i], "poly_add: every lane") }
ENTRY(vf_c20_poly_add_in) { LANES(-(1 << 30) + 1, (1 << 30) - 1, -(1 << 30) + 1, (1 << 30) - 1, F(poly_add)(&a, &a, &b), a.coeffs[i] == x[i] + y[i], "poly_add in place: every lane") }
ENTRY(vf_c20_poly_sub) { LANES(-(1 << 30) + 1, (1 << 30) - 1, -(1 << 30) + 1, (1 << 30) - 1, F(poly_sub)(&c, &a, &b), c.coeffs[i] == x[i] - y[i], "poly_sub: every lane") }
ENTRY(vf_c20_poly_sub_in) { LANES(-(1 << 30) + 1, (1 << 30) - 1, -(1 << 30) + 1, (1 << 30) - 1, F(poly_sub)(&a, &a, &b), a.coeffs[i] == x[i] - y[i], "poly_sub in place: every lane") }
ENTRY(vf_c20_poly_shiftl) { LANES(0, (1 << 18) - 1, 0, 0, F(poly_shiftl)(&a), a.coeffs[i] == x[i] * 8192, "poly_shiftl: every lane") }
ENTRY(vf_c20_poly_power2round) { LANES(0, Q - 1, 0, 0, F(poly_power2round)(&b, &c, &a), b.coeffs[i] == p2r_hi(x[i]) && c.coeffs[i] == p2r_lo(x[i]), "poly_power2round: every lane") }
ENTRY(vf_c20_poly_power2round_in) { LANES(0, Q - 1, 0, 0, F(poly_power2round)(&a, &c, &a), a.coeffs[i] == p2r_hi(x[i]) && c.coeffs[i] == p2r_lo(x[i]), "poly_power2round in place: every lane") }
ENTRY(vf_c20_poly_decompose) { LANES(0, Q - 1, 0, 0, F(poly_decompose)(&b, &c, &a), b.coeffs[i] == dec_hi(x[i]) && c.coeffs[i] == dec_lo(x[i]), "poly_decompose: every lane") }
ENTRY(vf_c20_poly_decompose_in) { LANES(0, Q - 1, 0, 0, F(poly_decompose)(&a, &c, &a), a.coeffs[i] == dec_hi(x[i]) && c.coeffs[i] == dec_lo(x[i]), "poly_decompose in place: every lane") }
ENTRY(vf_c20_poly_use_hint) { LANES(0, Q - 1, 0, 1, F(poly_use_hint)(&a, &a, &b), a.coeffs[i] == F(use_hint)(x[i], (unsigned) y[i]), "poly_use_hint: every lane") }
ENTRY(vf_c20_poly_make_hint) {
    unsigned s = 0, n;
    LANES(I32MIN, I32MAX, 0, M - 1, n = F(poly_make_hint)(&c, &a, &b), (s += c.coeffs[i], c.coeffs[i] == (int32_t) F(make_hint)(x[i], y[i])), "poly_make_hint: every lane")
    ENSURE(n == s, "poly_make_hint: returns the number of hints set");
}
static const int32_t bounds[6] = {GAMMA1 - B_, G2 - B_, G2, (Q - 1) / 8, 1, (Q - 1) / 8 + 1};
/* poly_chknorm: zero exactly when the bound is at most (q-1)/8 and every |a_i| < B */
ENTRY(vf_c20_poly_chknorm_sound, "accepted") {
    int32_t x[N], B; unsigned i;
    ANY32(x, N, "a", -6283009, 6283008);
    B = bounds[vf_choice(6)];
    for (i = 0; i < N; i++) { a.coeffs[i] = x[i]; }
    if (F(poly_chknorm)(&a, B) == 0) {
        ENSURE(B <= (Q - 1) / 8, "poly_chknorm: bounds above (q-1)/8 are refused");
        for (i = 0; i < N; i++) { ENSURE(x[i] < B && -x[i] < B, "poly_chknorm: zero only when every |a_i| < B"); }
        REACH("accepted");
    }
}
#define SMALL(k) ENTRY(vf_c20_poly_chknorm_small##k) { \
    int32_t x[N]; unsigned i; \
    ANY32(x, N, "a", 1 - bounds[k], bounds[k] - 1); \
    for (i = 0; i < N; i++) { a.coeffs[i] = x[i]; } \
    ENSURE(F(poly_chknorm)(&a, bounds[k]) == 0, "poly_chknorm: zero when every |a_i| < B"); \
}
// ENTRY c20_poly_chknorm_small0
SMALL(0)
// ENTRY c20_poly_chknorm_small1
SMALL(1)
// ENTRY c20_poly_chknorm_small2
SMALL(2)
// ENTRY c20_poly_chknorm_small3
SMALL(3)
// ENTRY c20_poly_chknorm_small4
SMALL(4)
