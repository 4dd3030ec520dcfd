/* C25: the incremental sponge equals the one-shot function.  The real FIPS-202 file
   is included so that its static permutation can be replaced by an unknown function
   (verifier) or called by the reference sponge (native replay). */
#include FIPS_C
#include "vf.h"
#if RATE == 168
#define G(n) VF_CAT(shake128, , n)
#else
#define G(n) VF_CAT(shake256, , n)
#endif
#define OUT 24
/* FIPS 202 sponge, byte by byte: out = SHAKE(msg) */
#ifdef VF_NATIVE
void vf_sponge(unsigned char *out, size_t outlen, const unsigned char *m, size_t n, size_t r);
void vf_sponge(unsigned char *out, size_t outlen, const unsigned char *m, size_t n, size_t r) {
    union { uint64_t w[25]; unsigned char b[200]; } s; size_t k = 0;
    memset(&s, 0, sizeof s);
    for (size_t i = 0; i < n; i++) { s.b[k++] ^= m[i]; if (k == r) { PERM(s.w); k = 0; } }
    s.b[k] ^= 0x1f; s.b[r - 1] ^= 0x80; k = r;
    for (size_t i = 0; i < outlen; i++) { if (k == r) { PERM(s.w); k = 0; } out[i] = s.b[k++]; }
}
#else
void vf_sponge(unsigned char *out, size_t outlen, const unsigned char *m, size_t n, size_t r);
#endif
#define R ((size_t) RATE)
static unsigned char msg[4 * RATE + 64], ref[4 * RATE + 64], got[4 * RATE + 64];
/* piece lengths around every boundary that residue p of the block counter gives */
#define NLEN 14
static size_t piece(size_t p, size_t k) {
    switch (k) {
    case 0: return R - p;           /* exactly to the block end */
    case 1: return R - p - 1;       /* one short of it */
    case 2: return 0;
    case 3: return R - p + 1;
    case 4: return 2 * R - p;
    case 5: return 1;
    case 6: return R;
    case 7: return 2 * R - p - 1;
    case 8: return 2 * R - p + 1;
    case 9: return 8;
    case 10: return R - 1;
    case 11: return R + 1;
    case 12: return 3 * R - p;
    default: return 2 * R;
    }
}
static void absorb(size_t lo, size_t hi, size_t nlen) {
    size_t a = lo + vf_choice(hi - lo), k = vf_choice(nlen), n = piece(a, k), rest = 3, total;
    G(incctx) c;
    if (k == 1 || k == 7) rest = 1;   /* the last piece ends exactly at the block end */
    total = a + n + rest;
    ANY(msg, total, "msg");
    G(_inc_init)(&c);
    G(_inc_absorb)(&c, msg, a);
    G(_inc_absorb)(&c, msg + a, n);
    G(_inc_absorb)(&c, msg + a + n, rest);
    G(_inc_finalize)(&c);
    G(_inc_squeeze)(got, OUT, &c);
    G(_inc_ctx_release)(&c);
    vf_sponge(ref, OUT, msg, total, R);
    ENSURE(vf_eq(got, ref, OUT), "absorbing in pieces gives the one-shot digest");
    REACH("absorbed");
}
static void squeeze(size_t lo, size_t hi, size_t nlen) {
    size_t a = lo + vf_choice(hi - lo), n = piece(a, vf_choice(nlen)), m = 5, i;
    G(incctx) c;
    ANY(msg, 5, "msg");
    G(_inc_init)(&c);
    G(_inc_absorb)(&c, msg, 5);
    G(_inc_finalize)(&c);
    for (i = 0; i < sizeof got; i++) got[i] = 0xee;
    G(_inc_squeeze)(got, a, &c);
    G(_inc_squeeze)(got + a, n, &c);
    G(_inc_squeeze)(got + a + n, m, &c);
    G(_inc_ctx_release)(&c);
    vf_sponge(ref, a + n + m, msg, 5, R);
    ENSURE(vf_eq(got, ref, a + n + m), "squeezing in pieces gives the one-shot output");
    for (i = 0; i < 8; i++) ENSURE(got[a + n + m + i] == 0xee, "squeezing writes exactly the bytes asked for");
    REACH("squeezed");
}
static void oneshot_in(size_t lo, size_t hi) {
    size_t n = lo + vf_choice(hi - lo);
    ANY(msg, n, "msg");
    G()(got, OUT, msg, n);
    vf_sponge(ref, OUT, msg, n, R);
    ENSURE(vf_eq(got, ref, OUT), "the one-shot function is the FIPS 202 sponge for every input length");
    REACH("hashed");
}
static void oneshot_out(size_t lo, size_t hi) {
    size_t n = lo + vf_choice(hi - lo), i;
    ANY(msg, 7, "msg");
    for (i = 0; i < 8; i++) got[n + i] = 0xee;
    G()(got, n, msg, 7);
    vf_sponge(ref, n, msg, 7, R);
    ENSURE(vf_eq(got, ref, n), "the one-shot function gives the FIPS 202 output for every output length");
    for (i = 0; i < 8; i++) ENSURE(got[n + i] == 0xee, "the one-shot function writes exactly the bytes asked for");
    REACH("hashed");
}
#ifdef VF_PART
#define LO (VF_PART * R / VF_PARTS)
#define HI ((VF_PART + 1) * R / VF_PARTS)
ENTRY(vf_absorb, "absorbed") { absorb(LO, HI, VF_NLEN); }
ENTRY(vf_squeeze, "squeezed") { squeeze(LO, HI, VF_NLEN); }
ENTRY(vf_oneshot_in, "hashed") { oneshot_in(2 * LO, 2 * HI + 2); }
ENTRY(vf_oneshot_out, "hashed") { oneshot_out(2 * LO, 2 * HI + 2); }
#endif
/* a cloned context continues exactly like the original, and both are independent */
ENTRY(vf_clone, "cloned") {
    size_t a = vf_choice(3) * (R / 2 + 3), s = vf_choice(3) * (R / 2 + 3), phase = vf_choice(2);
    G(incctx) c, d;
    ANY(msg, a + 12, "msg");
    G(_inc_init)(&c);
    G(_inc_absorb)(&c, msg, a);
    if (phase == 0) {
        G(_inc_ctx_clone)(&d, &c);
        G(_inc_absorb)(&c, msg + a, 5);
        G(_inc_absorb)(&d, msg + a + 5, 7);
        G(_inc_finalize)(&c);
        G(_inc_finalize)(&d);
        G(_inc_squeeze)(got, OUT, &c);
        vf_sponge(ref, OUT, msg, a + 5, R);
        ENSURE(vf_eq(got, ref, OUT), "absorbing into a clone does not disturb the original");
        G(_inc_squeeze)(got, OUT, &d);
        for (size_t i = 0; i < 7; i++) msg[a + i] = msg[a + 5 + i];
        vf_sponge(ref, OUT, msg, a + 7, R);
        ENSURE(vf_eq(got, ref, OUT), "a clone continues from the absorbed prefix");
    } else {
        G(_inc_finalize)(&c);
        G(_inc_squeeze)(got, s, &c);
        G(_inc_ctx_clone)(&d, &c);
        G(_inc_squeeze)(got, OUT, &c);
        vf_sponge(ref, s + OUT, msg, a, R);
        ENSURE(vf_eq(got, ref + s, OUT), "the original continues after it was cloned");
        G(_inc_squeeze)(got, OUT, &d);
        ENSURE(vf_eq(got, ref + s, OUT), "a clone squeezes what the original would");
    }
    G(_inc_ctx_release)(&c);
    G(_inc_ctx_release)(&d);
    REACH("cloned");
}
/* absorb + squeezeblocks in any two calls = one-shot */
ENTRY(vf_blocks, "blocks") {
    size_t n = vf_choice(3) * (R - 4), a = vf_choice(3), b = vf_choice(3);
    G(ctx) c, d;
    ANY(msg, n, "msg");
    G(_absorb)(&c, msg, n);
    G(_squeezeblocks)(got, a, &c);
    G(_ctx_clone)(&d, &c);
    G(_squeezeblocks)(got + a * R, b, &c);
    vf_sponge(ref, (a + b) * R, msg, n, R);
    ENSURE(vf_eq(got, ref, (a + b) * R), "squeezing block by block gives the one-shot output");
    G(_squeezeblocks)(got + a * R, b, &d);
    ENSURE(vf_eq(got, ref, (a + b) * R), "a cloned block context squeezes what the original would");
    G(_ctx_release)(&c);
    G(_ctx_release)(&d);
    REACH("blocks");
}
