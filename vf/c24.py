from .dil import *
from .dil import NATIVE_MAIN
from . import c23rust
from .c25 import perm_name
POLY = 1024
PACKED = {2: dict(eta=96, t1=320, t0=416, z=576, w1=192), 3: dict(eta=128, t1=320, t0=416, z=640, w1=128), 5: dict(eta=96, t1=320, t0=416, z=640, w1=128)}
# function -> argument modes: r/w/x = polynomial read, written, both; sNN bytes read; v value; bXX packed bytes
OPS = dict(poly_reduce='x', poly_caddq='x', poly_add='w r r', poly_sub='w r r', poly_shiftl='x', poly_ntt='x', poly_invntt_tomont='x',
    poly_pointwise_montgomery='w r r', poly_power2round='w w r', poly_uniform='w s32 v', poly_uniform_eta='w s64 v',
    polyeta_pack='oeta r', polyt1_pack='ot1 r', polyt0_pack='ot0 r')
def op_hook(s, fn, modes):
    def h(e, st, v, a, rt):
        args, outs = [], []
        for m, x in zip(modes.split(), v):
            if m in 'rx': args.append((e.rdterm(st, x, POLY), 8 * POLY))
            elif m[0] == 's': n = int(m[1:]); args.append((e.rdterm(st, x, n), 8 * n))
            elif m == 'v': args.append((x, 16))
            if m in 'wx': outs.append((x, POLY))
            elif m[0] == 'o': outs.append((x, PACKED[s][m[1:]]))
        for i, (x, n) in enumerate(outs): e.wrterm(st, x, tm.uf('%s/%d' % (fn, i), tuple(args), 8 * n), n)
        return 0
    return h
def vars_of(t, memo):
    """names of the variables of a term"""
    if not isinstance(t, T): return frozenset()
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        if x.op == 'var': memo[x.id] = frozenset((x.a[0],)); stack.pop(); continue
        ch = []
        def add(y):
            if isinstance(y, T): ch.append(y)
            elif isinstance(y, tuple):
                for z in y: add(z)
        add(x.a)
        todo = [y for y in ch if y.id not in memo]
        if todo: stack.extend(todo); continue
        r = frozenset()
        for y in ch:
            if not memo[y.id] <= r: r = r | memo[y.id]
        memo[x.id] = r; stack.pop()
    return memo[t.id]
T = tm.T
def vars_hooks(e):
    memo = {}
    def sets(e, st, v):
        from .irsym import cstring
        n, tag, c, f = e.conc(st, v[1]), cstring(e, st, v[2], v[3]), e.conc(st, v[4]), e.conc(st, v[5])
        want = frozenset('%s#%d' % (tag, f + i) for i in range(c))
        cells = e.rdbytes(st, v[0], n)
        return [vars_of(x if x is not None else tm.fresh('uninit', 8), memo) for x in cells], want
    def depall(e, st, v, a, rt): r, w = sets(e, st, v); return int(all(w <= x for x in r))
    def only(e, st, v, a, rt): r, w = sets(e, st, v); return int(all(x <= w for x in r))
    e.hooks['@vf_depall'] = depall; e.hooks['@vf_only'] = only
def rand_hooks(e):
    def rnd(e, st, v, a, rt):
        n = e.conc(st, v[1]); d = list(st.ghost.get('drawn', ())); k = st.ghost.get('n:os', 0)
        new = [tm.var('os#%d' % (k + i), 8) for i in range(n)]
        st.ghost['n:os'] = k + n; st.ghost['drawn'] = tuple(d + new); e.wrbytes(st, v[0], new); return 0
    def drawn(e, st, v, a, rt):
        d = st.ghost.get('drawn', ()); n = e.conc(st, v[1]); st.ghost['drawn'] = ()
        e.wrbytes(st, v[0], list(d[:n])); return len(d)
    for n in ('randombytes', 'PQCRYPTO_RUST_randombytes'): e.hooks['@' + n] = rnd
    e.hooks['@vf_drawn'] = drawn
def setup_for(s, perm):
    def setup(e, key):
        for fn, m in OPS.items(): e.hooks['@PQCLEAN_DILITHIUM%d_CLEAN_%s' % (s, fn)] = op_hook(s, fn, m)
        def permute(e, st, v, a, rt):
            e.wrterm(st, v[0], tm.uf('keccakf', ((e.rdterm(st, v[0], 200), 1600),), 1600), 200); return 0
        e.hooks['@' + perm] = permute
        vars_hooks(e); rand_hooks(e)
    return setup
EXTRA = '''
static unsigned char dr[4096]; static size_t nd;
int PQCRYPTO_RUST_randombytes(unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) { b[i] = (unsigned char) (rnd() >> 33); if (nd < sizeof dr) dr[nd++] = b[i]; } return 0; }
_Bool vf_depall(const void *p, size_t n, const char *t, size_t l, size_t c, size_t f) { return 1; }
_Bool vf_only(const void *p, size_t n, const char *t, size_t l, size_t c, size_t f) { return 1; }
size_t vf_drawn(void *p, size_t n) { size_t r = nd; memcpy(p, dr, n); nd = 0; return r; }
'''
SRC = ['sign.c', 'polyvec.c', 'packing.c']
def main():
    rep = Report('C24', 'proof', CMD, TRUST + ['rustc and LLVM opt'], ASSUME + ['the polynomial operations of poly.c (sampling, NTT, arithmetic, packing) and Keccak-f are functions of exactly the bytes they are given', 'malloc does not fail', 'the Rust layer sees the C key generation as an unknown function of the seed'],
                 explanation='crypto_sign_keypair and crypto_sign_keypair_det of the portable implementation (sign.c, polyvec.c, packing.c, fips202.c really executed; poly.c and the permutation by contract) for all seeds, three parameter sets; keypair and keypair_det of the Rust wrappers with both dispatch outcomes; PQCRYPTO_RUST_randombytes.')
    H = VERIF + '/harness/dil/c24.c'; FI = INTERNALS + '/cfiles/fips202.c'; ents = entries('c24.c'); jobs, conf = [], {}
    for s in SETS:
        k = 'dilithium%d' % s; d = setdir(s); extra = [d + '/' + f for f in FILES if f not in SRC]
        ir = build('c24', [d + '/' + f for f in SRC + [f for f in FILES if f not in SRC]] + [FI, H], incs(s), [n for n, _ in ents], ['VF_SET=%d' % s])
        MODULES[k] = llir.Module(ir); SETUPS[k] = setup_for(s, perm_name(ir))
        conf[k] = s
        jobs += [(k, n, l, {}) for n, l in ents]
    rj, rc = c23rust.jobs('vf_k'); jobs += rj
    bad = run_jobs(rep, jobs)
    def nat(r):
        if r['key'] == 'rust': return c23rust.native(r)
        s = conf[r['key']]
        import glob
        return native(rep, glob.glob(setdir(s) + '/*.c') + [FI, H], incs(s), ['VF_SET=%d' % s], r, runs=40, extra=EXTRA)
    if bad: report_bad(rep, bad, nat)
    rep.finish()
