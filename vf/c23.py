from .dil import *
from . import c23rust
VARIANTS = ('CLEAN', 'AVX2')
AVX = ['-mavx2', '-mbmi2', '-mbmi', '-maes', '-mpopcnt', '-mpclmul']
def vdir(s, v): return PQ + '/pqclean/crypto_sign/dilithium%d/%s' % (s, v.lower())
SIZES = {2: (1312, 2560, 2420), 3: (1952, 4032, 3309), 5: (2592, 4896, 4627)}
def havoc(e, st, v, a, rt):
    """any effect a callee may have: whatever its pointers reach becomes arbitrary, arbitrary result"""
    from .irsym import PathEnd
    for x in v:
        if not isinstance(x, int) or not x >> 32: continue
        try: o, off = e.obj(st, x, 0, 'access', True)
        except Exception: continue
        n = len(o.cells) - off
        if n > 0: e.wrterm(st, x, tm.fresh('havoc', 8 * n), n)
    if rt in (None, 'void'): return 0
    return tm.fresh('havoc', rt[1] if isinstance(rt, tuple) else 64)
def setup_for(s, v):
    pkl, skl, sgl = SIZES[s]
    pre = '@PQCLEAN_DILITHIUM%d_%s_' % (s, v)
    def setup(e, key):
        name = key.split('/')[-1]
        def signature(e, st, a, *_):
            n = e.conc(st, a[3]); m = e.rdterm(st, a[2], n) if n else 0; k = e.rdterm(st, a[4], skl)
            e.wrterm(st, a[0], tm.uf('signature', ((m, 8 * n), (k, 8 * skl)), 8 * sgl), sgl)
            e.wrterm(st, a[1], sgl, 8); return 0
        def verify(e, st, a, *_):
            sl, n = e.conc(st, a[1]), e.conc(st, a[3])
            if sl != sgl: return 2**32 - 1
            sg = e.rdterm(st, a[0], sl); m = e.rdterm(st, a[2], n) if n else 0; k = e.rdterm(st, a[4], pkl)
            return tm.ite(tm.eq(8, tm.uf('accepts', ((sg, 8 * sl), (m, 8 * n), (k, 8 * pkl)), 8), 0), 0, 2**32 - 1, 32)
        if name == 'wrap':
            e.hooks[pre + 'crypto_sign_signature'] = signature; e.hooks[pre + 'crypto_sign_verify'] = verify
        else:
            for n in (*e.mod.funcs, *e.mod.decls):
                if not n.startswith('@vf_') and not n.startswith('@llvm.') and n not in (pre + 'crypto_sign_verify', '@malloc', '@free', '@memcpy', '@memset', '@memmove', '@memcmp') and (n.startswith('@PQCLEAN') or n.startswith('@shake')): e.hooks[n] = havoc
    return setup
def main():
    bound = 'C layer: message lengths 0, 1, 2, 8, 33, 100 and signed-message lengths 0, 1, 31, sig-1, sig, sig+1, sig+70, separate and documented aliasing buffers. Rust layer: key, signature and message lengths around every boundary. All byte values.'
    rep = Report('C23', 'other', CMD, TRUST + ['rustc and LLVM opt'], ASSUME + ['the signing and verification functions are unknown functions of the bytes they are given'],
                 explanation='Message wrappers of the portable and the AVX2 implementation (parameter sets 2, 3, 5) and the Rust wrappers dilithium2.rs, dilithium3.rs, dilithium5.rs with both dispatch outcomes. ' + bound)
    rep.cov['bounded'] = bound
    H = VERIF + '/harness/dil/c23.c'; jobs, conf = [], {}
    ents = dict(entries('c23.c'))
    for s in SETS:
        for v in VARIANTS:
            d = vdir(s, v)
            I = ['-I' + VERIF + '/harness/dil', '-I' + d, '-I' + INTERNALS + '/include', '-I' + PQ + '/pqclean/common'] + (AVX if v == 'AVX2' else [])
            defs = ['VF_SET=%d' % s, 'VARIANT=' + v]
            m = llir.Module(build('c23', [d + '/sign.c', H], I, list(ents), defs))
            for n, lab in ents.items():
                k = 'dilithium%d/%s/%s' % (s, v, 'len' if n == 'vf_siglen' else 'wrap')
                MODULES[k] = m; SETUPS[k] = setup_for(s, v); conf[k] = (s, v, I, defs)
                jobs.append((k, n, lab, {}))
    rust = c23rust.jobs('vf_w')
    jobs += rust[0]; conf.update(rust[1])
    bad = run_jobs(rep, jobs)
    def nat(r):
        c = conf[r['key']]
        if c[0] == 'rust': return c23rust.native(r)
        s, v, I, defs = c
        import glob
        f = glob.glob(vdir(s, v) + '/*.[cS]') + [INTERNALS + '/cfiles/fips202.c'] + ([x for x in glob.glob(INTERNALS + '/cfiles/*.c') + glob.glob(INTERNALS + '/cfiles/keccak4x/*.c') + glob.glob(INTERNALS + '/cfiles/keccak2x/*.c') if 'fips202x4' in x or 'keccak4x' in x] if v == 'AVX2' else [])
        return native(rep, f + [H], I + ['-I' + INTERNALS + '/cfiles'], defs, r, runs=300, extra='\nint PQCRYPTO_RUST_randombytes(unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (unsigned char) (rnd() >> 33); return 0; }\n')
    if bad: report_bad(rep, bad, nat)
    rep.finish()
