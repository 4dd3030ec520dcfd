from .dil import *
from .dil import NATIVE_MAIN
COPIES = {'internals': (INTERNALS + '/cfiles/fips202.c', INTERNALS + '/include'), 'common': (PQ + '/pqclean/common/fips202.c', PQ + '/pqclean/common')}
RC = 0x8000000080008008   # last round constant of Keccak-f[1600]
def perm_name(ir):
    """the permutation: the function that uses the table of round constants"""
    if re.search(r'(?m)^define [^\n]*@KeccakF1600_StatePermute\(ptr', ir): return 'KeccakF1600_StatePermute'
    g = re.findall(r'(?m)^@(\w+) = [^\n]*i64 %d\b' % (RC - 2**64), ir)
    c = []
    for m in re.finditer(r'(?ms)^define [^\n]*?@(\w+)\((ptr[^,)]*)\)[^\n]*\{(.*?)^\}', ir):
        if any('@' + x in m.group(3) for x in g): c.append(m.group(1))
    if len(c) != 1: raise Undecided('the Keccak permutation is not recognisable')
    return c[0]
def setup_for(perm):
    def setup(e, key):
        def permute(e, st, v, a, rt):
            t = e.rdterm(st, v[0], 200)
            e.wrterm(st, v[0], tm.uf('keccakf', ((t, 1600),), 1600), 200); return 0
        def sponge(e, st, v, a, rt):
            out, ol, m, n, r = v; ol, n, r = e.conc(st, ol), e.conc(st, n), e.conc(st, r)
            B = e.rdbytes(st, m, n) if n else []
            o = e.alloc(st, 200, 'reference sponge')
            S = [0] * 200; k = 0
            def P():
                nonlocal S
                e.wrbytes(st, o, S)
                e.wrterm(st, o, tm.uf('keccakf', ((e.rdterm(st, o, 200), 1600),), 1600), 200); S = list(e.rdbytes(st, o, 200))
            def val(c): return e.cells2val(st, [c], 8)
            for x in B:
                S[k] = tm.bxor(8, val(S[k]), val(x)); k += 1
                if k == r: P(); k = 0
            S[k] = tm.bxor(8, val(S[k]), 0x1f); S[r - 1] = tm.bxor(8, val(S[r - 1]), 0x80)
            res = []; k = r
            while len(res) < ol:
                if k == r: P(); k = 0
                res.append(S[k]); k += 1
            if ol: e.wrbytes(st, out, res)
            return 0
        def noexit(e, st, v, a, rt):
            from .irsym import PathEnd
            raise PathEnd('exit')
        e.hooks['@' + perm] = permute; e.hooks['@vf_sponge'] = sponge; e.hooks['@exit'] = noexit
    return setup
def main():
    q = TIER == 'quick'
    nlen, parts = (7, 4) if q else (14, 8)
    bound = 'messages and outputs in three pieces: the first of every length below one block, the second of %d lengths around every block boundary that the first leaves (0, 1, up to, just before and just after the next two block ends, one block, ...), the third ending beyond or exactly at a block end; one-shot: every input and every output length from 0 to two blocks. All byte values.' % nlen
    rep = Report('C25', 'other', CMD, TRUST + ['Keccak-f[1600] itself is an unknown function of its 1600-bit state'], ASSUME + ['malloc does not fail'],
                 explanation='Both copies of fips202.c, SHAKE128 and SHAKE256, against a byte-wise FIPS 202 sponge over an unknown permutation. ' + bound)
    rep.cov['bounded'] = bound
    H = VERIF + '/harness/fips/c25.c'; ents = [('vf_absorb', ['absorbed']), ('vf_squeeze', ['squeezed']), ('vf_oneshot_in', ['hashed']), ('vf_oneshot_out', ['hashed']), ('vf_clone', ['cloned']), ('vf_blocks', ['blocks'])]
    jobs = []; conf = {}
    for cp, (f, inc) in COPIES.items():
        for r in (168, 136):
            for p in range(parts):
                k = '%s/shake%d%s' % (cp, 128 if r == 168 else 256, '/%d' % p)
                defs = ['FIPS_C="%s"' % f, 'RATE=%d' % r, 'VF_PART=%d' % p, 'VF_PARTS=%d' % parts, 'VF_NLEN=%d' % nlen, 'VF_SET=2']
                I = ['-I' + VERIF + '/harness/dil', '-I' + inc]
                names = ents if p == 0 else ents[:4]
                ir = build('c25', [H], I, [n for n, _ in names], defs)
                perm = perm_name(ir); SETUPS[k] = setup_for(perm); MODULES[k] = llir.Module(ir); conf[k] = (I, defs + ['PERM=' + perm])
                for n, l in names: jobs.append((k, n, l, {}))
    bad = run_jobs(rep, jobs)
    if bad: report_bad(rep, bad, lambda r: native(rep, [H], conf[r['key']][0], conf[r['key']][1], r, runs=40000))
    rep.finish()
