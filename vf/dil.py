"""Contract verification of the real Dilithium C (portable implementation): the C
of /repo is compiled with a harness to LLVM IR, from which irsym generates the
verification conditions.  One process per (parameter set, harness entry)."""
import multiprocessing as mp, resource, traceback, random
from .common import *
from . import terms as tm, latke, llir
PQ = os.path.join(REPO, 'pqcrypto')
SETS = (2, 3, 5)
INTERNALS = PQ + '/pqcrypto-internals'
def setdir(s): return PQ + '/pqclean/crypto_sign/dilithium%d/clean' % s
def incs(s): return ['-I' + x for x in (VERIF + '/harness/dil', INTERNALS + '/include', PQ + '/pqclean/common', setdir(s))]
def entries(h):
    t = open(os.path.join(VERIF, 'harness/dil', h)).read()
    return [(n, re.findall(r'"([^"]*)"', l)) for n, l in re.findall(r'(?m)^ENTRY\((vf_\w+)\s*,?\s*([^)]*)\)', t)] + [('vf_' + n, []) for n in re.findall(r'(?m)^// ENTRY (\w+)', t)]
def clang():
    for c in ('clang-18', 'clang'):
        if shutil.which(c): return c
    raise Undecided('clang not found')
def link(): return latke.llvm() + '/llvm-link'
def build(tag, srcs, inc, names, defs=()):
    """-> LLVM IR text of the sources, unoptimised except mem2reg-like clean-up"""
    w = scratch(tag)
    bcs = []
    ps = []
    for i, s in enumerate(srcs):
        o = os.path.join(w, '%d.bc' % i); bcs.append(o)
        ps.append((s, ['clang-18' if shutil.which('clang-18') else clang(), '-std=gnu11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-w', '-c', '-emit-llvm', *inc, *['-D' + d for d in defs], s, '-o', o]))
    for s, cmd in ps:
        rc, log = run(cmd, timeout=100)
        if rc != 0: raise Undecided('%s does not compile for the verifier: %s' % (s, log[-1500:]))
    b = latke.llvm()
    rc, log = run([link(), *bcs, '-o', w + '/a.bc'], timeout=60)
    if rc != 0: raise Undecided('llvm-link: ' + log[-800:])
    rc, log = run([b + '/opt', '-passes=internalize,globaldce,function(sroa,early-cse)', '-internalize-public-api-list=' + ','.join(names), w + '/a.bc', '-o', w + '/o.bc'], timeout=100)
    if rc != 0: raise Undecided('opt: ' + log[-800:])
    rc, log = run([b + '/llvm-dis', w + '/o.bc', '-o', w + '/o.ll'], timeout=60)
    if rc != 0: raise Undecided('llvm-dis: ' + log[-800:])
    t = open(w + '/o.ll').read()
    if os.environ.get('VF_KEEP'): shutil.copy(w + '/o.ll', os.environ['VF_KEEP'] + tag + '.ll')
    shutil.rmtree(w, ignore_errors=True)
    return t

# ------------------------------------------------------------------ hooks
def any_hook(sz):
    w = 8 * sz
    def h(e, st, v, a, rt):
        from .irsym import cstring
        n = e.conc(st, v[1], 'size'); tag = cstring(e, st, v[2], v[3])
        k = st.ghost.get('n:' + tag, 0); st.ghost['n:' + tag] = k + 1
        lo, hi = tm.sgn(v[4], w), tm.sgn(v[5], w)
        cells = []
        for i in range(n):
            nm = '%s#%d[%d]' % (tag, k, i)
            if (lo, hi) != (-2**(w - 1), 2**(w - 1) - 1): tm.RANGES[nm] = (lo, hi)
            cells += e.val2cells(tm.var(nm, w), sz)
        e.wrbytes(st, v[0], cells)
        return 0
    return h
def merged(name):
    """function call summarised: all its paths are executed on their own and
    joined into one state (ite over the path conditions)"""
    from .irsym import PathEnd, Enough
    def h(e, st, v, a, rt):
        base = st.fork(); base.frames = []
        npc = len(base.pc)
        snap = dict(base.mem)
        e.call(base, name, v, rt=rt)
        work, done = [base], []
        while work:
            s = work.pop()
            try: e.path(s, work)
            except PathEnd as x:
                if x.kind == 'return': done.append(s)
                elif x.kind == 'infeasible': continue
                else: raise
        if not done: raise PathEnd('infeasible')
        conds = []
        for s in done:
            c = 1
            for p in s.pc[npc:]: c = tm.land(c, p)
            conds.append(c)
        if len(done) == 1:
            for p in done[0].pc[npc:]: e.addpc(st, p)
        ids = set()
        for s in done:
            for i, o in s.mem.items():
                if i in snap and snap[i] is not o: ids.add(i)
        for i in sorted(ids):
            old = snap[i].cells
            objs = [s.mem[i] for s in done]
            for k in range(len(old)):
                cs = [o.cells[k] for o in objs]
                if all(c is old[k] or (isinstance(c, int) and isinstance(old[k], int) and c == old[k]) for c in cs): continue
                x = cs[-1]
                if x is None: x = tm.fresh('uninit', 8)
                for c, y in zip(reversed(conds[:-1]), reversed(cs[:-1])):
                    if y is None: y = tm.fresh('uninit', 8)
                    x = tm.ite(c, y, x, 8)
                e.wrbytes(st, (i << 32) + 0x40000000 + k, [x])
        r = done[-1].ghost.get('ret')
        if r is None: return 0
        w = rt[1] if isinstance(rt, tuple) else 64
        for c, s in zip(reversed(conds[:-1]), reversed(done[:-1])): r = tm.ite(c, s.ghost['ret'], r, w)
        return r
    return h

# ------------------------------------------------------------------ running
MODULES, SETUPS = {}, {}
def hooks_for(mod, kinds):
    hk = {'@vf_any32': any_hook(4), '@vf_any64': any_hook(8)}
    for m in kinds.get('merge', ()):
        for n in mod.funcs:
            if n.endswith('_CLEAN_' + m): hk[n] = merged(n)
    return hk
def work(job):
    key, name, opt, tmo, dl = job
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    from . import irsym
    tm.reset(); mod = MODULES[key]
    und = None; t = time.time()
    e = irsym.Engine(mod, hooks={}, check_nsw=opt.get('nsw', True), timeout_ms=tmo, deadline=dl, max_steps=opt.get('steps', 60_000_000))
    try:
        e.hooks.update(hooks_for(mod, opt))
        if key in SETUPS: SETUPS[key](e, key)
        e.run(name)
    except (irsym.Undecided, irsym.Unsupported, Undecided) as x: und = '%s: %s' % (type(x).__name__, x)
    except irsym.Enough: pass
    except MemoryError: und = 'out of memory'
    except Exception: und = 'engine: ' + traceback.format_exc()[-1500:]
    fns = sorted({n.lstrip('@').split('_CLEAN_')[-1] for n in e.funcs_run if not n.startswith('@vf_') and n not in e.hooks})
    return dict(key=key, name=name, obl=e.obl, viol=e.viol, reached=e.reached, ends=list(e.ends), paths=e.paths, solver_s=e.solver_s,
                queries=e.queries, steps=e.steps, funcs=fns, used=sorted(e.used), und=und, wall=time.time() - t)

def run_jobs(rep, jobs):
    """jobs: (key, entry, labels, opt); returns the results with violations"""
    dl = time.time() + max(30, min(left() - 140, 3000))
    tmo = 120000 if TIER == 'quick' else 300000
    died = lambda j, c: dict(key=j[0], name=j[1], obl={}, viol=[], reached={}, ends=[], paths=0, solver_s=0, queries=0, steps=0, funcs=[], used=[], und='worker process ended with %s' % c, wall=0)
    res = pmap(work, [(k, n, o, tmo, dl) for k, n, l, o in jobs], died)
    bad, fns, used = [], set(), set()
    for (k, n, labels, o), r in zip(jobs, res):
        nm = '%s/%s' % (k, n)
        if os.environ.get('VF_TIME'): print('%-44s %6.1fs paths=%d steps=%d queries=%d solver=%.1fs %s' % (nm, r['wall'], r['paths'], r['steps'], r['queries'], r['solver_s'], (r['und'] or '')[-400:]), r['viol'] and r['viol'][0]['label'] or '')
        fns.update(r['funcs']); used.update(r['used'])
        if r['viol']:
            bad.append(r); rep.obligation(nm, 'irsym+z3', False, 1, r['solver_s'], note=r['viol'][0]['label']); continue
        if r['und']: rep.undecided.append('%s: %s' % (nm, r['und'])); continue
        lost = [l for l in labels if not r['reached'].get(l)]
        if lost or 'return' not in r['ends']: rep.undecided.append('%s: vacuous: never reached: %s' % (nm, lost or 'the end')); continue
        for lab, (cnt, by, s) in sorted(r['obl'].items()): rep.obligation('%s: %s' % (nm, lab), 'z3' if by else 'term normal form and intervals', True, cnt, s)
        rep.obligation('%s: every memory access of %d paths within its object' % (nm, r['paths']), 'irsym', True, max(1, r['paths']))
    rep.cov['functions_under_contract'] = sorted(fns)
    rep.cov['contracts_used'] = sorted(used)
    rep.cov['paths'] = rep.cov.get('paths', 0) + sum(r['paths'] for r in res)
    rep.cov['instructions'] = rep.cov.get('instructions', 0) + sum(r['steps'] for r in res)
    rep.cov['solver_queries'] = rep.cov.get('solver_queries', 0) + sum(r['queries'] for r in res)
    return bad

NATIVE_MAIN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include "vf.h"
static jmp_buf out; static int failed; static unsigned long long rs; static int usemodel; static size_t ch[4]; static int nch;
static unsigned long long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static FILE *mf;
static int model(const char *tag, size_t l, int k, long i, void *p, size_t n) {
    char nm[96], key[96], hex[40000]; 
    if (!usemodel || !mf) return 0;
    if (i < 0) snprintf(nm, sizeof nm, "%.*s#%d", (int) l, tag, k); else snprintf(nm, sizeof nm, "%.*s#%d[%ld]", (int) l, tag, k, i);
    rewind(mf);
    while (fscanf(mf, "%95s %39999s", key, hex) == 2) if (!strcmp(key, nm)) {
        memset(p, 0, n); size_t h = strlen(hex) / 2;
        for (size_t j = 0; j < n && j < h; j++) { unsigned x; sscanf(hex + 2 * j, "%2x", &x); ((unsigned char *) p)[j] = (unsigned char) x; }
        return 1;
    }
    return 0;
}
static struct { char t[32]; int n; } cnt[64];
static int idx(const char *tag, size_t l) { for (int i = 0; i < 64; i++) { if (!cnt[i].t[0]) { memcpy(cnt[i].t, tag, l < 31 ? l : 31); return cnt[i].n++; } if (strlen(cnt[i].t) == l && !memcmp(cnt[i].t, tag, l)) return cnt[i].n++; } return 0; }
void vf_any(void *p, size_t n, const char *tag, size_t l) { int k = idx(tag, l); if (model(tag, l, k, -1, p, n)) return; int m = (int) (rnd() % 4); for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = (unsigned char) (m == 0 ? 0 : m == 1 ? 255 : rnd() >> 40); }
void vf_any32(int32_t *p, size_t n, const char *tag, size_t l, int32_t lo, int32_t hi) { int k = idx(tag, l);
    for (size_t i = 0; i < n; i++) { if (model(tag, l, k, (long) i, p + i, 4)) continue; int m = (int) (rnd() % 6); uint64_t w = (uint64_t) ((int64_t) hi - lo) + 1;
        p[i] = (int32_t) (m == 0 ? lo : m == 1 ? hi : lo + (int64_t) ((rnd() >> 8) % w)); } }
void vf_any64(int64_t *p, size_t n, const char *tag, size_t l, int64_t lo, int64_t hi) { int k = idx(tag, l);
    for (size_t i = 0; i < n; i++) { if (model(tag, l, k, (long) i, p + i, 8)) continue; int m = (int) (rnd() % 6); uint64_t w = (uint64_t) hi - (uint64_t) lo + 1;
        p[i] = m == 0 ? lo : m == 1 ? hi : (int64_t) ((uint64_t) lo + rnd() % w); } }
void vf_assume(_Bool c) { if (!c) longjmp(out, 1); }
void vf_assert(_Bool c, const char *m, size_t l) { if (!c) { printf("NATIVE-FAIL: %.*s\n", (int) l, m); failed = 1; longjmp(out, 2); } }
void vf_reach(const char *m, size_t l) { (void) m; (void) l; }
size_t vf_choice(size_t n) { size_t c = 0; char t[8] = "choice"; int k = idx(t, 6); if (model(t, 6, k, -1, &c, 8)) return c % n; return rnd() % n; }
_Bool vf_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
int main(int argc, char **argv) {
    mf = argc > 1 ? fopen(argv[1], "r") : NULL;
    for (volatile int it = 0; it < RUNS && !failed; it++) {
        rs = 88172645463325252ULL + 7919ULL * it; usemodel = it == 0; memset(cnt, 0, sizeof cnt);
        if (setjmp(out) == 0) ENTRYNAME();
    }
    printf(failed ? "NATIVE-DONE violated\n" : "NATIVE-DONE quiet\n");
    return failed;
}
'''
def native(rep, srcs, inc, defs, r, extra='', runs=2000):
    """replay on the compiled real C: the solver's model first, then random inputs"""
    try:
        w = scratch('nat')
        model = r['viol'][0]['model']
        with open(w + '/m', 'w') as f:
            for k, v in model.items():
                n = max(8, (v.bit_length() + 7) // 8); f.write('%s %s\n' % (k, v.to_bytes(n, 'little').hex()))
        open(w + '/main.c', 'w').write(NATIVE_MAIN.replace('ENTRYNAME', r['name']).replace('RUNS', str(runs)).replace('#include "vf.h"', '#include "vf.h"\nvoid %s(void);\n' % r['name']) + extra)
        rc, log = run(['gcc', '-std=gnu11', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=shift', *inc, *['-D' + d for d in defs], '-DVF_NATIVE', *srcs, w + '/main.c', '-o', w + '/x'], timeout=120)
        if rc != 0: return False, 'native replay does not build:\n' + log[-2000:]
        rc, log = run([w + '/x', w + '/m'], timeout=60, extra_env={'ASAN_OPTIONS': 'detect_leaks=0'})
        shutil.rmtree(w, ignore_errors=True)
        return bool(rc not in (0, None) and ('NATIVE-FAIL' in log or 'AddressSanitizer' in log or 'runtime error' in log)), '--- native replay of %s (%s) on the real C ---\n%s' % (r['name'], r['key'], log[-3000:])
    except Exception as x: return False, 'native replay not possible: %s' % x

def report_bad(rep, bad, nat):
    txt = ''
    for r in bad:
        for v in r['viol']:
            txt += '%s, harness entry %s\nfailed obligation: %s\nat: %s\npath condition: %s\nmodel: %s\n\n' % (r['key'], r['name'], v['label'], v['where'], v['pc'][-6:], {k: hex(x) for k, x in list(v['model'].items())[:30]})
    conf, out = False, ''
    for r in bad[:4]:
        c, o = nat(r); out += o + '\n'
        if c: conf = True; break
    rep.violation('%s/%s: %s' % (bad[0]['key'], bad[0]['name'], bad[0]['viol'][0]['label']), txt + out, conf)
ASSUME = ['compiler: the obligations are generated from the LLVM IR clang 18 emits for the real C (no optimisation beyond register promotion); two\'s-complement int and arithmetic right shift of negative values; usize is 64 bits']
TRUST = ['vf/irsym.py + vf/terms.py (verification condition generator)', 'z3', 'clang 18, LLVM opt (sroa, early-cse)']
CMD = 'LLVM IR of the real C (clang) -> verification conditions (vf/irsym.py) -> term normal form, intervals and z3'

FILES = ['reduce.c', 'rounding.c', 'poly.c', 'polyvec.c', 'ntt.c', 'packing.c', 'symmetric-shake.c']
def check(rep, harness, files=FILES, opt=lambda name, s: {}, sets=SETS, defs=(), only=None):
    H = VERIF + '/harness/dil/' + harness
    ents = entries(harness); jobs = []
    for s in sets:
        k = 'dilithium%d' % s
        MODULES[k] = llir.Module(build(k, [setdir(s) + '/' + f for f in files] + [H], incs(s), [e[0] for e in ents], ['VF_SET=%d' % s, *defs]))
        for n, l in ents:
            if only and only not in n: continue
            jobs.append((k, n, l, opt(n, s)))
    bad = run_jobs(rep, jobs)
    if bad: report_bad(rep, bad, lambda r: native(rep, [setdir(int(r['key'][-1])) + '/' + f for f in files] + [INTERNALS + '/cfiles/fips202.c', H], incs(int(r['key'][-1])), ['VF_SET=' + r['key'][-1], *defs], r))
    rep.finish()
