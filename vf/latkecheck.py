"""Common driver of the latke properties: contract verification of the real
crate by symbolic execution of its LLVM IR, one process per harness entry."""
import multiprocessing as mp, resource, traceback
from .common import *
from . import latke, terms as tm

ASSUME_EXACT = ['the external primitives (BLAKE2, SHA-2, ChaCha20, Kravatte, ed25519, X25519, LightSaber IND-CPA KEM, Dilithium, curve25519 group) are replaced by contracts: unknown functions of exactly the bytes they are given; the group is any prime-order group (scalars and points as polynomials over unknown discrete logarithms); signatures verify when made with the matching key; decapsulation inverts encapsulation',
    'compiler: the obligations are generated from the LLVM IR rustc emits for the real crate (release profile, overflow checks and debug assertions on, panic=abort); usize is 64 bits; allocation succeeds']
ASSUME_IDEAL = ['rejection and disagreement obligations additionally assume ideal primitives: different inputs of an unknown function give unrelated outputs, adversarial bytes do not equal values of it, a signature under an honest key that was never made does not verify']

_mod = None
def work(job):
    name, mode, tmo, dl = job
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    from . import irsym, crypto
    tm.reset(); crypto.ideal(mode == 'ideal')
    e = irsym.Engine(_mod, hooks=crypto.dil_hooks(), timeout_ms=tmo, deadline=dl)
    und = None; t = time.time()
    try: e.run(name)
    except (irsym.Undecided, irsym.Unsupported) as x: und = '%s: %s' % (type(x).__name__, x)
    except MemoryError: und = 'out of memory'
    except Exception: und = 'engine: ' + traceback.format_exc()[-1500:]
    return dict(name=name, obl=e.obl, viol=e.viol, reached=e.reached, ends=len(e.ends), paths=e.paths, solver_s=e.solver_s,
                queries=e.queries, steps=e.steps, funcs=sorted(e.funcs_run), used=sorted(e.used), und=und, wall=time.time() - t)

def demangle(names):
    rc, out = run(['rustfilt'], inp='\n'.join(names), timeout=20) if shutil.which('rustfilt') else (1, '')
    return out.split('\n') if rc == 0 else names
MODS = ('ibke', 'pake', 'latke', 'chip', 'eue_transform', 'auth_enc', 'ideal_cipher')
def crate_functions(names):
    """names of the functions of the crate itself, from the v0 mangling"""
    r = set()
    for n in names:
        if '5latke' not in n: continue
        out, i = [], 0
        for m in re.finditer(r'(\d+)', n):
            if m.start() < i: continue
            k = int(m.group(1)); s = n[m.end():m.end() + k].lstrip('_') if k < 64 else ''
            if s and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', s): out.append(s); i = m.end() + k
        k = [j for j, x in enumerate(out) if x in MODS]
        if k and not any(x.startswith('vf_') for x in out[:k[0] + 1]): out = [x for x in out[k[0]:] if not x.startswith('vf_')]; r.add('::'.join(x for x in out if x not in ('latke',))[:80])
    return sorted(r)

def main(prop, mods, level='proof', bounded=None, explanation='', files=(), thorough=None):
    """bounded: list of (regex over entry names, text)"""
    global _mod
    rep = Report(prop, level, 'LLVM IR of the real crate -> verification conditions (vf/irsym.py) -> term normal form and z3 ' + '(one obligation per check, path and call site)',
        ['vf/irsym.py + vf/terms.py (verification condition generator)', 'z3 %s' % __import__('z3').get_version_string(), 'rustc and LLVM opt (sroa, simplifycfg, inline)'],
        ASSUME_EXACT, explanation=explanation)
    rep.cov['bounded_obligations'] = 0
    txt, names, secs = latke.build(mods, prop)
    from . import llir
    _mod = llir.Module(txt)
    ents = [e for e in latke.entries(mods) if TIER == 'thorough' or not e[0].startswith('vf_t')]
    if any(e[1] == 'ideal' for e in ents): rep.assumptions += ASSUME_IDEAL
    dl = time.time() + max(30, min(left() - 140, 3000))
    jobs = [(e[0], e[1], 60000 if TIER == 'quick' else 300000, dl) for e in ents]
    res = pmap(work, jobs, lambda j, c: dict(name=j[0], obl={}, viol=[], reached={}, ends=[], paths=0, solver_s=0, queries=0, steps=0, funcs=[], used=[], und='worker process ended with %s' % c, wall=0))
    byname = {r['name']: r for r in res}
    bad, fns, used = [], set(), set()
    for n, mode, labels, m in ents:
        r = byname[n]
        fns.update(r['funcs']); used.update(r['used'])
        b = next((t for rx, t in (bounded or []) if re.search(rx, n)), None)
        lost = [l for l in labels if not r['reached'].get(l)]
        if r['viol']:
            bad.append(r)
            rep.obligation(n, 'irsym+z3', False, 1, r['solver_s'], note=r['viol'][0]['label'])
            continue
        if r['und']: rep.undecided.append('%s: %s' % (n, r['und'])); continue
        if lost: rep.undecided.append('%s: vacuous: never reached: %s' % (n, lost)); continue
        for lab, (cnt, by, s) in sorted(r['obl'].items()):
            add(rep, '%s: %s' % (n, lab), cnt, by, s, b)
        add(rep, '%s: no panic, abort, out-of-bounds access or failed assertion on any of %d paths' % (n, r['paths']), max(1, r['paths']), r['queries'], max(0, r['solver_s'] - sum(o[2] for o in r['obl'].values())), b)
    rep.cov['functions_under_contract'] = crate_functions(fns)
    rep.cov['contracts_used'] = sorted(used)
    rep.cov['llvm_functions_executed'] = len(fns)
    rep.cov['paths'] = sum(r['paths'] for r in res); rep.cov['instructions'] = sum(r['steps'] for r in res); rep.cov['solver_queries'] = sum(r['queries'] for r in res)
    rep.cov['build_s'] = round(secs, 1)
    if bad:
        conf, out = native(prop, mods, [r['name'] for r in bad])
        txt = ''
        for r in bad:
            for v in r['viol']:
                txt += 'harness entry %s\nfailed obligation: %s\nat: %s\npath condition: %s\nmodel: %s\n\n' % (r['name'], v['label'], v['where'], v['pc'][-6:], {k: hex(x) for k, x in list(v['model'].items())[:30]})
        rep.violation('%s: %s' % (bad[0]['name'], bad[0]['viol'][0]['label']), txt + out, conf)
    rep.finish()

def add(rep, name, cnt, by, s, b):
    back = 'z3' if by else 'term normal form'
    if b:
        rep.cov['bounded_obligations'] += cnt
        rep.cov['solver_s'] = round(rep.cov['solver_s'] + s, 3)
        rep.cov['harnesses'].append(dict(name=name, backend=back, result='discharged', obligations=cnt, solver_s=round(s, 3), bounded=b))
    else: rep.obligation(name, back, True, cnt, s)

def native(prop, mods, names):
    """random runs of the same harness entries on the real crate with the real cryptography"""
    if left() < 60: return False, 'no time left for a native replay'
    try:
        w = scratch('native')
        ign = shutil.ignore_patterns('target', '.git', 'benches')
        shutil.copytree(REPO, os.path.join(w, 'r'), ignore=ign)
        r = os.path.join(w, 'r')
        L = os.path.join(r, 'latke')
        os.makedirs(os.path.join(w, 'vfsys/src'))
        shutil.copy(os.path.join(VERIF, 'harness/latke/native/vfsys.rs'), os.path.join(w, 'vfsys/src/lib.rs'))
        open(os.path.join(w, 'vfsys/Cargo.toml'), 'w').write('[package]\nname = "vfsys"\nversion = "0.1.0"\nedition = "2021"\n')
        ct = os.path.join(L, 'Cargo.toml')
        s = latke.strip_sections(open(ct).read(), ('bench', 'dev-dependencies'))
        s = s.replace('[dependencies]', '[dependencies]\nvfsys = { path = "../../vfsys" }\n', 1)
        open(ct, 'w').write(s)
        open(os.path.join(r, 'Cargo.toml'), 'a').write('\n[profile.dev]\nopt-level = 1\n')
        with open(os.path.join(L, 'src/lib.rs'), 'a') as f: f.write('\n' + ''.join('pub mod vf_%s;\n' % m for m in ['base'] + mods))
        for m in ['base'] + mods: shutil.copy(os.path.join(VERIF, 'harness/latke', m + '.rs'), os.path.join(L, 'src/vf_%s.rs' % m))
        latke.append(os.path.join(L, 'src'), mods)
        tab = ''.join('"%s" => latke::vf_%s::%s, ' % (e[0], e[3], e[0]) for e in latke.entries(mods))
        os.makedirs(os.path.join(L, 'src/bin'), exist_ok=True)
        open(os.path.join(L, 'src/bin/vfnative.rs'), 'w').write(open(os.path.join(VERIF, 'harness/latke/native/main.rs')).read().replace('TABLE', tab))
        rc, out = run(['cargo', 'build', '--offline', '-p', 'latke', '--bin', 'vfnative'], cwd=r, timeout=min(300, left() - 30), extra_env={'RUSTFLAGS': '--cfg vf_native -Awarnings'})
        if rc != 0: return False, 'native replay does not build:\n' + out[-2500:]
        k = names[:6]
        rc, out = run([os.path.join(r, 'target/debug/vfnative'), '12'] + k, timeout=min(12 * len(k) + 40, max(5, left() - 10)), extra_env={'RUST_BACKTRACE': '0'})
        return 'NATIVE-FAIL' in out, '--- random runs of the harness on the real crate with the real primitives ---\n' + out[-4000:]
    except Exception as e:
        return False, 'native replay not possible: %s' % e
    finally:
        shutil.rmtree(os.path.join(w, 'r', 'target'), ignore_errors=True)
