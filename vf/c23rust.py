"""Rust layer of C23/C24: the real pqcrypto-dilithium, pqcrypto-traits and
pqcrypto-internals crates (without their C), compiled to LLVM IR with a harness."""
import glob, re
from .dil import *
from . import dil, terms as tm
from .latke import strip_sections, llvm, STUBS
SIZES = {2: (1312, 2560, 2420), 3: (1952, 4032, 3309), 5: (2592, 4896, 4627)}
LIB = os.path.join(VERIF, 'harness/dilrust/lib.rs')
def rust_entries(prefix):
    r = []
    for l in open(LIB):
        m = re.match(r'\s+(vf_\w+) (vf_\w+) (vf_\w+) \w+ \[(.*)\];', l)
        if m: r += [(n, re.findall(r'"([^"]*)"', m.group(4))) for n in m.groups()[:3]]
        m = re.match(r'entry!\((vf_\w+), \[(.*?)\]', l)
        if m: r.append((m.group(1), re.findall(r'"([^"]*)"', m.group(2))))
    return [x for x in r if x[0].startswith(prefix)]
def build_ir(names):
    w = scratch('dilrust')
    ign = shutil.ignore_patterns('target', '.git', 'pqclean', 'cfiles')
    for d in ('pqcrypto-dilithium', 'pqcrypto-traits', 'pqcrypto-internals'):
        shutil.copytree(os.path.join(PQ, d), os.path.join(w, d), ignore=ign)
        ct = os.path.join(w, d, 'Cargo.toml'); s = open(ct).read()
        s = re.sub(r'(?m)^build\s*=.*\n', '', s); s = re.sub(r'(?m)^links\s*=.*\n', '', s)
        s = strip_sections(s, ('dev-dependencies', 'build-dependencies', 'badges')); open(ct, 'w').write(s + '\n')
        b = os.path.join(w, d, 'build.rs')
        if os.path.exists(b): os.remove(b)
    for f in ('vfsys', 'getrandom'): shutil.copytree(os.path.join(STUBS, f), os.path.join(w, 'stubs', f))
    os.makedirs(w + '/h/src'); shutil.copy(LIB, w + '/h/src/lib.rs')
    open(w + '/h/Cargo.toml', 'w').write('[package]\nname = "h"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type = ["staticlib"]\n[dependencies]\nvfsys = { path = "../stubs/vfsys" }\npqcrypto-dilithium = { path = "../pqcrypto-dilithium" }\npqcrypto-traits = { path = "../pqcrypto-traits" }\npqcrypto-internals = { path = "../pqcrypto-internals" }\nlibc = "0.2"\n')
    open(w + '/Cargo.toml', 'w').write('[workspace]\nresolver = "2"\nmembers = ["h"]\n[profile.release]\npanic = "abort"\nopt-level = 1\nlto = "fat"\ncodegen-units = 1\noverflow-checks = true\ndebug-assertions = true\n[patch.crates-io]\ngetrandom = { path = "stubs/getrandom" }\n')
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    rc, out = run(['cargo', 'build', '--release', '--offline', '-p', 'h'], cwd=w, timeout=400, extra_env={'RUSTFLAGS': '-C save-temps -Awarnings --cfg enable_x86_avx2'})
    if rc != 0: raise Undecided('pqcrypto-dilithium with the verification harness does not build:\n' + out[-3000:])
    bc = glob.glob(os.path.join(w, 'target/release/deps/*lto.after-restriction.bc'))
    if not bc: raise Undecided('no LLVM bitcode produced')
    b, o = llvm(), os.path.join(w, 'o.bc')
    rc, out = run([b + '/opt', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),inline,function(sroa,early-cse,simplifycfg),globaldce', '-internalize-public-api-list=' + ','.join(names), bc[0], '-o', o], timeout=200)
    if rc != 0: raise Undecided('opt: ' + out[-800:])
    rc, out = run([b + '/llvm-dis', o, '-o', w + '/o.ll'], timeout=100)
    if rc != 0: raise Undecided('llvm-dis: ' + out[-800:])
    t = open(w + '/o.ll').read()
    if os.environ.get('VF_KEEP'): shutil.copy(w + '/o.ll', os.environ['VF_KEEP'] + 'dilrust.ll')
    shutil.rmtree(w, ignore_errors=True)
    return t
def setup(e, key):
    def mk(s, v):
        pkl, skl, sgl = SIZES[s]
        D = 'dilithium%d' % s
        def sigterm(m, n, k): return tm.uf(D + '-signature', ((m, 8 * n), (k, 8 * skl)), 8 * sgl)
        def accepts(sg, m, n, k): return tm.uf(D + '-verify', ((sg, 8 * sgl), (m, 8 * n), (k, 8 * pkl)), 32)
        def rd(st, p, n): return e.rdterm(st, p, n) if n else 0
        def signature(e, st, a, *_):
            n = e.conc(st, a[3]); e.wrterm(st, a[0], sigterm(rd(st, a[2], n), n, e.rdterm(st, a[4], skl)), sgl); e.wrterm(st, a[1], sgl, 8); return 0
        def verify(e, st, a, *_):
            sl, n = e.conc(st, a[1]), e.conc(st, a[3])
            m, k = rd(st, a[2], n), e.rdterm(st, a[4], pkl); sg = rd(st, a[0], sl)
            return accepts(sg, m, n, k) if sl == sgl else 2**32 - 1
        def sign(e, st, a, *_):
            n = e.conc(st, a[3]); m = rd(st, a[2], n)
            if n: e.wrterm(st, a[0] + sgl, m, n)
            e.wrterm(st, a[0], sigterm(m, n, e.rdterm(st, a[4], skl)), sgl); e.wrterm(st, a[1], sgl + n, 8); return 0
        def open_(e, st, a, *_):
            n = e.conc(st, a[3]); b = rd(st, a[2], n); k = e.rdterm(st, a[4], pkl)
            def fail():
                e.wrterm(st, a[1], 2**64 - 1, 8)
                if n: e.wrterm(st, a[0], 0, n)
                return 2**32 - 1
            if n < sgl: return fail()
            m = rd(st, a[2] + sgl, n - sgl)
            r = accepts(e.rdterm(st, a[2], sgl), m, n - sgl, k)
            ok = tm.eq(32, r, 0)
            e.wrterm(st, a[1], tm.ite(ok, n - sgl, 2**64 - 1, 64), 8)
            if n > sgl: e.wrterm(st, a[0], tm.ite(ok, m, 0, 8 * (n - sgl)), n - sgl)
            e.wrterm(st, a[0] + n - sgl, 0, sgl)
            return r
        def det(e, st, a, *_):
            c = e.rdterm(st, a[0], 32)
            e.wrterm(st, a[1], tm.uf(D + '-pk', ((c, 256),), 8 * pkl), pkl); e.wrterm(st, a[2], tm.uf(D + '-sk', ((c, 256),), 8 * skl), skl); return 0
        def keypair(e, st, a, *_):
            k = st.ghost.get('n:dil-coins', 0); st.ghost['n:dil-coins'] = k + 1
            c = tm.var('dil-coins#%d' % k, 256)
            e.wrterm(st, a[0], tm.uf(D + '-pk', ((c, 256),), 8 * pkl), pkl); e.wrterm(st, a[1], tm.uf(D + '-sk', ((c, 256),), 8 * skl), skl); return 0
        p = '@PQCLEAN_DILITHIUM%d_%s_crypto_sign' % (s, v)
        e.hooks.update({p: sign, p + '_open': open_, p + '_signature': signature, p + '_verify': verify, p + '_keypair': keypair, p + '_keypair_det': det})
    for s in SETS:
        for v in ('CLEAN', 'AVX2'): mk(s, v)
    # CPU feature detection: any answer
    for n in e.mod.funcs:
        if 'std_detect' in n and 'detect_and_initialize' in n: e.hooks[n] = detect
def detect(e, st, v, a, rt):
    if rt in (None, 'void'): raise_unsupported()
    if isinstance(rt, tuple) and rt[0] in 'sa': return [tm.fresh('cpu', x[1]) for x in rt[2]]
    return tm.fresh('cpu', rt[1])
def raise_unsupported():
    from .irsym import Unsupported
    raise Unsupported('CPU feature detection')
def jobs(prefix):
    ents = rust_entries(prefix)
    m = llir.Module(build_ir([n for n, _ in ents]))
    dil.MODULES['rust'] = m; dil.SETUPS['rust'] = setup
    return [('rust', n, l, {}) for n, l in ents], {'rust': ('rust',)}
def native(r):
    """the same harness entry on the real crates with the real C, random inputs"""
    try:
        w = scratch('dilnat')
        os.makedirs(w + '/vfsys/src'); os.makedirs(w + '/h/src')
        shutil.copy(VERIF + '/harness/latke/native/vfsys.rs', w + '/vfsys/src/lib.rs')
        open(w + '/vfsys/Cargo.toml', 'w').write('[package]\nname = "vfsys"\nversion = "0.1.0"\nedition = "2021"\n')
        lib = open(LIB).read().replace('#![allow(dead_code, non_snake_case)]', '')
        open(w + '/h/src/harness.rs', 'w').write(lib)
        main = open(VERIF + '/harness/latke/native/main.rs').read().replace('TABLE', '"%s" => harness::%s, ' % (r['name'], r['name']))
        open(w + '/h/src/main.rs', 'w').write('#![allow(warnings)]\nmod harness;\n' + main)
        open(w + '/h/Cargo.toml', 'w').write('[package]\nname = "h"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 1\n[dependencies]\nvfsys = { path = "../vfsys" }\n' + ''.join('%s = { path = "%s/%s" }\n' % (x, PQ, x) for x in ('pqcrypto-dilithium', 'pqcrypto-traits', 'pqcrypto-internals')) + 'libc = "0.2"\n')
        if os.path.exists(REPO + '/Cargo.lock'): shutil.copy(REPO + '/Cargo.lock', w + '/h/Cargo.lock')
        rc, out = run(['cargo', 'build', '--offline', '-q'], cwd=w + '/h', timeout=min(300, left() - 30), extra_env={'RUSTFLAGS': '--cfg vf_native -Awarnings', 'CARGO_TARGET_DIR': w + '/t'})
        if rc != 0: return False, 'native replay does not build:\n' + out[-2500:]
        rc, out = run([w + '/t/debug/h', '15', r['name']], timeout=60)
        return 'NATIVE-FAIL' in out or rc not in (0, None), '--- random runs of the harness on the real crates ---\n' + out[-3000:]
    except Exception as x: return False, 'native replay not possible: %s' % x
    finally: shutil.rmtree(w, ignore_errors=True)
