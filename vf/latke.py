"""Build of the latke crate for the VC generator: the real sources of
/repo/latke (and of the protocol crates pake-cpace, spake2, hmac, hkdf, digest,
pqcrypto-*), linked against contract stubs of the cryptographic primitives, plus
harness entry points appended as one module.  Returns textual LLVM IR."""
import glob, os, re, shutil, time
from . import common as c
from .common import Undecided, REPO, VERIF, run, scratch

STUBS = os.path.join(VERIF, 'harness', 'latke', 'stubs')
PATCHED = ['blake2', 'sha2', 'chacha20', 'getrandom', 'hmac-sha512', 'rand_chacha', 'rand', 'deck-farfalle', 'curve25519-dalek', 'ed25519-dalek', 'x25519-dalek']

def llvm():
    for p in glob.glob(os.path.expanduser('~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/opt')):
        return os.path.dirname(p)
    raise Undecided('llvm-tools of the stable toolchain not found')

def entries(mods):
    """[(name, mode, required labels, module)] of the harness modules"""
    r = []
    for m in mods:
        t = open(os.path.join(VERIF, 'harness/latke', m + '.rs')).read()
        for n, mode, labels in re.findall(r'entry!\(\s*(vf_\w+)\s*,\s*(\w+)\s*,\s*\[([^\]]*)\]', t):
            r.append((n, mode, re.findall(r'"([^"]*)"', labels), m))
    return r

def append(src, mods):
    """accessors of private parts, appended to the copies of the modules"""
    if 'c15' in mods:
        with open(os.path.join(src, 'ibke/id_sigma_r.rs'), 'a') as f: f.write(open(os.path.join(VERIF, 'harness/latke/append_ibke_id_sigma_r.rs')).read())

def build(mods, label='latke'):
    """mods: harness module names (files harness/latke/<m>.rs)"""
    t0 = time.time()
    w = scratch('latke')
    ign = shutil.ignore_patterns('target', 'benches', 'tests', '.git')
    shutil.copytree(os.path.join(REPO, 'latke'), os.path.join(w, 'latke'), ignore=ign)
    os.makedirs(os.path.join(w, 'pqcrypto'))
    for d in ('pqcrypto-dilithium', 'pqcrypto-traits'):
        shutil.copytree(os.path.join(REPO, 'pqcrypto', d), os.path.join(w, 'pqcrypto', d), ignore=ign)
    shutil.copytree(STUBS, os.path.join(w, 'stubs'))
    os.makedirs(os.path.join(w, 'saber-rust'))
    shutil.copytree(os.path.join(STUBS, 'saber'), os.path.join(w, 'saber-rust'), dirs_exist_ok=True)
    shutil.copy(os.path.join(REPO, 'saber-rust/src/newtype.rs'), os.path.join(w, 'saber-rust/src/newtype.rs'))
    ct = os.path.join(w, 'saber-rust', 'Cargo.toml')
    s = open(ct).read().replace('../vfsys', '../stubs/vfsys'); open(ct, 'w').write(s)
    # the Dilithium wrapper crate without its C build; its FFI functions are contracts
    ct = os.path.join(w, 'pqcrypto/pqcrypto-dilithium/Cargo.toml')
    s = open(ct).read()
    s = re.sub(r'(?m)^build\s*=.*\n', '', s); s = re.sub(r'(?m)^links\s*=.*\n', '', s)
    s = strip_sections(s, ('dev-dependencies', 'build-dependencies', 'badges'))
    s = re.sub(r'(?m)^pqcrypto-internals.*\n', '', s)
    s = re.sub(r'(?m)^default\s*=.*$', 'default = ["std"]', s)
    open(ct, 'w').write(s + '\n')
    b = os.path.join(w, 'pqcrypto/pqcrypto-dilithium/build.rs')
    if os.path.exists(b): os.remove(b)
    for f in glob.glob(os.path.join(w, 'pqcrypto/pqcrypto-dilithium/src/*.rs')):
        t = open(f).read()
        t2 = re.sub(r'(?m)^\s*(extern crate|use) pqcrypto_internals[^;]*;\n?', '', t)
        if t2 != t: open(f, 'w').write(t2)
    ct = os.path.join(w, 'pqcrypto/pqcrypto-traits/Cargo.toml')
    s = strip_sections(open(ct).read(), ('dev-dependencies', 'badges')); open(ct, 'w').write(s)
    # latke itself
    ct = os.path.join(w, 'latke/Cargo.toml')
    s = strip_sections(open(ct).read(), ('dev-dependencies', 'bench', 'lib', 'profile.release'))
    s = s.replace('[dependencies]', '[lib]\ncrate-type = ["staticlib"]\n[dependencies]\nvfsys = { path = "../stubs/vfsys" }\n', 1)
    open(ct, 'w').write(s)
    lib = os.path.join(w, 'latke/src/lib.rs')
    t = open(lib).read()
    t += '\n' + ''.join('pub mod vf_%s;\n' % m for m in ['base'] + mods)
    open(lib, 'w').write(t)
    for m in ['base'] + mods:
        shutil.copy(os.path.join(VERIF, 'harness/latke', m + '.rs'), os.path.join(w, 'latke/src/vf_%s.rs' % m))
    append(os.path.join(w, 'latke/src'), mods)
    with open(os.path.join(w, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nresolver = "2"\nmembers = ["latke"]\n[profile.release]\npanic = "abort"\nopt-level = 1\nlto = "fat"\ncodegen-units = 1\noverflow-checks = true\ndebug-assertions = true\n')
        f.write('[patch.crates-io]\n' + ''.join('%s = { path = "stubs/%s" }\n' % (p, p) for p in PATCHED))
    for p in PATCHED: pass
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    rc, out = run(['cargo', 'build', '--release', '--offline', '-p', 'latke'], cwd=w, timeout=400, extra_env={'RUSTFLAGS': '-C save-temps -Awarnings'})
    if rc != 0: raise Undecided('latke with the verification harness does not build:\n' + out[-3000:])
    bc = glob.glob(os.path.join(w, 'target/release/deps/*lto.after-restriction.bc'))
    if not bc: raise Undecided('no LLVM bitcode produced')
    bins = llvm()
    names = [x[0] for x in entries(mods)]
    o = os.path.join(w, 'o.bc')
    rc, out = run([bins + '/opt', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),inline,function(sroa,early-cse,simplifycfg),globaldce',
                   '-internalize-public-api-list=' + ','.join(names), bc[0], '-o', o], timeout=200)
    if rc != 0: raise Undecided('opt: ' + out[-800:])
    rc, out = run([bins + '/llvm-dis', o, '-o', os.path.join(w, 'o.ll')], timeout=100)
    if rc != 0: raise Undecided('llvm-dis: ' + out[-800:])
    txt = open(os.path.join(w, 'o.ll')).read()
    if os.environ.get('VF_KEEP'): shutil.copy(os.path.join(w, 'o.ll'), os.environ['VF_KEEP'])
    shutil.rmtree(os.path.join(w, 'target'), ignore_errors=True)
    return txt, names, time.time() - t0

def strip_sections(s, names):
    out, skip = [], False
    for ln in s.splitlines(True):
        m = re.match(r'\s*\[+([^\]]+)\]+\s*$', ln)
        if m: skip = m.group(1).strip() in names
        if not skip: out.append(ln)
    return ''.join(out)
