from .common import *
import concurrent.futures as cf
V = ('lightsaber', 'saber', 'firesaber')

def make(d, symbolic):
    shutil.copytree(os.path.join(REPO, 'saber-rust'), d + '/saber', ignore=shutil.ignore_patterns('target'))
    shutil.copy(os.path.join(VERIF, 'locks', 'workspace.lock') if not os.path.exists(os.path.join(REPO, 'Cargo.lock')) else os.path.join(REPO, 'Cargo.lock'), d + '/saber/Cargo.lock')
    src = 'vf_ring.rs' if symbolic else 'vf_replay.rs'
    c = d + '/saber/Cargo.toml'
    t = open(c).read()
    if symbolic:
        shutil.copytree(os.path.join(VERIF, 'harness/ring/secret_integers'), d + '/si')
        t, n = re.subn(r'(?m)^secret_integers\s*=.*$', 'secret_integers = { path = "../si" }', t)
        if n != 1: raise Undecided('lost anchor: the secret_integers dependency')
    open(c, 'w').write(t + '\n[workspace]\n')
    shutil.copy(os.path.join(VERIF, 'harness/ring', src), d + '/saber/src/vf_ring.rs')
    open(d + '/saber/src/lib.rs', 'a').write('\n#[cfg(test)] mod vf_ring;\n')
    for m in V:
        fn = d + '/saber/src/%s.rs' % m
        g = re.search(r'SaberImpl\s+for\s+(\w+)', open(fn).read())
        if not g: raise Undecided('lost anchor: impl SaberImpl in ' + m)
        call = 'crate::vf_ring::linear::<super::%s>(%s)' % (g.group(1), '"%s"' % m if symbolic else '')
        open(fn, 'a').write('\n#[cfg(test)] mod vf_ring_t { #[test] fn vfreplay_linear() { %s } }\n' % call)

def z3(path):
    t = time.time()
    rc, out = run(['z3', '-T:300', path])
    return out, time.time() - t

def main():
    rep = Report('C03', 'proof', 'symbolic execution of the real crate over bit-vector terms + z3 QF_BV, one obligation per coefficient; cargo kani for the secret_integers contract',
        ['z3 4.8.12', 'rustc (the obligations are generated by running the compiled real code on terms)', 'Kani 0.68.0 / CBMC 6.11.0 for the secret_integers contract'],
        ['the only text changed is the secret_integers dependency: its U16 is replaced by a term type; the meaning of each of its operations is proved on the real dependency by the same check'],
        functions=['Poly: Add, Sub, Add<U16>, Sub<U16>, Mul, Shl, Shr, reduce, default', 'Vector::mul, add_vec, add_u16, shr', 'Matrix::mul, mul_transpose', 'secret_integers::U16 operators'],
        explanation='Every output coefficient is proved equal to its closed form for all coefficient values; shift amounts 0..15 and moduli 2^0..2^15 are enumerated; K = 2, 3, 4.')
    d = scratch('c03')
    make(d, True)
    os.makedirs(d + '/out')
    rc, log = run(['cargo', 'test', '--lib', '--release', '--', 'vfreplay_linear', 'vf_ring::poly_ops'], cwd=d + '/saber', extra_env={'VF_OUT': d + '/out', 'RUSTFLAGS': '-Awarnings'}, timeout=400)
    dk = os.path.join(d, 'k'); copy_saber(dk)
    bad = []
    if rc != 0 or 'test result: ok. 4 passed' not in log:
        if 'VF-UNDECIDED' in log or 'error' in log and 'panicked' not in log: raise Undecided('obligations could not be generated: ' + '\n'.join(l for l in log.splitlines() if 'error' in l or 'UNDECIDED' in l)[:1500])
        bad.append(('generation run panicked: ' + ' '.join(re.findall(r'panicked at [^\n]*\n[^\n]*', log))[:500], None, None))
    else:
        files = sorted(os.listdir(d + '/out'), key=lambda f: -os.path.getsize(d + '/out/' + f))
        if len(files) != 22: raise Undecided('obligation files missing: %s' % files)
        ex = cf.ThreadPoolExecutor(JOBS)
        for f, (out, t) in zip(files, ex.map(lambda f: z3(d + '/out/' + f), files)):
            names = re.findall(r'\(echo "([^"]*)"\)', open(d + '/out/' + f).read())
            L = out.split('\n')
            ans = dict(zip(L[0::2], L[1::2]))
            ok = [n for n in names if ans.get(n) == 'unsat']
            no = [n for n in names if ans.get(n) == 'sat']
            und = [n for n in names if ans.get(n) not in ('sat', 'unsat')]
            rep.obligation(f[:-5], 'z3', not (no or und), len(names), t)
            if no: bad.append(('%s: %s' % (f[:-5], no[0]), f, no[0]))
            elif und: rep.undecided.append('%s: %s: %s' % (f, und[0], ans.get(und[0], 'no answer')))
    if bad:
        what, f, n = bad[0]
        txt = '\n'.join(b[0] for b in bad[:40])
        model = {}
        if f:
            src = open(d + '/out/' + f).read()
            head = src[:src.index('(push 1)')]
            i = src.index('(echo "%s")' % n); st = src.rindex('(push 1)', 0, i); en = src.index('(pop 1)', i)
            open(d + '/one.smt2', 'w').write(head + src[st:en] + '(get-model)\n')
            _, out = run(['z3', '-T:60', d + '/one.smt2'], timeout=70)
            model = {int(a): int(b, 16) for a, b in re.findall(r'\(define-fun x(\d+) \(\) \(_ BitVec 16\)\s*#x([0-9a-f]{4})\)', out)}
        os.makedirs(d + '/r'); make(d + '/r', False)
        xe = {'RUST_BACKTRACE': '0', 'RUSTFLAGS': '-Awarnings', 'CARGO_TARGET_DIR': d + '/r/t'}
        if model:
            open(d + '/model', 'w').write(','.join(str(model.get(i, 0)) for i in range(max(model) + 1))); xe['VF_MODEL'] = d + '/model'
            txt += '\nz3 model: %s' % {('x%d' % k): v for k, v in sorted(model.items()) if v}
        rc, log = run(['cargo', 'test', '--lib', '--release', '--', 'vfreplay_'], cwd=d + '/r/saber', extra_env=xe, timeout=300)
        conf = rc not in (0, None) and 'panicked at' in log and 'test result: FAILED' in log
        rep.violation(what, txt + '\n\n--- native replay on the real crate ---\n' + log[-6000:], conf)
    else:
        kani_report(rep, Kani(dk), ['vf::ops::'], lambda h: os.path.join(dk, 'src/vf/ops.rs'), expect=['vf::ops::add', 'vf::ops::mul', 'vf::ops::assign_shr'])
    rep.finish()
