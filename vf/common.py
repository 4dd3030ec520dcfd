"""Shared machinery of the checks: scratch copies, Kani / CBMC / Verus drivers,
classification of verifier answers, replay, evidence, known findings.

Exit codes of a check: 0 held, 1 VIOLATION line printed, 2 the check itself
could not answer (lost anchor, unsupported construct, time-out)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
JOBS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
DEADLINE = T0 + (860 if TIER == 'quick' else 6 * 3600)

class Undecided(Exception):
    """The tool could not answer: never a violation, never a pass."""

_scratch = []
def scratch(tag='vf'):
    d = tempfile.mkdtemp(prefix='vf-%s-' % tag, dir=os.environ.get('TMPDIR', '/tmp'))
    _scratch.append(d)
    return d
def _clean():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_clean)
def _term(*_): sys.exit(2)
signal.signal(signal.SIGTERM, _term)

def pmap(work, jobs, died):
    """work(job) for every job, each in a forked process of its own; a process
    that dies (signal, memory guard) yields died(job, exitcode)"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork'); res = [None] * len(jobs); run_, nxt = {}, 0
    def go(c, j):
        try: c.send(work(j))
        finally: c.close()
    while nxt < len(jobs) or run_:
        while nxt < len(jobs) and len(run_) < JOBS:
            a, b = ctx.Pipe(False); p = ctx.Process(target=go, args=(b, jobs[nxt]), daemon=True); p.start(); b.close()
            run_[a] = (nxt, p); nxt += 1
        for a in wait(list(run_), 5):
            i, p = run_.pop(a)
            try: res[i] = a.recv(); p.join()
            except EOFError: p.join(); res[i] = died(jobs[i], p.exitcode)
            a.close()
    return res
def left(): return DEADLINE - time.time()

def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER'): e.pop(k, None)
    return e

def run(cmd, cwd=None, timeout=None, extra_env=None, inp=None):
    """-> (rc, stdout+stderr); rc None on time-out.  The whole group is killed."""
    e = env()
    if extra_env: e.update(extra_env)
    t = left() if timeout is None else min(timeout, left())
    if t <= 0: return None, 'no time left'
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out
    except BaseException:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        raise

# ---------------------------------------------------------------- evidence
class Report:
    def __init__(self, prop, level, checker_cmd, trusted_base, assumptions, functions=None, explanation=None):
        self.prop, self.level = prop, level
        self.cov = dict(obligations=0, discharged=0, checker_cmd=checker_cmd, trusted_base=list(trusted_base),
                        functions_under_contract=list(functions or []), harnesses=[], solver_s=0.0, explanation=explanation or '')
        self.assumptions = list(assumptions)
        self.violations = []      # (replay path, confirmed?)
        self.undecided = []
        self.known = []
    def obligation(self, name, backend, ok, count=1, solver_s=0.0, bounded=None, note=None):
        self.cov['obligations'] += count
        if ok: self.cov['discharged'] += count
        self.cov['solver_s'] = round(self.cov['solver_s'] + solver_s, 3)
        h = dict(name=name, backend=backend, result='discharged' if ok else 'failed', obligations=count, solver_s=round(solver_s, 3))
        if bounded: h['bounded'] = bounded
        if note: h['note'] = note
        self.cov['harnesses'].append(h)
    def violation(self, what, text, confirmed):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, 'replay-%s-%d.txt' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            f.write('property: %s\nfailed obligation: %s\nreplayed on the real code: %s\n\n%s\n'
                    % (self.prop, what, 'yes' if confirmed else 'no', text))
        self.violations.append((path, confirmed, what))
    def write(self):
        os.makedirs(EVID, exist_ok=True)
        d = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        if self.undecided: d['coverage']['undecided'] = self.undecided
        if self.known: d['coverage']['known_findings'] = self.known
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f: json.dump(d, f, indent=1)
    def finish(self):
        if self.cov['obligations'] + self.cov.get('bounded_obligations', 0) == 0 and not self.violations:
            self.undecided.append('vacuous: no obligation was generated')
        self.write()
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for path, confirmed, what in self.violations:
            print('failed obligation: %s' % what)
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if confirmed else ' no-failing-input-found'))
        if self.violations: sys.exit(1)
        if self.undecided:
            for u in self.undecided: print('UNDECIDED property=%s %s' % (self.prop, u[:2000]))
            sys.exit(2)
        print('OK property=%s obligations=%d discharged=%d%s wall=%.1fs' % (self.prop, self.cov['obligations'], self.cov['discharged'], ' bounded=%d' % self.cov['bounded_obligations'] if self.cov.get('bounded_obligations') else '', time.time() - T0))
        sys.exit(0)

# ---------------------------------------------------------------- Kani
KFLAGS = ['-Z', 'stubbing', '-Z', 'unstable-options', '-Z', 'function-contracts', '--no-assertion-reach-checks', '--no-memory-safety-checks']

_kh = None
def kani_home():
    """A view of the installed Kani whose cbmc leaves out the traces: a failing
    obligation is then answered as fast as a discharged one.  (The playback of
    a counterexample uses the installed Kani as it is.)"""
    global _kh
    if _kh is None:
        real = os.path.join(os.environ.get('KANI_HOME') or os.path.expanduser('~/.kani'))
        vers = [v for v in sorted(os.listdir(real)) if v.startswith('kani-')] if os.path.isdir(real) else []
        if not vers: _kh = ''; return _kh
        h = scratch('kanihome')
        for v in vers:
            os.makedirs(os.path.join(h, v, 'bin'))
            for f in os.listdir(os.path.join(real, v)):
                if f != 'bin': os.symlink(os.path.join(real, v, f), os.path.join(h, v, f))
            for f in os.listdir(os.path.join(real, v, 'bin')):
                if f != 'cbmc': os.symlink(os.path.join(real, v, 'bin', f), os.path.join(h, v, 'bin', f))
            w = os.path.join(h, v, 'bin', 'cbmc')
            with open(w, 'w') as o:
                o.write('#!/bin/bash\na=(); for x in "$@"; do case "$x" in --trace|--compact-trace) ;; *) a+=("$x");; esac; done\nexec %s "${a[@]}"\n' % os.path.join(real, v, 'bin', 'cbmc'))
            os.chmod(w, 0o755)
        _kh = h
    return _kh

class Kani:
    def __init__(self, crate_dir, flags=KFLAGS, target=None, solver=None):
        self.dir, self.flags = crate_dir, list(flags)
        self.target = target or os.path.join(crate_dir, 'kani-target')
        if solver: self.flags += ['--solver', solver]
    def verify(self, filters, timeout=None, jobs=JOBS, harness_timeout=None):
        """-> dict harness -> {ok, kind, checks, failed[], n, solver_s, symex_s, covers_bad[]}"""
        out = os.path.join(self.dir, 'kani-%d.json' % int(time.time() * 1000))
        cmd = ['cargo', 'kani', *self.flags, '-j', str(jobs), '--output-format', 'terse', '--export-json', out, '--target-dir', self.target]
        if harness_timeout: cmd += ['--harness-timeout', '%ds' % harness_timeout]
        for f in filters: cmd += ['--harness', f]
        rc, log = run(cmd, cwd=self.dir, timeout=timeout, extra_env={'KANI_HOME': kani_home()} if kani_home() else None)
        self.log, self.cmd = log, ' '.join(cmd)
        if not os.path.exists(out):
            raise Undecided('kani gave no result (rc=%s): %s' % (rc, '\n'.join(l for l in log.splitlines() if 'error' in l.lower() or 'panick' in l)[:1500] or log[-1500:]))
        d = json.load(open(out))
        stats = {c['harness_id']: (c.get('cbmc_metadata') or {}, c.get('cbmc_stats') or c.get('cbmc_metadata', {}).get('cbmc_stats') or {}) for c in d.get('cbmc', [])}
        res = {}
        for r in d['verification_results']['results']:
            h = r['harness_id']
            failed, undet, cov_bad, n = [], [], [], 0
            for c in r.get('checks', []):
                st, cat, desc = c['status'].lower(), c.get('category', ''), c.get('description', '')
                loc = c.get('location') or {}
                where = '%s:%s in %s' % (loc.get('file', '?'), loc.get('line', '?'), c.get('function', '?'))
                if cat == 'cover':
                    if st != 'satisfied': cov_bad.append('%s (%s) %s' % (desc, where, st))
                    continue
                n += 1
                if st == 'failure':
                    if 'VF-UNDECIDED' in desc: undet.append(desc + ' ' + where)
                    elif cat == 'unwind' or 'unwinding assertion' in desc: undet.append('unwinding bound reached: ' + where)
                    elif 'unsupported' in cat or 'unsupported' in desc or 'not currently supported' in desc: undet.append('unsupported construct: %s %s' % (desc, where))
                    else: failed.append('%s [%s] at %s' % (desc, cat, where))
                elif st not in ('success', 'unreachable'): undet.append('%s: %s %s' % (st, desc, where))
            s = stats.get(h, ({}, {}))[1]
            res[h] = dict(status=r['status'], failed=failed, undet=undet, cov_bad=cov_bad, n=n, wall=r.get('duration_ms', 0) / 1000.0,
                          solver_s=float(s.get('runtime_decision_procedure_s') or 0), symex_s=float(s.get('runtime_symex_s') or 0))
        return res
    def playback(self, harness, srcfile, timeout=300):
        """Ask the verifier for a concrete counterexample and run it natively on
        the real code.  -> (confirmed, text)"""
        cmd = ['cargo', 'kani', *self.flags, '-Z', 'concrete-playback', '--concrete-playback', 'print', '--exact', '--harness', harness, '--target-dir', self.target]
        rc, log = run(cmd, cwd=self.dir, timeout=timeout)
        tests = re.findall(r'```\s*\n(.*?)```', log, re.S)
        tests = [t for t in tests if 'concrete_playback_run' in t]
        if not tests: return False, 'no concrete counterexample from the verifier\n' + log[-3000:]
        src = open(srcfile).read()
        names = []
        add = ''
        for i, t in enumerate(tests):
            m = re.search(r'fn (kani_concrete_playback_\w+)', t)
            if not m: continue
            n2 = 'vfreplay_%d' % i
            t = t.replace(m.group(1), n2)
            add += '\n#[cfg(test)]\nmod vfreplay_m%d { use super::*;\n%s\n}\n' % (i, t); names.append(n2)
        open(srcfile, 'w').write(src + add)
        ok, text = False, ''
        try:
            rc, log = run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', 'vfreplay_'], cwd=self.dir, timeout=timeout,
                          extra_env={'RUST_BACKTRACE': '0', 'CARGO_TARGET_DIR': self.target + '-pb'})
            ok = bool(re.search(r'test result: FAILED', log)) and 'panicked at' in log
            text = add + '\n--- native run of the counterexample ---\n' + log[-6000:]
        finally:
            open(srcfile, 'w').write(src)
        return ok, text

def kani_report(rep, kani, filters, srcfile_of, bounded=None, timeout=None, expect=None, playback=True, harness_timeout=None, jobs=JOBS):
    """Run harnesses, account for every obligation, replay violations."""
    res = kani.verify(filters, timeout=timeout, harness_timeout=harness_timeout, jobs=jobs)
    if expect:
        missing = [h for h in expect if h not in res]
        if missing: rep.undecided.append('harnesses without a result: %s' % missing)
    if not res: rep.undecided.append('no harness ran')
    bad = []
    for h, r in sorted(res.items()):
        if r['failed']:
            rep.obligation(h, 'kani/cbmc', False, max(1, r['n']), r['solver_s'], note='; '.join(r['failed'])[:600])
            bad.append(h)
        elif r['undet'] or r['status'].lower() not in ('success', 'successful'):
            rep.undecided.append('%s: %s' % (h, '; '.join(r['undet'])[:600] or 'status %s after %.0fs' % (r['status'], r['wall'])))
        elif r['cov_bad']:
            rep.undecided.append('%s: vacuous: %s' % (h, '; '.join(r['cov_bad'])[:600]))
        elif r['n'] == 0:
            rep.undecided.append('%s: vacuous: zero obligations' % h)
        else:
            rep.obligation(h, 'kani/cbmc', True, r['n'], r['solver_s'], bounded=(bounded or {}).get(h) if isinstance(bounded, dict) else bounded,
                           note='wall %.1fs symex %.1fs' % (r['wall'], r['symex_s']))
    # replay: stop at the first one confirmed on the real code
    done = False
    for h in bad[:3]:
        txt, conf = 'verifier: Kani 0.68.0 (CBMC 6.11.0)\n' + '\n'.join(res[h]['failed']), False
        if playback and left() > 30:
            try:
                if callable(playback): conf, t2 = playback(h)
                else: conf, t2 = kani.playback(h, srcfile_of(h), timeout=min(300, left() - 10))
                txt += '\n\n' + t2
            except Exception as e:
                txt += '\n(replay not possible: %s)' % e
        if conf or h == bad[:3][-1]:
            rep.violation('%s: %s' % (h, '; '.join(res[h]['failed'])[:300]), txt, conf)
            done = True
            break
    return res

# ---------------------------------------------------------------- scratch copies of the real crates
def copy_saber(dst, harness='saber'):
    src = os.path.join(REPO, 'saber-rust')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
    shutil.copytree(os.path.join(VERIF, 'harness', harness), os.path.join(dst, 'src', 'vf'))
    with open(os.path.join(dst, 'src', 'lib.rs'), 'a') as f: f.write('\n#[cfg(kani)] mod vf;\n')
    for m in ('lightsaber', 'saber', 'firesaber'):
        fn = os.path.join(dst, 'src', m + '.rs')
        t = open(fn).read()
        g = re.search(r'impl\s+(?:crate::)?(?:generic::)?SaberImpl\s+for\s+(\w+)', t)
        if not g: raise Undecided('lost anchor: impl SaberImpl in ' + m)
        with open(fn, 'a') as f: f.write('\n#[cfg(kani)] type VfImpl = %s;\n#[cfg(kani)] #[path = "vf/variant.rs"] mod vf;\n' % g.group(1))
    with open(os.path.join(dst, 'src', 'generic.rs'), 'a') as f: f.write('\n#[cfg(kani)] #[path = "vf/generic_access.rs"] pub(crate) mod vf;\n')
    with open(os.path.join(dst, 'Cargo.toml'), 'a') as f: f.write('\n[workspace]\n')
    for lock in (os.path.join(REPO, 'Cargo.lock'), os.path.join(VERIF, 'locks', 'workspace.lock')):
        if os.path.exists(lock): shutil.copy(lock, os.path.join(dst, 'Cargo.lock')); break
    return dst

STD_STUBS = 'pointer stepping (NonNull::add, <*T>::add) inside core\'s slice iterators is replaced by the identical wrapping address computation; core\'s own unsafe code is trusted'

def copy_kem(d):
    """saber with sha3 and rand_os replaced by their contracts"""
    src = os.path.join(REPO, 'saber-rust')
    shutil.copytree(src, d + '/saber', ignore=shutil.ignore_patterns('target'))
    for s in ('sha3', 'rand_os'): shutil.copytree(os.path.join(VERIF, 'harness/stubs', s), d + '/' + s)
    dst = d + '/saber'
    shutil.copytree(os.path.join(VERIF, 'harness/kem'), os.path.join(dst, 'src', 'vf'))
    with open(dst + '/src/lib.rs', 'a') as f: f.write('\n#[cfg(kani)] mod vf;\n')
    for m in ('lightsaber', 'saber', 'firesaber'):
        fn = os.path.join(dst, 'src', m + '.rs')
        g = re.search(r'SaberImpl\s+for\s+(\w+)', open(fn).read())
        if not g: raise Undecided('lost anchor: impl SaberImpl in ' + m)
        with open(fn, 'a') as f: f.write('\n#[cfg(kani)] type VfImpl = %s;\n#[cfg(kani)] #[path = "vf/variant.rs"] mod vf;\n' % g.group(1))
    g = dst + '/src/generic.rs'
    if 'fn bytes_eq_mask(' in open(g).read():
        with open(g, 'a') as f: f.write('\n#[cfg(kani)] pub(crate) mod vf { pub(crate) fn bytes_eq_mask(a: &[u8], b: &[u8]) -> u8 { super::bytes_eq_mask(a, b).declassify() } }\n')
    else:
        # no such helper any more: the comparison is verified inline with its caller
        v = dst + '/src/vf/variant.rs'
        t = open(v).read().replace('#[kani::stub(crate::generic::bytes_eq_mask, eq_mask_stub)]', '').replace('crate::generic::vf::bytes_eq_mask(&a, &b)', 'eq_mask_stub(&a, &b).declassify()')
        open(v, 'w').write(t)
    with open(dst + '/Cargo.toml', 'a') as f: f.write('\n[workspace]\n[patch.crates-io]\nsha3 = { path = "../sha3" }\nrand_os = { path = "../rand_os" }\n')
    lock = os.path.join(REPO, 'Cargo.lock')
    shutil.copy(lock if os.path.exists(lock) else os.path.join(VERIF, 'locks', 'workspace.lock'), dst + '/Cargo.lock')
    return dst

def native_saber(d, srcs, test, timeout=300):
    """build the real saber crate with extra #[cfg(test)] modules; -> (failed?, log)"""
    dst = d + '/native'
    shutil.copytree(os.path.join(REPO, 'saber-rust'), dst, ignore=shutil.ignore_patterns('target'))
    lock = os.path.join(REPO, 'Cargo.lock')
    shutil.copy(lock if os.path.exists(lock) else os.path.join(VERIF, 'locks', 'workspace.lock'), dst + '/Cargo.lock')
    with open(dst + '/Cargo.toml', 'a') as f: f.write('\n[workspace]\n')
    for m in ('lightsaber', 'saber', 'firesaber'):
        fn = os.path.join(dst, 'src', m + '.rs')
        g = re.search(r'SaberImpl\s+for\s+(\w+)', open(fn).read())
        with open(fn, 'a') as f:
            f.write('\n#[cfg(test)] type VfImpl = %s;\n' % g.group(1))
            for i, s in enumerate(srcs): f.write('#[cfg(test)] #[path = "%s"] mod vfn%d;\n' % (s, i))
    rc, log = run(['cargo', 'test', '--lib', '--release', '--', test], cwd=dst, extra_env={'RUST_BACKTRACE': '0', 'RUSTFLAGS': '-Awarnings', 'CARGO_TARGET_DIR': d + '/native-t'}, timeout=timeout)
    return rc not in (0, None) and 'panicked at' in log and 'test result: FAILED' in log, '--- native run against the real crate ---\n' + log[-5000:]
