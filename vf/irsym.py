"""Verification-condition generator for LLVM IR: forward symbolic execution of
the compiled real code, every path, obligations discharged by z3 (or already by
the term normal form / interval analysis).  Concrete control flow and addresses,
symbolic data; a branch on symbolic data splits the proof."""
import time, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from . import terms as tm
from .terms import T, M, sgn, extract, cat, eq, land, lor, lnot, ite, zext, sext, Zb, Z
from .llir import Module, Unsupported

BASE = 0x40000000
class Undecided(Exception): pass
class Enough(Exception): pass
class PathEnd(Exception):
    def __init__(self, kind, msg=''): self.kind = kind; self.msg = msg
class Fork(Exception):
    """re-execute the current instruction in one state per extra condition"""
    def __init__(self, conds): self.conds = conds

class Obj:
    __slots__ = ('cells', 'n', 'live', 'tok', 'name', 'ro')
    def __init__(self, cells, name, tok, ro=False): self.cells = cells; self.n = len(cells); self.live = True; self.tok = tok; self.name = name; self.ro = ro
class Frame:
    __slots__ = ('f', 'regs', 'blk', 'code', 'ip', 'prev', 'dest', 'norm', 'allocas', 'rt')
    def copy(self):
        n = Frame(); n.f = self.f; n.regs = dict(self.regs); n.blk = self.blk; n.code = self.code; n.ip = self.ip; n.prev = self.prev
        n.dest = self.dest; n.norm = self.norm; n.allocas = list(self.allocas); n.rt = self.rt
        return n
class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcs', 'tok', 'ghost', 'labels', 'nid')
    def fork(self):
        s = State(); s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.pcs = set(self.pcs)
        s.tok = object(); self.tok = object(); s.labels = list(self.labels)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        s.nid = self.nid
        return s
    def top(self): return self.frames[-1]

class Engine:
    def __init__(self, mod, hooks=None, check_nsw=False, timeout_ms=60000, max_steps=30_000_000, deadline=None, trace=False):
        self.mod = mod; self.hooks = dict(HOOKS)
        self.hooks.update(hooks or {})
        self.check_nsw = check_nsw; self.tmo = timeout_ms; self.max_steps = max_steps; self.deadline = deadline
        self.gaddr = {}; self.gmem = {}; self.fnaddr = {}; self.addrfn = {}
        self.nid = 16
        self.obl = {}          # label -> [count, by_solver]
        self.viol = []; self.reached = {}; self.paths = 0; self.steps = 0; self.panics = []
        self.solver_s = 0.0; self.queries = 0; self.qcache = {}
        self.funcs_run = set(); self.trace = trace
        self.panic_is = 'violation'     # or 'ok'
        self.on_end = None; self.ends = []
        self.inputs = []
        self.viol_limit = 3
        self.used = set()
        self.fork_note = 0
    # ---------------------------------------------------------------- memory
    def newid(self, st): self.nid += 1; return self.nid
    def alloc(self, st, n, name, fill=None):
        i = self.newid(st)
        st.mem[i] = Obj([fill] * n, name, st.tok)
        return (i << 32) + BASE
    def gaddress(self, name):
        a = self.gaddr.get(name)
        if a is not None: return a
        if name in self.mod.funcs or name in self.mod.decls and name not in self.mod.globals:
            i = self.newid(None); a = (i << 32) + BASE
            self.gaddr[name] = a; self.addrfn[a] = name; return a
        raw = self.mod.globals.get(name)
        if raw is None: raise Unsupported('global ' + name)
        from llir import P, toks, STRIP
        if raw.startswith(('alias', )) or ' alias ' in raw.split('{')[0].split('@')[0]:
            import re
            tgt = re.findall(r'@[-a-zA-Z$._0-9"]+', raw)[-1]
            a = self.gaddr[name] = self.gaddress(tgt); return a
        p = P(self.mod, toks(STRIP.sub('', raw)))
        ro = False; ext = False
        while True:
            x = p.next()
            if x in ('global', 'constant'): ro = x == 'constant'; break
            if x in ('external', 'extern_weak'): ext = True
            if p.peek() == '(': p.balanced()
        t = p.type()
        i = self.newid(None); a = (i << 32) + BASE
        self.gaddr[name] = a
        n = self.mod.size(t)
        o = Obj([0 if not ext else None] * n, name, None, ro)
        self.gmem[i] = o
        if not ext:
            c = p.const(t)
            self.initc(o, 0, t, c)
        return a
    def initc(self, o, off, t, c):
        m = self.mod
        if isinstance(c, tuple):
            k = c[0]
            if k == 'zero': return
            if k == 'undef': 
                return
            if k == 'bytes':
                o.cells[off:off + len(c[1])] = list(c[1]); return
            if k == 'agg':
                if t[0] == 'a' or t[0] == 'v':
                    s = m.size(t[2])
                    for j, e in enumerate(c[1]):
                        et, ev = e if t[0] == 'a' or isinstance(e, tuple) and len(e) == 2 and not isinstance(e[0], str) else (t[2], e)
                        self.initc(o, off + j * s, t[2], ev)
                else:
                    offs, _ = m.layout(t)
                    for j, (et, e) in enumerate(c[1]): self.initc(o, off + offs[j], et, e)
                return
            v = self.constval(c)
        else: v = c
        if t == 'float' or t == 'double': return
        n = m.size(t)
        o.cells[off:off + n] = list(int(v).to_bytes(n, 'little'))
    def constval(self, c, st=None):
        if isinstance(c, int): return c
        k = c[0]
        if k == 'g': return self.gaddress(c[1])
        if k == 'undef':
            t = c[1]
            if t == 'ptr': return 0
            if isinstance(t, tuple) and t[0] == 'i': return tm.fresh('undef', t[1])
            return self.undefagg(t)
        if k == 'zero': return self.zeroagg(c[1])
        if k == 'agg': return [self.constval(e[1]) if isinstance(e, tuple) and len(e) == 2 and not isinstance(e[0], str) or isinstance(e, tuple) and len(e) == 2 and (isinstance(e[0], str) and e[0] == 'ptr') else self.constval(e) for e in c[1]]
        if k == 'cgep':
            a = self.constval(c[2])
            return self.gepaddr(c[1], a, [(t, self.constval(v)) for t, v in c[3]])
        if k == 'cbin':
            a, b = self.constval(c[2]), self.constval(c[3])
            return {'add': a + b, 'sub': a - b, 'xor': a ^ b}[c[1]] & M(64)
        if k == 'bytes': return list(c[1])
        raise Unsupported('constant %s' % (c,))
    def zeroagg(self, t):
        if t == 'ptr' or t[0] == 'i': return 0
        if t[0] in 'av': return [self.zeroagg(t[2]) for _ in range(t[1])]
        if t[0] == 's': return [self.zeroagg(x) for x in t[2]]
        raise Unsupported('zero')
    def undefagg(self, t):
        if t == 'ptr': return 0
        if t[0] == 'i': return 0
        if t[0] in 'av': return [self.undefagg(t[2]) for _ in range(t[1])]
        if t[0] == 's': return [self.undefagg(x) for x in t[2]]
        raise Unsupported('undef agg')
    def obj(self, st, addr, n, what, write=False):
        """-> (Obj, offset); raises the path's out-of-bounds violation"""
        i = addr >> 32
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None:
                self.violate(st, 'memory safety: %s of %d bytes through an invalid pointer %s' % (what, n, hex(addr)))
                raise PathEnd('oob')
        off = (addr & 0xffffffff) - BASE
        if not o.live: self.violate(st, 'memory safety: %s of freed object %s' % (what, o.name)); raise PathEnd('oob')
        if off < 0 or off + n > o.n:
            self.violate(st, 'memory safety: %s of %d bytes at offset %d of %s (%d bytes)' % (what, n, off, o.name, o.n)); raise PathEnd('oob')
        if write:
            if o.ro: self.violate(st, 'memory safety: write to constant ' + o.name); raise PathEnd('oob')
            if o.tok is not st.tok:
                o2 = Obj(list(o.cells), o.name, st.tok); o2.live = o.live
                st.mem[i] = o2; o = o2
        return o, off
    def rdbytes(self, st, addr, n, what='read'):
        if n == 0: return []
        o, off = self.obj(st, self.conc(st, addr), n, what)
        return o.cells[off:off + n]
    def wrbytes(self, st, addr, cells, what='write'):
        if not cells: return
        o, off = self.obj(st, self.conc(st, addr), len(cells), what, True)
        o.cells[off:off + len(cells)] = cells
    def cells2val(self, st, cells, w):
        out = []
        allint = True
        for c in cells:
            if not isinstance(c, int): allint = False; break
        if allint: v = int.from_bytes(bytes(cells), 'little')
        else:
            ps = []
            for c in reversed(cells):
                if c is None: c = tm.fresh('uninit', 8)
                ps.append((c, 8))
            v = cat(ps)
        if w != 8 * len(cells): v = extract(v, w - 1, 0)
        return v
    def val2cells(self, v, n):
        if isinstance(v, int): return list((v & M(8 * n)).to_bytes(n, 'little'))
        v = zext(v, 8 * n)
        return [extract(v, 8 * i + 7, 8 * i) for i in range(n)]
    def rdterm(self, st, addr, n): return self.cells2val(st, self.rdbytes(st, addr, n), 8 * n) if n else 0
    def wrterm(self, st, addr, v, n): self.wrbytes(st, addr, self.val2cells(v, n))
    def load(self, st, t, addr):
        m = self.mod
        if t == 'ptr': return self.cells2val(st, self.access(st, addr, 8), 64)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            return self.cells2val(st, self.access(st, addr, n), t[1])
        if t[0] in 'av': s = m.size(t[2]); return [self.load(st, t[2], addr + k * s) for k in range(t[1])]
        if t[0] == 's':
            offs, _ = m.layout(t); return [self.load(st, x, addr + offs[k]) for k, x in enumerate(t[2])]
        raise Unsupported('load %s' % (t,))
    def access(self, st, addr, n):
        """cells at a possibly symbolic address: a table look-up becomes an ite chain"""
        if isinstance(addr, T):
            r = self.symtable(st, addr, n)
            if isinstance(r, int): return self.rdbytes(st, r, n)
            base, idx, sc, lo, hi = r
            res = None
            for k in range(hi, lo - 1, -1):
                c = self.rdbytes(st, base + k * sc, n)
                v = self.cells2val(st, c, 8 * n)
                res = v if res is None else ite(eq(idx.w, idx, k & M(idx.w)), v, res, 8 * n)
            return self.val2cells(res, n)
        return self.rdbytes(st, addr, n)
    def symtable(self, st, addr, n):
        """addr = object base + scale*index; proves the whole index range in bounds"""
        base, rest = 0, addr
        if addr.op == 'add' and isinstance(addr.a[1], int): base, rest = addr.a[1], addr.a[0]
        else: return self.conc(st, addr)
        sc = 1
        if rest.op == 'mul' and isinstance(rest.a[1], int): sc = rest.a[1]; rest = rest.a[0]
        if rest.op == 'cat' and isinstance(rest.a[-1][0], int) and rest.a[-1][0] == 0:
            k = rest.a[-1][1]; sc <<= k; rest = extract(rest, 63, k)
        o = st.mem.get(base >> 32) or self.gmem.get(base >> 32)
        if o is None: return self.conc(st, addr)
        off = (base & 0xffffffff) - BASE
        w = rest.w
        lo, hi = tm.srange(rest, w)
        mxi = (o.n - off - n) // sc; mni = -(off // sc)
        if not (lo >= mni and hi <= mxi):
            inb = land(tm.sle(w, mni & M(w), rest), tm.sle(w, rest, mxi & M(w))) if mxi >= mni else 0
            if not self.prove(st, inb, 'memory safety: index into %s (%d bytes) in bounds' % (o.name, o.n)): raise PathEnd('oob')
            lo, hi = max(lo, mni), min(hi, mxi)
        if hi - lo > 4096: raise Undecided('table too large')
        return base, rest, sc, lo, hi
    def store(self, st, t, v, addr):
        m = self.mod
        if t == 'ptr': self.wr(st, addr, self.val2cells(v, 8)); return
        if t[0] == 'i': self.wr(st, addr, self.val2cells(v, (t[1] + 7) // 8)); return
        if t[0] in 'av':
            s = m.size(t[2])
            for k in range(t[1]): self.store(st, t[2], v[k], addr + k * s)
            return
        if t[0] == 's':
            offs, _ = m.layout(t)
            for k, x in enumerate(t[2]): self.store(st, x, v[k], addr + offs[k])
            return
        raise Unsupported('store')
    def wr(self, st, addr, cells):
        if isinstance(addr, T):
            n = len(cells)
            r = self.symtable(st, addr, n)
            if isinstance(r, int): return self.wrbytes(st, r, cells)
            base, idx, sc, lo, hi = r
            for k in range(lo, hi + 1):
                c = eq(idx.w, idx, k & M(idx.w))
                if isinstance(c, int):
                    if c: self.wrbytes(st, base + k * sc, cells)
                    continue
                old = self.rdbytes(st, base + k * sc, n)
                new = [x if x is y else ite(c, x, tm.fresh('uninit', 8) if y is None else y, 8) for x, y in zip(cells, old)]
                self.wrbytes(st, base + k * sc, new)
            return
        self.wrbytes(st, addr, cells)
    def conc(self, st, v, what='address'):
        """a concrete value, forking over the feasible ones"""
        if isinstance(v, int): return v
        known = self.known(st, v)
        if known is not None: return known
        leaves = self.leaves(v)
        if leaves is None:
            leaves = []
            s = self.zsolver(st, [v])
            zv = Z(v)
            while len(leaves) < 300:
                r = s.check()
                if r == z3.unknown: raise Undecided('solver gave up enumerating %s' % what)
                if r == z3.unsat: break
                x = s.model().eval(zv, model_completion=True).as_long()
                leaves.append(x); s.add(zv != x)
            else: raise Undecided('too many values for %s: %s' % (what, v))
        if not leaves: raise PathEnd('infeasible')
        if len(leaves) == 1:
            self.addpc(st, eq(v.w, v, leaves[0])); return leaves[0]
        raise Fork([eq(v.w, v, x) for x in leaves])
    def known(self, st, v):
        for c in st.pc:
            if c.op == 'eq':
                if c.a[0] is v and isinstance(c.a[1], int): return c.a[1]
                if c.a[1] is v and isinstance(c.a[0], int): return c.a[0]
        return None
    def leaves(self, v):
        out = set(); st = [v]; seen = set()
        while st:
            x = st.pop()
            if isinstance(x, int): out.add(x); continue
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'ite': st += [x.a[1], x.a[2]]
            elif x.op == 'add' and isinstance(x.a[1], int) and x.a[0].op == 'ite':
                l = self.leaves(x.a[0])
                if l is None: return None
                out |= {(y + x.a[1]) & M(x.w) for y in l}
            else: return None
            if len(out) > 64: return None
        return sorted(out)
    # ---------------------------------------------------------------- solver
    def slice(self, st, ts):
        need = tm.vars_of(ts)
        conds = [(c, self.cvars(c)) for c in st.pc]
        out, changed = [], True
        keys = set(need)
        rest = conds
        while changed:
            changed = False; nr = []
            for c, v in rest:
                if not v or not keys.isdisjoint(v): out.append(c); keys |= v; changed = True
                else: nr.append((c, v))
            rest = nr
        return out, keys
    _cv = {}
    def cvars(self, c):
        r = self._cv.get(c.id)
        if r is None or r[0] is not c: r = self._cv[c.id] = (c, set(tm.vars_of([c])))
        return r[1]
    def zsolver(self, st, ts, quick=False):
        conds, keys = self.slice(st, ts)
        s = z3.SimpleSolver() if quick else z3.Solver()
        s.set('timeout', 250 if quick else self.tmo)
        for c in conds: s.add(Zb(c))
        for n in ts: 
            if isinstance(n, T): Z(n)
        # known variable intervals and functional consistency
        ufs, seen = [], set()
        work = list(ts) + conds
        done = {}
        for rnd in range(6):
            new = []
            for v in tm.vars_of(work).values():
                if v.id in seen: continue
                seen.add(v.id)
                if v.op == 'var' and v.a[0] in tm.RANGES:
                    lo, hi = tm.RANGES[v.a[0]]; z = Z(v); s.add(z >= lo, z <= hi)
                if v.op == 'uf': new.append(v)
            if not new: break
            work = []
            for u in new:
                us = done.setdefault((u.a[0], len(u.a), u.w), [])
                if len(us) < 40:
                    for x in us:
                        e = self.argseq(u, x)
                        if isinstance(e, int) and e == 0: continue
                        s.add(z3.Implies(Zb(e), Z(u) == Z(x))); work.append(e)
                us.append(u)
            ufs += new
        for f in getattr(self, 'axioms', ()):
            for ax in f(ufs): s.add(ax)
        return s
    def argseq(self, x, y):
        if x.a[0] in ('sc', 'pt', 'encR', 'encE', 'encM'): return int(x is y)
        r = 1
        for p, q in zip(x.a[1:], y.a[1:]):
            if isinstance(p, tuple):
                if p[1] != q[1]: return 0
                r = land(r, eq(p[1], p[0], q[0]))
            elif p != q: return 0
        return r
    def sat(self, st, c):
        """is pc and c satisfiable?"""
        if isinstance(c, int): return bool(c)
        if c.id in st.pcs: return True
        n = lnot(c)
        if n.id in st.pcs: return False
        key = (c.id, tuple(x.id for x in self.slice(st, [c])[0]))
        r = self.qcache.get(key)
        if r is None:
            if self.deadline and time.time() > self.deadline: raise Undecided('time limit')
            t = time.time()
            s = self.zsolver(st, [c], True); s.add(Zb(c))
            r = s.check(); self.queries += 1
            if r == z3.unknown:
                s = self.zsolver(st, [c]); s.add(Zb(c)); r = s.check()
            self.solver_s += time.time() - t
            if r == z3.unknown: raise Undecided('z3 gave up: %s' % s.reason_unknown())
            r = self.qcache[key] = (r == z3.sat)
        return r
    def addpc(self, st, c):
        if isinstance(c, int):
            if not c: raise PathEnd('infeasible')
            return
        for x in (c.a if c.op == 'land' else (c,)):
            if x.id not in st.pcs: st.pcs.add(x.id); st.pc.append(x)
    def decide(self, st, c):
        """None when both outcomes are possible"""
        c = tm.coalesce(c)
        if isinstance(c, int): return bool(c)
        if c.id in st.pcs: return True
        n = lnot(c)
        if n.id in st.pcs: return False
        if c.op == 'land' and all(x.id in st.pcs for x in c.a): return True
        if not self.sat(st, c): return False
        if not self.sat(st, n): return True
        return None
    def note(self, label, how):
        o = self.obl.setdefault(label, [0, 0, 0.0]); o[0] += 1
        if how: o[1] += 1
    def prove(self, st, c, label):
        """obligation: pc => c"""
        if isinstance(c, int):
            if c: self.note(label, 0); return True
            self.violate(st, label); return False
        t = self.solver_s
        if self.sat(st, lnot(c)):
            self.violate(st, label, lnot(c)); return False
        self.note(label, 1); self.obl[label][2] += self.solver_s - t
        return True
    def violate(self, st, label, extra=None):
        # a path may already be infeasible through conditions not checked yet
        m, txt = {}, ''
        s = z3.Solver(); s.set('timeout', self.tmo)
        try:
            s = self.zsolver(st, list(st.pc) + ([extra] if isinstance(extra, T) else []))
            if isinstance(extra, T): s.add(Zb(extra))
            if tm.EQ_HOOK[0] is not None:
                # ideal functions: values of distinct applications differ
                us = [t for t in tm.vars_of([c for c in st.pc if isinstance(c, T)] + [extra]).values() if t.w >= 64][:60]
                for i, x in enumerate(us):
                    for y in us[:i]:
                        if x.w == y.w and tm.eq(x.w, x, y) == 0: s.add(tm.Z(x) != tm.Z(y))
            r = s.check()
            if r == z3.unsat: return
            if r == z3.sat:
                mod = s.model()
                for d in mod.decls(): 
                    v = mod[d]
                    if hasattr(v, 'as_long'):
                        n, at, k = d.name().rpartition('@')
                        if at and k.isdigit(): m[n] = m.get(n, 0) | v.as_long() << 8 * int(k)
                        else: m[d.name()] = v.as_long()
        except Undecided: pass
        where = ' <- '.join(f.f.name for f in reversed(st.frames[-6:]))
        self.obl.setdefault(label, [0, 0, 0.0])[0] += 1
        self.viol.append(dict(label=label, where=where, model=m, labels=list(st.labels), pc=[tm.show(c, 5) for c in st.pc[:40]]))
        if len(self.viol) >= self.viol_limit: raise Enough
    # ---------------------------------------------------------------- execution
    def call(self, st, name, args, dest=None, norm=None, rt='void'):
        f = self.mod.func(name)
        self.funcs_run.add(name)
        fr = Frame(); fr.f = f; fr.regs = {}; fr.blk = f.entry; fr.code = f.block(f.entry); fr.ip = 0; fr.prev = None
        fr.dest = dest; fr.norm = norm; fr.allocas = []; fr.rt = rt
        for (t, n), v in zip(f.params, args): fr.regs[n] = v
        if len(st.frames) > 400: raise Undecided('recursion too deep')
        st.frames.append(fr)
    def initial(self):
        st = State(); st.frames = []; st.mem = {}; st.pc = []; st.pcs = set(); st.tok = object(); st.ghost = {}; st.labels = []; st.nid = 0
        return st
    def run(self, name, args=(), st=None):
        if not name.startswith('@'): name = '@' + name
        st = st or self.initial()
        self.call(st, name, list(args))
        self.explore([st])
        return self
    def explore(self, work):
        try:
            while work:
                st = work.pop()
                try:
                    self.path(st, work)
                except PathEnd as e:
                    if e.kind in ('infeasible',):
                        if self.trace: print('infeasible', e.msg, [f.f.name for f in st.frames])
                        continue
                    self.paths += 1
                    self.ends.append(e.kind)
                    for l in st.labels: self.reached[l] = self.reached.get(l, 0) + 1
                    if e.kind == 'panic': self.panics.append((e.msg, list(st.labels)))
                    if self.on_end: self.on_end(self, st, e)
        except Enough: pass
    def ev(self, regs, o):
        if type(o) is int: return o
        if type(o) is tuple:
            if o[0] == 'r': return regs[o[1]]
            return self.constval(o)
        return o
    def goto(self, fr, lbl):
        fr.prev = fr.blk; fr.blk = lbl; fr.code = fr.f.block(lbl); fr.ip = 0
        # phis in parallel
        code = fr.code
        k = 0
        new = []
        while k < len(code) and code[k][0] == 'phi':
            i = code[k]
            new.append((i[1], self.ev(fr.regs, i[3][fr.prev]))); k += 1
        for d, v in new: fr.regs[d] = v
        fr.ip = k
    def path(self, st, work):
        ev = self.ev
        while True:
            fr = st.frames[-1]
            regs = fr.regs
            ins = fr.code[fr.ip]
            self.steps += 1
            if self.steps > self.max_steps: raise Undecided('step limit')
            if self.steps & 0x3fff == 0 and self.deadline and time.time() > self.deadline: raise Undecided('time limit')
            op = ins[0]
            try:
                if op == 'bin':
                    _, d, o, w, a, b, fl = ins
                    x, y = ev(regs, a), ev(regs, b)
                    if self.check_nsw and (('nsw' in fl) or o in ('shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem')): self.ubcheck(st, o, w, x, y, fl)
                    try: regs[d] = tm.binop(o, w, x, y)
                    except ZeroDivisionError:
                        self.violate(st, 'division by zero in ' + fr.f.name); raise PathEnd('ub')
                    fr.ip += 1
                elif op == 'load':
                    regs[ins[1]] = self.load(st, ins[2], ev(regs, ins[3])); fr.ip += 1
                elif op == 'store':
                    self.store(st, ins[1], ev(regs, ins[2]), ev(regs, ins[3])); fr.ip += 1
                elif op == 'gep':
                    regs[ins[1]] = self.gepaddr(ins[2], ev(regs, ins[3]), [(t, ev(regs, v)) for t, v in ins[4]]); fr.ip += 1
                elif op == 'icmp':
                    regs[ins[1]] = tm.icmp(ins[2], ins[3], ev(regs, ins[4]), ev(regs, ins[5])); fr.ip += 1
                elif op == 'br':
                    c = ev(regs, ins[1])
                    r = self.decide(st, c)
                    if r is None:
                        self.fork_note += 1
                        s2 = st.fork()
                        self.addpc(s2, lnot(c)); self.goto(s2.frames[-1], ins[3]); work.append(s2)
                        self.addpc(st, c); self.goto(fr, ins[2])
                    else:
                        self.goto(fr, ins[2] if r else ins[3])
                elif op == 'jmp': self.goto(fr, ins[1])
                elif op == 'cast':
                    _, d, o, t, a, t2 = ins
                    v = ev(regs, a)
                    if o in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
                        w1 = 64 if t == 'ptr' else t[1]; w2 = 64 if t2 == 'ptr' else t2[1]
                        v = extract(v, w2 - 1, 0) if w2 < w1 else zext(v, w2)
                    elif o == 'trunc': v = extract(v, t2[1] - 1, 0)
                    elif o == 'zext': v = zext(v, t2[1])
                    elif o == 'sext': v = sext(v, t2[1], t[1])
                    elif o in ('bitcast', 'addrspacecast'):
                        if (isinstance(t, tuple) and t[0] == 'v') or (isinstance(t2, tuple) and t2[0] == 'v'): v = self.vbitcast(v, t, t2)
                    regs[d] = v; fr.ip += 1
                elif op == 'call': self.docall(st, fr, ins)
                elif op == 'select':
                    _, d, t, c, a, b = ins
                    cv = ev(regs, c); x, y = ev(regs, a), ev(regs, b)
                    if isinstance(cv, int): regs[d] = x if cv else y
                    elif isinstance(x, list): raise Unsupported('select of aggregates')
                    else: regs[d] = ite(cv, x, y, 64 if t in ('ptr', ('i', 1)) and t == 'ptr' else t[1] if isinstance(t, tuple) and t[0] == 'i' else self.bits(x, y))
                    fr.ip += 1
                elif op == 'ret':
                    v = ev(regs, ins[2]) if ins[1] is not None else None
                    for a in fr.allocas: st.mem.pop(a >> 32, None)
                    st.frames.pop()
                    if not st.frames:
                        st.ghost['ret'] = v
                        raise PathEnd('return')
                    up = st.frames[-1]
                    if fr.dest: up.regs[fr.dest] = v
                    if fr.norm: self.goto(up, fr.norm)
                    else: up.ip += 1
                elif op == 'alloca':
                    n = ev(regs, ins[3])
                    a = self.alloc(st, self.mod.size(ins[2]) * n, 'stack object in ' + fr.f.name)
                    fr.allocas.append(a); regs[ins[1]] = a; fr.ip += 1
                elif op == 'switch':
                    _, w, v, dflt, cs = ins
                    x = ev(regs, v)
                    if isinstance(x, int):
                        for c, l in cs:
                            if c == x: self.goto(fr, l); break
                        else: self.goto(fr, dflt)
                    else:
                        outs = [(eq(w, x, c), l) for c, l in cs]
                        none = 1
                        for c, _ in outs: none = land(none, lnot(c))
                        outs.append((none, dflt))
                        ok = [(c, l) for c, l in outs if (c if isinstance(c, int) else self.sat(st, c))]
                        if not ok: raise PathEnd('infeasible')
                        for c, l in ok[1:]:
                            s2 = st.fork(); self.addpc(s2, c); self.goto(s2.frames[-1], l); work.append(s2)
                        self.addpc(st, ok[0][0]); self.goto(fr, ok[0][1])
                elif op == 'xval':
                    v = ev(regs, ins[2])
                    for k in ins[3]: v = v[k]
                    regs[ins[1]] = v; fr.ip += 1
                elif op == 'ival':
                    _, d, t, v, e, ix = ins
                    regs[d] = self.insval(ev(regs, v), ix, ev(regs, e)); fr.ip += 1
                elif op == 'mov': regs[ins[1]] = ev(regs, ins[3]); fr.ip += 1
                elif op == 'nop': fr.ip += 1
                elif op == 'unreachable':
                    self.violate(st, 'unreachable code reached in ' + fr.f.name); raise PathEnd('ub')
                elif op == 'rmw':
                    _, d, k, t, a, v = ins
                    ad = ev(regs, a); old = self.load(st, t, ad); x = ev(regs, v); w = 64 if t == 'ptr' else t[1]
                    new = x if k == 'xchg' else tm.binop({'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[k], w, old, x)
                    self.store(st, t, new, ad); regs[d] = old; fr.ip += 1
                elif op == 'cmpxchg':
                    _, d, t, a, c, v = ins
                    ad = ev(regs, a); old = self.load(st, t, ad); w = 64 if t == 'ptr' else t[1]
                    e = eq(w, old, ev(regs, c))
                    if not isinstance(e, int): raise Unsupported('symbolic cmpxchg')
                    if e: self.store(st, t, ev(regs, v), ad)
                    regs[d] = [old, e]; fr.ip += 1
                elif op == 'vbin':
                    _, d, o, t, a, b = ins
                    x, y = ev(regs, a), ev(regs, b); regs[d] = [tm.binop(o, t[2][1], p, q) for p, q in zip(x, y)]; fr.ip += 1
                else: raise Unsupported('instruction: %s' % (ins,))
            except Fork as f:
                conds = [c for c in f.conds if (c if isinstance(c, int) else self.sat(st, c))]
                if not conds: raise PathEnd('infeasible')
                for c in conds[1:]:
                    s2 = st.fork(); self.addpc(s2, c); work.append(s2)
                self.addpc(st, conds[0])
    def bits(self, x, y):
        for v in (x, y):
            if isinstance(v, T): return v.w
        return 64
    def vbitcast(self, v, t, t2):
        def w(t): return t[1] if t[0] == 'i' else 64 if t == 'ptr' else t[1] * w(t[2])
        if t[0] == 'v': x = cat([(e, w(t[2])) for e in reversed(v)])
        else: x = v
        if t2[0] == 'v': n = w(t2[2]); return [extract(x, n * k + n - 1, n * k) for k in range(t2[1])]
        return x
    def insval(self, v, ix, e):
        v = list(v)
        v[ix[0]] = e if len(ix) == 1 else self.insval(v[ix[0]], ix[1:], e)
        return v
    def gepaddr(self, t, base, idx):
        m = self.mod
        a = base
        first = True
        for it, v in idx:
            w = it[1]
            if first: s = m.size(t); first = False
            elif t[0] in 'av': t = t[2]; s = m.size(t)
            elif t[0] == 's':
                offs, _ = m.layout(t); a = tm.add(64, a, offs[v]); t = t[2][v]; continue
            else: raise Unsupported('gep into %s' % (t,))
            v = sext(v, 64, w) if w < 64 else v
            if isinstance(v, int) and isinstance(a, int): a = (a + s * sgn(v & M(64), 64)) & M(64)
            else: a = tm.add(64, a, tm.mul(64, v, s))
        return a
    def ubcheck(self, st, o, w, x, y, fl):
        where = st.frames[-1].f.name
        if o in ('add', 'sub', 'mul') and 'nsw' in fl:
            a, b = tm.srange(x, w); c, d = tm.srange(y, w)
            if o == 'add': lo, hi = a + c, b + d
            elif o == 'sub': lo, hi = a - d, b - c
            else:
                q = (a * c, a * d, b * c, b * d); lo, hi = min(q), max(q)
            lab = 'no signed overflow in ' + where
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): self.note(lab, 0); return
            if o == 'mul': W = 2 * w
            else: W = w + 1
            X, Y = sext(x, W, w), sext(y, W, w)
            r = tm.binop(o, W, X, Y)
            ok = land(tm.sle(W, -(1 << (w - 1)) & M(W), r), tm.sle(W, r, (1 << (w - 1)) - 1))
            self.prove(st, ok, lab)
        elif o in ('shl', 'lshr', 'ashr'):
            lo, hi = tm.urange(y)
            if hi < w: return
            self.prove(st, tm.ult(w, y, w), 'shift amount in range in ' + where)
        elif o in ('sdiv', 'udiv', 'srem', 'urem'):
            self.prove(st, lnot(eq(w, y, 0)), 'no division by zero in ' + where)
    def docall(self, st, fr, ins):
        _, d, rt, callee, args, norm, nr = ins
        regs = fr.regs
        if callee[0] == 'asm':
            txt = callee[1].strip('"')
            if txt.strip() == '':
                if d: regs[d] = self.ev(regs, args[0][1])
                return self.after(fr, norm)
            raise Unsupported('inline assembly: ' + txt[:80])
        if callee[0] == 'r' :
            a = self.conc(st, regs[callee[1]], 'function pointer'); name = self.addrfn.get(a)
            if name is None: self.violate(st, 'call through an invalid function pointer'); raise PathEnd('ub')
        elif callee[0] == 'g': name = callee[1]
        else: raise Unsupported('callee %s' % (callee,))
        vals = [self.ev(regs, v) for _, v in args]
        h = self.hooks.get(name)
        if h and name[0] == '@' and not name.startswith('@vf_'): self.used.add(name[1:])
        if h is None and name.startswith('@llvm.'):
            h = intrinsic(name)
            if h is None: raise Unsupported('intrinsic ' + name)
        if h is not None:
            r = h(self, st, vals, args, rt)
            if r is ENTER: pass      # the hook pushed a frame itself
            else:
                if d: regs[d] = r
                return self.after(fr, norm)
            return
        if (nr or name in self.mod.noreturn):
            # every diverging function of the Rust runtime is a panic
            self.panic(st, name)
        if name not in self.mod.funcs: raise Unsupported('external function ' + name)
        self.call(st, name, vals, d, norm, rt)
    def after(self, fr, norm):
        if norm: self.goto(fr, norm)
        else: fr.ip += 1
    def panic(self, st, name):
        if st.ghost.get('panic_ok'):
            raise PathEnd('panic', name)
        self.violate(st, 'no panic: %s called from %s' % (name, st.frames[-1].f.name))
        raise PathEnd('panic', name)

ENTER = object()
# -------------------------------------------------------------------- library and intrinsics
HOOKS = {}
def hook(*names):
    def d(f):
        for n in names: HOOKS['@' + n] = f
        return f
    return d
def intrinsic(name):
    n = name[6:]
    for k, f in INTR:
        if n.startswith(k): return f
    return None
def _nop(e, st, v, a, rt): return 0
def _memcpy(e, st, v, a, rt):
    n = e.conc(st, v[2], 'length')
    e.wrbytes(st, v[0], e.rdbytes(st, v[1], n)); return v[0]
def _memset(e, st, v, a, rt):
    n = e.conc(st, v[2], 'length'); c = extract(v[1], 7, 0)
    e.wrbytes(st, v[0], [c] * n); return v[0]
def _w(a): return a[0][0][1]
def _minmax(p):
    def f(e, st, v, a, rt):
        w = _w(a); return ite(tm.icmp(p, w, v[0], v[1]), v[0], v[1], w)
    return f
def _ovf(op, s):
    def f(e, st, v, a, rt):
        w = _w(a); W = 2 * w if op == 'mul' else w + 1
        x, y = (sext(v[0], W, w), sext(v[1], W, w)) if s else (zext(v[0], W), zext(v[1], W))
        r = tm.binop(op, W, x, y)
        lowr = extract(r, w - 1, 0)
        back = sext(lowr, W, w) if s else zext(lowr, W)
        if not s:
            (al, ah), (bl, bh) = tm.urange(v[0]), tm.urange(v[1])
            if op == 'add' and ah + bh < (1 << w): return [lowr, 0]
            if op == 'sub': return [lowr, tm.ult(w, v[0], v[1])]
        return [lowr, lnot(eq(W, r, back))]
    return f
def _sat(op, s):
    def f(e, st, v, a, rt):
        w = _w(a)
        if s: raise Unsupported('signed saturation')
        if op == 'sub': return ite(tm.ult(w, v[0], v[1]), 0, tm.sub(w, v[0], v[1]), w)
        r = tm.add(w, v[0], v[1]); return ite(tm.ult(w, r, v[0]), M(w), r, w)
    return f
def _ctz(e, st, v, a, rt):
    w = _w(a); x = e.conc(st, v[0], 'cttz operand') if isinstance(v[0], T) else v[0]
    return w if x == 0 else (x & -x).bit_length() - 1
def _clz(e, st, v, a, rt):
    w = _w(a)
    if isinstance(v[0], T):
        r = w
        for k in range(w): r = ite(extract(v[0], k, k), w - 1 - k, r, w)
        return r
    return w - v[0].bit_length()
def _pop(e, st, v, a, rt):
    w = _w(a)
    if isinstance(v[0], int): return bin(v[0]).count('1')
    r = 0
    for k in range(w): r = tm.add(w, r, zext(extract(v[0], k, k), w))
    return r
def _bswap(e, st, v, a, rt):
    w = _w(a)
    if isinstance(v[0], int): return int.from_bytes(v[0].to_bytes(w // 8, 'little'), 'big')
    return cat([(extract(v[0], 8 * k + 7, 8 * k), 8) for k in range(w // 8)])
def _fsh(left):
    def f(e, st, v, a, rt):
        w = _w(a); s = e.conc(st, v[2], 'funnel shift') % w
        x = cat([(v[0], w), (v[1], w)])
        return extract(x, 2 * w - 1 - s, w - s) if left else extract(x, w - 1 + s, s)
    return f
def _cmp3(s):
    def f(e, st, v, a, rt):
        w = _w(a); lt = tm.slt(w, v[0], v[1]) if s else tm.ult(w, v[0], v[1])
        return ite(lt, M(rt[1]), ite(eq(w, v[0], v[1]), 0, 1, rt[1]), rt[1])
    return f
def _abs(e, st, v, a, rt):
    w = _w(a); return ite(tm.slt(w, v[0], 0), tm.sub(w, 0, v[0]), v[0], w)
def _trap(e, st, v, a, rt): e.panic(st, '@llvm.trap')
def _first(e, st, v, a, rt): return v[0]
INTR = [('lifetime', _nop), ('assume', _nop), ('experimental.noalias', _nop), ('dbg', _nop), ('prefetch', _nop), ('memcpy', _memcpy), ('memmove', _memcpy), ('memset', _memset),
        ('umax', _minmax('ugt')), ('umin', _minmax('ult')), ('smax', _minmax('sgt')), ('smin', _minmax('slt')), ('abs', _abs),
        ('sadd.with', _ovf('add', True)), ('uadd.with', _ovf('add', False)), ('ssub.with', _ovf('sub', True)), ('usub.with', _ovf('sub', False)),
        ('smul.with', _ovf('mul', True)), ('umul.with', _ovf('mul', False)), ('usub.sat', _sat('sub', False)), ('uadd.sat', _sat('add', False)),
        ('cttz', _ctz), ('ctlz', _clz), ('ctpop', _pop), ('bswap', _bswap), ('fshl', _fsh(True)), ('fshr', _fsh(False)), ('ucmp', _cmp3(False)), ('scmp', _cmp3(True)),
        ('expect', _first), ('is.constant', _nop), ('threadlocal.address', _first), ('trap', _trap), ('ptrmask', lambda e, st, v, a, rt: tm.band(64, v[0], v[1])),
        ('launder', _first), ('strip', _first), ('stacksave', _nop), ('stackrestore', _nop), ('x86.sse2.pause', _nop)]

def memeq(e, st, p, q, n):
    a, b = e.rdbytes(st, p, n), e.rdbytes(st, q, n)
    if not n: return 1
    return eq(8 * n, e.cells2val(st, a, 8 * n), e.cells2val(st, b, 8 * n))
@hook('bcmp')
def h_bcmp(e, st, v, a, rt):
    n = e.conc(st, v[2], 'length'); return ite(memeq(e, st, v[0], v[1], n), 0, 1, 32)
@hook('memcmp')
def h_memcmp(e, st, v, a, rt):
    n = e.conc(st, v[2], 'length')
    x, y = e.rdbytes(st, v[0], n), e.rdbytes(st, v[1], n)
    if not n: return 0
    A = cat([(c, 8) for c in x]); B = cat([(c, 8) for c in y]); w = 8 * n
    q = memeq(e, st, v[0], v[1], n)
    return ite(q, 0, ite(tm.ult(w, A, B), M(32), 1, 32), 32)
HOOKS['@memcpy'] = HOOKS['@memmove'] = _memcpy
HOOKS['@memset'] = _memset
@hook('malloc')
def h_malloc(e, st, v, a, rt): return e.alloc(st, e.conc(st, v[0], 'size'), 'heap object')
@hook('calloc')
def h_calloc(e, st, v, a, rt): return e.alloc(st, e.conc(st, v[0], 'size') * e.conc(st, v[1], 'size'), 'heap object', 0)
@hook('free')
def h_free(e, st, v, a, rt):
    p = e.conc(st, v[0])
    if p == 0: return 0
    o, off = e.obj(st, p, 0, 'free', True)
    if off: e.violate(st, 'memory safety: free of an interior pointer'); raise PathEnd('ub')
    o.live = False; o.cells = []; o.n = 0
    return 0
@hook('realloc')
def h_realloc(e, st, v, a, rt):
    p = e.conc(st, v[0]); n = e.conc(st, v[1], 'size')
    if p == 0: return e.alloc(st, n, 'heap object')
    o, off = e.obj(st, p, 0, 'realloc', True)
    q = e.alloc(st, n, 'heap object')
    k = min(n, o.n)
    e.wrbytes(st, q, o.cells[:k])
    o.live = False; o.cells = []; o.n = 0
    return q
@hook('posix_memalign')
def h_pma(e, st, v, a, rt):
    q = e.alloc(st, e.conc(st, v[2], 'size'), 'heap object'); e.store(st, 'ptr', q, v[0]); return 0
@hook('aligned_alloc')
def h_aa(e, st, v, a, rt): return e.alloc(st, e.conc(st, v[1], 'size'), 'heap object')
@hook('strlen')
def h_strlen(e, st, v, a, rt):
    n = 0
    while True:
        c = e.rdbytes(st, v[0] + n, 1)[0]
        if c == 0 and isinstance(c, int): return n
        n += 1
# -------------------------------------------------------------------- harness interface
def cstring(e, st, p, n): return bytes(e.rdbytes(st, p, n)).decode()
@hook('vf_any')
def h_any(e, st, v, a, rt):
    n = e.conc(st, v[1], 'size'); tag = cstring(e, st, v[2], v[3])
    k = st.ghost.get('n:' + tag, 0); st.ghost['n:' + tag] = k + 1
    x = tm.var('%s#%d' % (tag, k), 8 * n) if n else 0
    e.wrterm(st, v[0], x, n)
    return 0
@hook('vf_assume')
def h_assume(e, st, v, a, rt):
    c = extract(v[0], 0, 0)
    if not e.sat(st, c): raise PathEnd('infeasible')
    e.addpc(st, c); return 0
@hook('vf_assert')
def h_assert(e, st, v, a, rt):
    if not e.prove(st, extract(v[0], 0, 0), cstring(e, st, v[1], v[2])): raise PathEnd('failed')
    return 0
@hook('vf_reach')
def h_reach(e, st, v, a, rt): st.labels.append(cstring(e, st, v[0], v[1])); return 0
@hook('vf_panic_ok')
def h_pok(e, st, v, a, rt): st.ghost['panic_ok'] = v[0]; return 0
@hook('vf_eq')
def h_eq(e, st, v, a, rt):
    n = e.conc(st, v[2], 'length'); return memeq(e, st, v[0], v[1], n)
@hook('vf_choice')
def h_choice(e, st, v, a, rt):
    """an arbitrary number below v[0], decided by splitting the proof"""
    k = st.ghost.get('choice', 0)
    x = tm.var('choice#%d' % k, 64)
    e.addpc(st, tm.ult(64, x, v[0]))
    r = e.conc(st, x, 'choice')
    st.ghost['choice'] = k + 1
    return r
@hook('vf_dep')
def h_dep(e, st, v, a, rt):
    """does every byte's term mention a variable with this tag"""
    n = e.conc(st, v[1]); tag = cstring(e, st, v[2], v[3]) + '#'
    t = e.rdterm(st, v[0], n)
    memo = {}
    for i in range(n):
        b = extract(t, 8 * i + 7, 8 * i)
        if not tm.mentions(b, tag, memo): return 0
    return 1
