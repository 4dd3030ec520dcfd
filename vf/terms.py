"""Hash-consed bit-vector terms with a bit-slice normal form, interval analysis
and a translation to z3.  A value is a Python int (constant) or a T."""
from bisect import bisect_right
import z3

class T:
    __slots__ = ('op', 'a', 'w', 'id', '_z', '_r', '_nb', '_o')
    def __repr__(self): return show(self, 4)

_tab = {}
_next = [0]
def mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.w = w; t.id = _next[0]; t._z = None; t._r = None; t._nb = None; t._o = None
        _next[0] += 1
        _tab[k] = t
    return t

def show(t, d=4):
    if not isinstance(t, T): return hex(t) if t > 9 else str(t)
    if t.op == 'var': return t.a[0]
    if d == 0: return '..'
    if t.op == 'cat': return '{%s%s}' % (','.join('%s:%d' % (show(p, d - 1), w) for p, w in t.a[:5]), ',..%d' % len(t.a) if len(t.a) > 5 else '')
    return '%s%s(%s)' % (t.op, t.w, ','.join(show(x, d - 1) if isinstance(x, (T, int)) else show(x[0], d - 1) if isinstance(x, tuple) and x and isinstance(x[0], (T, int)) else x if isinstance(x, str) else '~' for x in t.a[:5]))

def M(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

RANGES = {}      # var name -> (lo, hi) signed interval, set by the harness with its assumption
def var(name, w): return mk('var', (name,), w)
_fresh = [0]
def fresh(name, w):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w)

# ---------------------------------------------------------------- slices
def extract(t, hi, lo):
    """bits hi..lo of t"""
    w = hi - lo + 1
    if isinstance(t, int): return (t >> lo) & M(w)
    if lo == 0 and w == t.w: return t
    op = t.op
    if op == 'ext':
        return extract(t.a[0], hi + t.a[1], lo + t.a[1])
    if op == 'cat':
        o = t._o
        if o is None:                       # offsets of the pieces from the top
            o = [0]
            for _, pw in t.a: o.append(o[-1] + pw)
            t._o = o
        out = []; top = t.w - 1 - hi; k = bisect_right(o, top) - 1; ps = t.a
        while k < len(ps) and t.w - o[k] > lo:
            p, pw = ps[k]; pos = t.w - o[k] - pw    # piece covers pos .. pos+pw-1
            h, l = min(hi, pos + pw - 1), max(lo, pos)
            out.append((extract(p, h - pos, l - pos), h - l + 1)); k += 1
        return cat(out)
    if op == 'xor':
        r = 0
        for x in t.a: r = bxor(w, r, extract(x, hi, lo))
        return r
    if op in ('and', 'or'):
        x, y = extract(t.a[0], hi, lo), extract(t.a[1], hi, lo)
        return band(w, x, y) if op == 'and' else bor(w, x, y)
    if op == 'ite' and (isinstance(t.a[1], int) or isinstance(t.a[2], int) or w >= 8):
        return ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo), w)
    if op == 'sext':
        x = t.a[0]
        if hi < x.w: return extract(x, hi, lo)
        if lo == 0: return sext(x, w)
    if lo == 0 and op in ('add', 'sub', 'mul', 'neg'):     # low bits of ring operations
        xs = [extract(x, hi, 0) for x in t.a]
        if op == 'add': return add(w, *xs)
        if op == 'sub': return sub(w, *xs)
        if op == 'mul': return mul(w, *xs)
    return mk('ext', (t, lo), w)

def cat(pieces):
    """pieces: (value, width) from the most significant down"""
    out = []
    for p, w in pieces:
        if w == 0: continue
        if isinstance(p, T) and p.op == 'cat': src = p.a
        else: src = ((p, w),)
        for q, qw in src:
            if out:
                r, rw = out[-1]
                if isinstance(q, int) and isinstance(r, int):
                    out[-1] = ((r << qw) | q, rw + qw); continue
                if isinstance(q, T) and isinstance(r, T):
                    rb, rl = (r.a[0], r.a[1]) if r.op == 'ext' else (r, 0)
                    qb, ql = (q.a[0], q.a[1]) if q.op == 'ext' else (q, 0)
                    if rb is qb and rl == ql + qw:
                        out[-1] = (extract(qb, rl + rw - 1, ql), rw + qw); continue
                    if r.op == 'ext' and rl >= qw and (rb.op in ('add', 'sub', 'mul', 'sext', 'ite', 'ashr')) and extract(rb, rl - 1, rl - qw) is q:
                        out[-1] = (extract(rb, rl + rw - 1, rl - qw), rw + qw); continue
            out.append((q, qw))
    if len(out) == 1: return out[0][0]
    return mk('cat', tuple(out), sum(w for _, w in out))

def pieces(t, w):
    if isinstance(t, T) and t.op == 'cat': return t.a
    return ((t, w),)

def segs(w, a, b):
    """common refinement of the two piece lists, MSB first: (x, y, width)"""
    pa, pb = list(pieces(a, w)), list(pieces(b, w))
    cuts = set([0, w])
    for ps in (pa, pb):
        pos = w
        for _, pw in ps: pos -= pw; cuts.add(pos)
    for c in (a, b):            # cut constants at their runs
        if isinstance(c, int):
            prev = None
            bits = bin(c)[2:].zfill(w)
            i = 0
            while i < w:
                j = i
                while j < w and bits[j] == bits[i]: j += 1
                cuts.add(w - i); cuts.add(w - j)
                i = j
    cs = sorted(cuts, reverse=True)
    return [(extract(a, h - 1, l), extract(b, h - 1, l), h - l) for h, l in zip(cs, cs[1:])]

def zext(x, w):
    if isinstance(x, int): return x
    if x.w == w: return x
    return cat([(0, w - x.w), (x, x.w)])
def sext(x, w, fw=None):
    if isinstance(x, int): return sgn(x, fw) & M(w)
    if x.w == w: return x
    if x.op == 'cat' and x.a[0][0] == 0 and isinstance(x.a[0][0], int): return zext(x, w)
    if x.op == 'sext': return sext(x.a[0], w)
    return mk('sext', (x,), w)
def trunc(x, w): return extract(x, w - 1, 0)

# ---------------------------------------------------------------- bitwise
def bnot(w, a): return bxor(w, a, M(w))
def _tri(t): return isinstance(t, T) and t.op == 'cat'
def bxor(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return a ^ b
    if a == 0 and isinstance(a, int): return b
    if b == 0 and isinstance(b, int): return a
    if a is b: return 0
    if _tri(a) or _tri(b):
        S = segs(w, a, b)
        if (_tri(a) and _tri(b)) or any((isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0) for x, y, _ in S):
            return cat([(bxor(n, x, y), n) for x, y, n in S])
    items = {}
    c = 0
    for s in (a, b):
        for x in (s.a if isinstance(s, T) and s.op == 'xor' else (s,)):
            if isinstance(x, int): c ^= x
            elif x.id in items: del items[x.id]
            else: items[x.id] = x
    xs = [items[k] for k in sorted(items)]
    if not xs: return c
    if c: xs.append(c)
    if len(xs) == 1: return xs[0]
    if w == 1 and len(xs) == 2 and xs[1] == 1 and isinstance(xs[1], int): return lnot(xs[0])
    return mk('xor', tuple(xs), w)
def band(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return a & b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == M(w): return a
        if bin(b).count('1') <= w:
            S = segs(w, a, b)
            if len(S) > 1: return cat([(0 if (isinstance(y, int) and y == 0) else x, n) for x, y, n in S])
    if a is b: return a
    if w == 1: return land(a, b)
    if _tri(a) or _tri(b):
        S = segs(w, a, b)
        if len(S) > 1: return cat([(band(n, x, y), n) for x, y, n in S])
    if isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
    return mk('and', (a, b), w)
def bor(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return a | b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        if b == M(w): return b
        S = segs(w, a, b)
        if len(S) > 1: return cat([(M(n) if (isinstance(y, int) and y == M(n)) else x, n) for x, y, n in S])
    if a is b: return a
    if w == 1: return lor(a, b)
    if _tri(a) or _tri(b):
        S = segs(w, a, b)
        if len(S) > 1: return cat([(bor(n, x, y), n) for x, y, n in S])
    if isinstance(a, T) and isinstance(b, T) and a.id > b.id: a, b = b, a
    return mk('or', (a, b), w)

def nzbit(x, w):
    """recognises (v | -v) : its top bit says v != 0"""
    if isinstance(x, T) and x.op == 'or':
        p, q = x.a
        for u, v in ((p, q), (q, p)):
            if isinstance(v, T) and v.op == 'sub' and v.a[0] == 0 and isinstance(v.a[0], int) and v.a[1] is u: return u
    return None

def shl(w, a, s):
    if isinstance(s, int):
        if s >= w: return 0
        if s == 0: return a
        if isinstance(a, int): return (a << s) & M(w)
        return cat([(extract(a, w - 1 - s, 0), w - s), (0, s)])
    return mk('shl', (a, s), w)
def lshr(w, a, s):
    if isinstance(s, int):
        if s >= w: return 0
        if s == 0: return a
        if isinstance(a, int): return a >> s
        if s == w - 1:
            u = nzbit(a, w)
            if u is not None: return zext(b2v(lnot(eq(w, u, 0))), w)
        return cat([(0, s), (extract(a, w - 1, s), w - s)])
    return mk('lshr', (a, s), w)
def ashr(w, a, s):
    if isinstance(s, int):
        if s == 0: return a
        if isinstance(a, int): return (sgn(a, w) >> min(s, w - 1)) & M(w)
        s = min(s, w - 1)
        if a.op == 'cat' and isinstance(a.a[0][0], int) and not (a.a[0][0] >> (a.a[0][1] - 1)): return lshr(w, a, s)
        return sext(extract(a, w - 1, s), w)
    return mk('ashr', (a, s), w)

# ---------------------------------------------------------------- arithmetic
def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & M(w)
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        if a.op == 'add' and isinstance(a.a[1], int): return add(w, a.a[0], (a.a[1] + b) & M(w))
        if a.op == 'sub' and isinstance(a.a[0], int): return sub(w, (a.a[0] + b) & M(w), a.a[1])
    else:
        if a.op == 'sub' and a.a[1] is b: return a.a[0]
        if b.op == 'sub' and b.a[1] is a: return b.a[0]
        if a.id > b.id: a, b = b, a
    return mk('add', (a, b), w)
def sub(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & M(w)
    if isinstance(b, int): return add(w, a, (-b) & M(w))
    if a is b: return 0
    if isinstance(a, int):
        if b.op == 'sub' and isinstance(b.a[0], int): return add(w, b.a[1], (a - b.a[0]) & M(w))
        if b.op == 'add' and isinstance(b.a[1], int): return sub(w, (a - b.a[1]) & M(w), b.a[0])
    elif a.op == 'add':
        if a.a[0] is b: return a.a[1]
        if a.a[1] is b: return a.a[0]
    return mk('sub', (a, b), w)
def mul(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return (a * b) & M(w)
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shl(w, a, b.bit_length() - 1)
        if a.op == 'mul' and isinstance(a.a[1], int): return mul(w, a.a[0], a.a[1] * b & M(w))
    elif a.id > b.id: a, b = b, a
    return mk('mul', (a, b), w)
def _sdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q
def binop(op, w, a, b):
    if op == 'add': return add(w, a, b)
    if op == 'sub': return sub(w, a, b)
    if op == 'mul': return mul(w, a, b)
    if op == 'and': return band(w, a, b)
    if op == 'or': return bor(w, a, b)
    if op == 'xor': return bxor(w, a, b)
    if op == 'shl': return shl(w, a, b)
    if op == 'lshr': return lshr(w, a, b)
    if op == 'ashr': return ashr(w, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0: raise ZeroDivisionError
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = sgn(a, w), sgn(b, w)
        if op == 'sdiv': return _sdiv(x, y) & M(w)
        if op == 'srem': return (x - _sdiv(x, y) * y) & M(w)
    if isinstance(b, int) and b and b & (b - 1) == 0:
        k = b.bit_length() - 1
        if op == 'udiv': return lshr(w, a, k)
        if op == 'urem': return band(w, a, b - 1)
    return mk(op, (a, b), w)

# ---------------------------------------------------------------- booleans (width 1 values)
def b2v(c): return int(c) if isinstance(c, bool) else c
def lnot(c):
    if isinstance(c, int): return 1 - c
    if c.op == 'not': return c.a[0]
    return mk('not', (c,), 1)
def land(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if a is b: return a
    s = {}
    for x in (a, b):
        for y in (x.a if x.op == 'land' else (x,)): s[y.id] = y
    for y in s.values():
        if y.op == 'not' and y.a[0].id in s: return 0
    return mk('land', tuple(s[k] for k in sorted(s)), 1)
def lor(a, b): return lnot(land(lnot(a), lnot(b)))

def coalesce(c):
    """join byte-wise equalities of adjacent slices into one equality"""
    if isinstance(c, int): return c
    if c.op == 'not': return lnot(coalesce(c.a[0]))
    if c.op != 'land' or len(c.a) < 4: return c
    def key(t):
        """operands (base, offset) of a slice or of an xor of slices"""
        r = []
        for y in (t.a if t.op == 'xor' else (t,)):
            if not isinstance(y, T): return None
            r.append((y.a[0], y.a[1]) if y.op == 'ext' else (y, 0))
        r.sort(key=lambda z: z[0].id)
        return r
    groups, rest = {}, []
    for x in c.a:
        p = q = None
        if x.op == 'eq' and isinstance(x.a[0], T):
            p = key(x.a[0])
            q = key(x.a[1]) if isinstance(x.a[1], T) else [] if x.a[1] == 0 and x.a[0].op == 'xor' else None
        if p is None or q is None: rest.append(x); continue
        if q and [z[0].id for z in p] > [z[0].id for z in q]: p, q = q, p
        i = p[0][1]
        k = (tuple((z[0].id, z[1] - i) for z in p), tuple((z[0].id, z[1] - i) for z in q))
        groups.setdefault(k, []).append((i, x.a[0].w, p, q, x))
    r = 1
    def build(ops, d, w):
        t = 0
        for z, o in ops: t = bxor(w, t, extract(z, o + w - 1, o))
        return t
    for g in groups.values():
        g.sort(key=lambda z: z[0])
        k = 0
        while k < len(g):
            i, w, p, q, x = g[k]; n = k + 1
            while n < len(g) and g[n][0] == i + w: w += g[n][1]; n += 1
            if n - k >= 4 and not (len(p) == len(q) == 1 and p[0][0] is q[0][0]):
                r = land(r, eq(w, build(p, 0, w), build(q, 0, w)))
            else:
                for z in g[k:n]: r = land(r, z[4])
            k = n
    for x in rest: r = land(r, x)
    return r

EQ_HOOK = [None]       # (w, a, b) -> 0/1/T/None : ideal-function rules
def eq(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return int(a == b)
    if a is b: return 1
    if isinstance(a, int): a, b = b, a
    if w == 1:
        if isinstance(b, int): return a if b else lnot(a)
    if EQ_HOOK[0] is not None:
        r = EQ_HOOK[0](w, a, b)
        if r is not None: return r
    if isinstance(b, int):
        if a.op == 'xor':
            c = a.a[-1] if isinstance(a.a[-1], int) else 0
            rest = a.a[:-1] if c else a.a
            if len(rest) == 1: return eq(w, rest[0], b ^ c)
            if len(rest) == 2 and (b ^ c) == 0: return eq(w, rest[0], rest[1])
        if a.op == 'ite':
            x, y = eq(w, a.a[1], b), eq(w, a.a[2], b)
            if isinstance(x, int) or isinstance(y, int): return ite(a.a[0], x, y, 1)
        if a.op == 'add' and isinstance(a.a[1], int): return eq(w, a.a[0], (b - a.a[1]) & M(w))
        if a.op == 'sext':
            x = a.a[0]
            if sext(b & M(x.w), w, x.w) != b: return 0
            return eq(x.w, x, b & M(x.w))
        lo, hi = urange(a)
        if b < lo or b > hi: return 0
    if _tri(a) or _tri(b):
        S = segs2(w, a, b)
        r = 1
        for x, y, n in S:
            r = land(r, eq(n, x, y))
            if isinstance(r, int) and r == 0: return 0
        return coalesce(r) if EQ_HOOK[0] is not None else r
    if isinstance(b, T) and a.op == 'xor' and b.op == 'xor' and set(a.a) & set(b.a):
        d = bxor(w, a, b)
        return int(d == 0) if isinstance(d, int) else eq(w, d, 0)
    if isinstance(b, T) and a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 1)
def segs2(w, a, b):
    cuts = set([0, w])
    for t in (a, b):
        if _tri(t):
            pos = w
            for _, pw in t.a: pos -= pw; cuts.add(pos)
    cs = sorted(cuts, reverse=True)
    return [(extract(a, h - 1, l), extract(b, h - 1, l), h - l) for h, l in zip(cs, cs[1:])]
def ult(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return int(a < b)
    if a is b: return 0
    if isinstance(b, int) and b == 0: return 0
    al, ah = urange(a, w); bl, bh = urange(b, w)
    if ah < bl: return 1
    if al >= bh: return 0
    return mk('ult', (a, b), 1)
def slt(w, a, b):
    if isinstance(a, int) and isinstance(b, int): return int(sgn(a, w) < sgn(b, w))
    if a is b: return 0
    if isinstance(a, int) and a == M(w) and isinstance(b, T):
        u = nzbit(b, w)
        if u is not None: return eq(w, u, 0)
    if isinstance(b, int) and b == 0 and isinstance(a, T):
        u = nzbit(a, w)
        if u is not None: return lnot(eq(w, u, 0))
    al, ah = srange(a, w); bl, bh = srange(b, w)
    if ah < bl: return 1
    if al >= bh: return 0
    return mk('slt', (a, b), 1)
def ule(w, a, b): return lnot(ult(w, b, a))
def sle(w, a, b): return lnot(slt(w, b, a))
def icmp(p, w, a, b):
    if p == 'eq': return eq(w, a, b)
    if p == 'ne': return lnot(eq(w, a, b))
    if p == 'ult': return ult(w, a, b)
    if p == 'ugt': return ult(w, b, a)
    if p == 'ule': return ule(w, a, b)
    if p == 'uge': return ule(w, b, a)
    if p == 'slt': return slt(w, a, b)
    if p == 'sgt': return slt(w, b, a)
    if p == 'sle': return sle(w, a, b)
    if p == 'sge': return sle(w, b, a)
    raise ValueError(p)
def ite(c, a, b, w):
    if isinstance(c, int): return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return a
    if c.op == 'not': c, a, b = c.a[0], b, a
    if w == 1:
        if isinstance(a, int) and isinstance(b, int): return c if a else lnot(c)
        if isinstance(a, int): return lor(c, b) if a else land(lnot(c), b)
        if isinstance(b, int): return lor(lnot(c), a) if b else land(c, a)
    if isinstance(a, int) and isinstance(b, int) and a < 2 and b < 2: return zext(c if a else lnot(c), w)
    if isinstance(a, T) and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if isinstance(b, T) and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk('ite', (c, a, b), w)
def uf(name, args, w):
    """an unknown function; args: terms/ints with widths ((v,w),...)"""
    return mk('uf', (name,) + tuple(args), w)

# ---------------------------------------------------------------- intervals
def urange(t, w=None):
    if isinstance(t, int): return (t, t)
    r = ranges(t); return r[0], r[1]
def srange(t, w):
    if isinstance(t, int): return (sgn(t, w), sgn(t, w))
    r = ranges(t); return r[2], r[3]
def _fromu(lo, hi, w):
    h = 1 << (w - 1)
    if hi < h: return (lo, hi, lo, hi)
    if lo >= h: return (lo, hi, lo - (1 << w), hi - (1 << w))
    return (lo, hi, -h, h - 1)
def _froms(lo, hi, w):
    if lo >= 0: return (lo, hi, lo, hi)
    if hi < 0: return (lo + (1 << w), hi + (1 << w), lo, hi)
    return (0, M(w), lo, hi)
def ranges(t):
    if t._r is not None: return t._r
    stack = [t]
    while stack:
        x = stack[-1]
        if x._r is not None: stack.pop(); continue
        kids = [p for p, _ in x.a] if x.op == 'cat' else ([] if x.op in ('uf', 'var') else [y for y in x.a if isinstance(y, T)])
        todo = [k for k in kids if isinstance(k, T) and k._r is None]
        if todo: stack.extend(todo); continue
        x._r = _rng(x); stack.pop()
    return t._r
def _rng(t):
    w, op = t.w, t.op
    full = _fromu(0, M(w), w)
    if op == 'var':
        r = RANGES.get(t.a[0])
        return _froms(max(r[0], -(1 << (w - 1))), min(r[1], (1 << (w - 1)) - 1), w) if r else full
    if op == 'cat':
        lo = hi = 0
        for p, pw in t.a:
            a, b = urange(p); lo = (lo << pw) | a; hi = (hi << pw) | b
        return _fromu(lo, hi, w)
    if op == 'ext':
        x, l = t.a
        a, b = urange(x)
        if b >> l <= M(w) : return _fromu(a >> l, b >> l, w)
        if l + w == x.w:
            a, b = srange(x, x.w)
            return _froms(a >> l, b >> l, w)
        if l == 0:
            a, b = srange(x, x.w)
            if -(1 << (w - 1)) <= a and b < (1 << (w - 1)): return _froms(a, b, w)
        return full
    if op == 'sext':
        x = t.a[0]; a, b = srange(x, x.w); return _froms(a, b, w)
    if op in ('add', 'sub', 'mul'):
        x, y = t.a
        a, b = srange(x, w); c, d = srange(y, w)
        if op == 'add': lo, hi = a + c, b + d
        elif op == 'sub': lo, hi = a - d, b - c
        else:
            q = (a * c, a * d, b * c, b * d); lo, hi = min(q), max(q)
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)): return _froms(lo, hi, w)
        a, b = urange(x); c, d = urange(y)
        if op == 'add': lo, hi = a + c, b + d
        elif op == 'sub': lo, hi = a - d, b - c
        else: lo, hi = a * c, b * d
        if lo >= 0 and hi <= M(w): return _fromu(lo, hi, w)
        return full
    if op == 'and':
        a, b = urange(t.a[0]); c, d = urange(t.a[1]); return _fromu(0, min(b, d), w)
    if op in ('or', 'xor'):
        m = 0
        for x in t.a: m = max(m, urange(x)[1])
        return _fromu(0, M(m.bit_length()), w)
    if op == 'ite':
        a, b = srange(t.a[1], w), srange(t.a[2], w)
        c, d = urange(t.a[1]), urange(t.a[2])
        s = _froms(min(a[0], b[0]), max(a[1], b[1]), w)
        return (max(s[0], min(c[0], d[0])), min(s[1], max(c[1], d[1])), s[2], s[3])
    if op == 'urem' and isinstance(t.a[1], int): return _fromu(0, t.a[1] - 1, w)
    if op == 'srem' and isinstance(t.a[1], int):
        m = abs(sgn(t.a[1], w)) - 1; a, b = srange(t.a[0], w)
        return _froms(-m if a < 0 else 0, m if b > 0 else 0, w)
    if op == 'sdiv' and isinstance(t.a[1], int) and sgn(t.a[1], w) > 0:
        a, b = srange(t.a[0], w); d = t.a[1]; return _froms(_sdiv(a, d), _sdiv(b, d), w)
    if op == 'udiv' and isinstance(t.a[1], int):
        a, b = urange(t.a[0]); return _fromu(a // t.a[1], b // t.a[1], w)
    return full

# ---------------------------------------------------------------- z3
UFV = {}      # id -> uf term translated as an opaque constant
def Z(t, w=None):
    if isinstance(t, int): return z3.BitVecVal(t, w)
    if t._z is not None: return t._z
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None: stack.pop(); continue
        kids = [p for p, _ in x.a if isinstance(p, T)] if x.op == 'cat' else ([] if x.op == 'uf' or x.op == 'ext' and x.a[0].op in ('var', 'uf') and x.a[0].w > 64 and x.a[0].w % 8 == 0 else [y for y in x.a if isinstance(y, T)])
        todo = [k for k in kids if k._z is None]
        if todo: stack.extend(todo); continue
        x._z = _toz(x); stack.pop()
    return t._z
def _b(c): return z3.BoolVal(bool(c)) if isinstance(c, int) else c._z if z3.is_bool(c._z) else c._z == z3.BitVecVal(1, 1)
def _v(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    return z3.If(x._z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(x._z) else x._z
def _wide(n, w, hi, lo):
    """bits hi..lo of a wide constant, which the solver sees as its bytes n@0, n@1, ..."""
    bs = [z3.BitVec('%s@%d' % (n, k), 8) for k in range(hi // 8, lo // 8 - 1, -1)]
    z = z3.Concat(*bs) if len(bs) > 1 else bs[0]
    if (hi + 1) % 8 == 0 and lo % 8 == 0: return z
    b = lo // 8 * 8
    return z3.Extract(hi - b, lo - b, z)
def _toz(t):
    op, w, a = t.op, t.w, t.a
    if op == 'var': return _wide(a[0], w, w - 1, 0) if w > 64 and w % 8 == 0 else z3.BitVec(a[0], w)
    if op == 'uf':
        UFV[t.id] = t
        n = 'uf!%d' % t.id
        return _wide(n, w, w - 1, 0) if w > 64 and w % 8 == 0 else z3.BitVec(n, w)
    if op == 'ext' and a[0].op in ('var', 'uf') and a[0].w > 64 and a[0].w % 8 == 0:
        if a[0].op == 'uf': UFV[a[0].id] = a[0]
        return _wide(a[0].a[0] if a[0].op == 'var' else 'uf!%d' % a[0].id, a[0].w, a[1] + w - 1, a[1])
    if op == 'cat': return z3.Concat(*[_v(p, pw) for p, pw in a])
    if op == 'ext': return z3.Extract(a[1] + w - 1, a[1], _v(a[0], a[0].w))
    if op == 'sext': return z3.SignExt(w - a[0].w, _v(a[0], a[0].w))
    if op == 'xor':
        r = _v(a[0], w)
        for x in a[1:]: r = r ^ _v(x, w)
        return r
    if op == 'not': return z3.Not(_b(a[0]))
    if op == 'land': return z3.And(*[_b(x) for x in a])
    if op == 'eq':
        ww = next(x.w for x in a if isinstance(x, T)); return _v(a[0], ww) == _v(a[1], ww)
    if op == 'ult':
        ww = next(x.w for x in a if isinstance(x, T)); return z3.ULT(_v(a[0], ww), _v(a[1], ww))
    if op == 'slt':
        ww = next(x.w for x in a if isinstance(x, T)); return _v(a[0], ww) < _v(a[1], ww)
    if op == 'ite': return z3.If(_b(a[0]), _v(a[1], w), _v(a[2], w))
    x, y = _v(a[0], w), _v(a[1], w)
    return {'and': lambda: x & y, 'or': lambda: x | y, 'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y,
            'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
            'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
def Zb(c):
    if isinstance(c, int): return z3.BoolVal(bool(c))
    z = Z(c)
    return z if z3.is_bool(z) else z == z3.BitVecVal(1, 1)

def vars_of(ts):
    """variables and opaque applications a set of terms depends on"""
    out, seen, st = {}, set(), [t for t in ts if isinstance(t, T)]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op in ('var', 'uf'): out[t.id] = t
        elif t.op == 'cat': st.extend(p for p, _ in t.a if isinstance(p, T))
        else: st.extend(y for y in t.a if isinstance(y, T))
    return out
def reset():
    _tab.clear(); _next[0] = 0; _fresh[0] = 0; RANGES.clear(); UFV.clear()

def subterms(t):
    """immediate subterms of any term, function arguments included"""
    if t.op == 'var': return
    if t.op == 'uf' and t.a[0] in ('sc', 'pt') or t.op == 'uf' and t.a[0].startswith('enc') and t.a[1] and isinstance(t.a[1][0], tuple):
        for m, c in t.a[1]:
            for x in m: yield x
        return
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T): yield x
        elif isinstance(x, tuple): st.extend(x)
def mentions(t, prefix, memo):
    if not isinstance(t, T): return False
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        if x.op == 'var': memo[x.id] = x.a[0].startswith(prefix); stack.pop(); continue
        subs = list(subterms(x))
        todo = [y for y in subs if y.id not in memo]
        if todo: stack.extend(todo); continue
        memo[x.id] = any(memo[y.id] for y in subs); stack.pop()
    return memo[t.id]
