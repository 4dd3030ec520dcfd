"""Contracts of the external cryptography, as hooks of the VC generator.

Everything is an unknown function of exactly the bytes it is given, except:
  * scalars form the commutative ring Z/l, points are l-torsion points with a
    base point: linear arithmetic on polynomials over unknown discrete logs;
    encodings are injective functions of the point, decoding inverts them;
  * a signature made with a key verifies under its public key; the verdict on
    any other signature is an unknown predicate of (key, message, signature);
  * Diffie-Hellman commutes; decapsulation inverts encapsulation for the
    matching key.
The optional ideal mode adds: different inputs give different outputs, and
values chosen by the adversary are independent of honest ones."""
from . import terms as tm
from .terms import T, mk, extract, cat, eq, land, lor, lnot, uf, M
from .irsym import hook, HOOKS, cstring, Undecided, PathEnd, Unsupported, ENTER
L = 2**252 + 27742317777372353535851937790883648493
P25519 = 2**255 - 19

# ------------------------------------------------------------------ polynomials
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = (r.get(m, 0) + s * c) % L
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            v = (r.get(k, 0) + c * d) % L
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def pkey(p): return tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [t.id for t in mc[0]])))
def sc2p(t):
    if isinstance(t, int): return {(): t % L} if t % L else {}
    if t.op == 'uf' and t.a[0] == 'sc': return dict(t.a[1])
    return {(t,): 1}
def p2sc(p):
    if not p: return 0
    if len(p) == 1:
        (m, c), = p.items()
        if not m: return c
        if len(m) == 1 and c == 1: return m[0]
    return uf('sc', (pkey(p),), 256)
ALLONES = M(256)
def pt2p(t):
    if isinstance(t, int):
        if t == ALLONES: return {(): 1}
        raise Unsupported('point handle %x' % t)
    if t.op == 'uf' and t.a[0] == 'pt': return dict(t.a[1])
    raise Unsupported('point handle ' + tm.show(t, 3))
def p2pt(p): return uf('pt', (pkey(p),), 256)
def enc(kind, p):
    if not p: return 0 if kind in 'RM' else 1
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0].op == 'uf' and m[0].a[0] == 'dlog' + kind: return m[0].a[1][0]
    return uf('enc' + kind, (pkey(p),), 256)
def dec(kind, b):
    """-> (valid, poly)"""
    if isinstance(b, int):
        if kind == 'R' and b == 0: return 1, {}
        if kind == 'E':
            if b == 1: return 1, {}
            y = b & M(255)
            if y >= P25519: return 0, {}
            d = -121665 * pow(121666, -1, P25519) % P25519
            x2 = (y * y - 1) * pow(d * y * y + 1, -1, P25519) % P25519
            if x2 and pow(x2, (P25519 - 1) // 2, P25519) != 1: return 0, {}
            return 1, {(uf('dlogE', ((b, 256),), 256),): 1}
        return uf('validR', ((b, 256),), 1), {(uf('dlogR', ((b, 256),), 256),): 1}
    if b.op == 'uf' and b.a[0] == 'enc' + kind: return 1, dict(b.a[1])
    return uf('valid' + kind, ((b, 256),), 1), {(uf('dlog' + kind, ((b, 256),), 256),): 1}
def iszero(p):
    """is the point / scalar zero: a polynomial identity, or a factor the other side chose"""
    if not p: return 1
    if len(p) > 1: return 0
    (m, c), = p.items()
    r = 0
    for t in m:
        if t.op == 'uf' and t.a[0].startswith('dlog') and isinstance(t.a[1][0], T): r = lor(r, eq(256, t.a[1][0], 0 if t.a[0] == 'dlogR' else 1))
        elif t.op != 'uf': r = lor(r, eq(256, t, 0))
    return r

def nat(e, st, p, n): return e.rdterm(st, p, n)
@hook('vf_grp')
def h_grp(e, st, v, a, rt):
    op = e.conc(st, v[0]); pa, pb, po = v[1], v[2], v[3]
    def A(n=32): return e.rdterm(st, pa, n)
    def B(n=32): return e.rdterm(st, pb, n)
    def out(t): e.wrterm(st, po, t, 32)
    ret = 1
    if op == 0: out(p2sc(padd(sc2p(A()), sc2p(B()))))
    elif op == 1: out(p2sc(padd(sc2p(A()), sc2p(B()), -1)))
    elif op == 2: out(p2sc(pmul(sc2p(A()), sc2p(B()))))
    elif op == 3: out(p2sc(padd({}, sc2p(A()), -1)))
    elif op == 4:
        t = A(); out(t % L if isinstance(t, int) else uf('sc_red', ((t, 256),), 256))
    elif op == 5:
        t = A(64); out(t % L if isinstance(t, int) else uf('sc_wide', ((t, 512),), 256))
    elif op == 6:
        t = A()
        if isinstance(t, int): out(pow(t, -1, L) if t % L else 0)
        elif t.op == 'uf' and t.a[0] == 'sc_inv': out(t.a[1][0])
        else: out(uf('sc_inv', ((t, 256),), 256))
    elif op == 7:
        t = A(); ret = int(t < L) if isinstance(t, int) else (1 if t.op == 'uf' and t.a[0] in ('sc', 'sc_red', 'sc_wide', 'sc_inv') else uf('sc_canon', ((t, 256),), 1))
    elif op == 10: out(p2pt(padd(pt2p(A()), pt2p(B()))))
    elif op == 11: out(p2pt(padd(pt2p(A()), pt2p(B()), -1)))
    elif op == 12: out(p2pt(pmul(pt2p(A()), sc2p(B()))))
    elif op == 13: out(p2pt(padd({}, pt2p(A()), -1)))
    elif op == 14: out(p2pt({(): 1}))
    elif op in (15, 16, 17): out(enc('REM'[op - 15], pt2p(A())))
    elif op in (18, 19):
        ok, p = dec('RE'[op - 18], A()); out(p2pt(p)); ret = ok
    elif op == 20: out(p2pt({(uf('h2c', ((A(64), 512),), 256),): 1}))
    elif op == 21: ret = iszero(padd(pt2p(A()), pt2p(B()), -1))
    elif op == 22: out(p2pt({}))
    else: raise Unsupported('group operation %d' % op)
    return ret

# ------------------------------------------------------------------ functions
@hook('vf_uf')
def h_uf(e, st, v, a, rt):
    name = cstring(e, st, v[0], e.conc(st, v[1])); n = e.conc(st, v[3]); m = e.conc(st, v[5])
    t = e.rdterm(st, v[2], n) if n else 0
    e.wrterm(st, v[4], uf(name, ((t, 8 * n),), 8 * m), m)
    e.used.add(name)
    return 0
@hook('vf_pred')
def h_pred(e, st, v, a, rt):
    name = cstring(e, st, v[0], e.conc(st, v[1])); n = e.conc(st, v[3]); t = e.rdterm(st, v[2], n)
    if name == 'edpk-valid' and isinstance(t, T) and t.op == 'uf' and t.a[0] == 'ed25519-pk': return 1
    return uf(name, ((t, 8 * n),), 1)
@hook('vf_dh')
def h_dh(e, st, v, a, rt):
    s, p = e.rdterm(st, v[0], 32), e.rdterm(st, v[1], 32)
    if isinstance(p, T) and p.op == 'uf' and p.a[0] == 'x25519-pk':
        q = p.a[1][0]; x, y = sorted((s, q), key=lambda t: (isinstance(t, T), t.id if isinstance(t, T) else t))
        r = uf('dh', ((x, 256), (y, 256)), 256)
    else: r = uf('dh-adv', ((s, 256), (p, 256)), 256)
    e.wrterm(st, v[2], r, 32); return 0
def sigcheck(e, st, name, pk, pl, m, ml, s, sl):
    if isinstance(pk, T) and pk.op == 'uf' and pk.a[0] == name + '-pk' and isinstance(s, T) and s.op == 'uf' and s.a[0] == name + '-sig':
        sk, sw = sigkey(name, pk)
        want = cat([(m, 8 * ml), (sk, sw)])
        got, gw = s.a[1]
        if gw == 8 * ml + sw:
            q = eq(gw, got, want)
            if isinstance(q, int) and q: return 1
            if IDEAL[0]: return q
    if IDEAL[0] and isinstance(pk, T) and pk.op == 'uf' and pk.a[0] == name + '-pk': return 0   # an honest key, never used to sign this
    return uf('V:' + name, ((pk, 8 * pl), (m, 8 * ml), (s, 8 * sl)), 1)
def sigkey(name, pk):
    return pk.a[1][0], pk.a[1][1]
@hook('vf_sigver')
def h_sigver(e, st, v, a, rt):
    name = cstring(e, st, v[0], e.conc(st, v[1])); pl, ml, sl = e.conc(st, v[3]), e.conc(st, v[5]), e.conc(st, v[7])
    return sigcheck(e, st, name, e.rdterm(st, v[2], pl), pl, e.rdterm(st, v[4], ml) if ml else 0, ml, e.rdterm(st, v[6], sl), sl)
@hook('vf_kemdec')
def h_kemdec(e, st, v, a, rt):
    n = e.conc(st, v[1]); ct = e.rdterm(st, v[0], n); sk = e.rdterm(st, v[2], 32)
    r = None
    if isinstance(ct, T) and ct.op == 'uf' and ct.a[0] == 'kem-ct':
        i, w = ct.a[1]
        pk = extract(i, w - 1, 256)
        if isinstance(pk, T) and pk.op == 'uf' and pk.a[0] == 'kem-pk' and pk.a[1][0] is sk: r = uf('kem-ss', ((i, w),), 256)
    if r is None: r = uf('kem-dec', ((ct, 8 * n), (sk, 256)), 256)
    e.wrterm(st, v[3], r, 32); return 0
@hook('vf_bit')
def h_bit(e, st, v, a, rt):
    """an arbitrary truth value, kept symbolic"""
    k = st.ghost.get('bit', 0); st.ghost['bit'] = k + 1
    return tm.var('bit#%d' % k, 1)

# ------------------------------------------------------------------ Dilithium FFI contracts
def dil_hooks(pk=1312, sk=2560, sig=2420, k='2'):
    pre = '@PQCLEAN_DILITHIUM%s_CLEAN_crypto_sign' % k
    D = 'dilithium' + k
    def keypair_det(e, st, v, a, rt):
        coins = e.rdterm(st, v[0], 32)
        e.wrterm(st, v[2], uf(D + '-sk', ((coins, 256),), 8 * sk), sk)
        e.wrterm(st, v[1], uf(D + '-pk', ((uf(D + '-sk', ((coins, 256),), 8 * sk), 8 * sk),), 8 * pk), pk)
        return 0
    def keypair(e, st, v, a, rt):
        n = st.ghost.get('n:dil', 0); st.ghost['n:dil'] = n + 1
        coins = tm.var('dil-coins#%d' % n, 256)
        e.wrterm(st, v[1], uf(D + '-sk', ((coins, 256),), 8 * sk), sk)
        e.wrterm(st, v[0], uf(D + '-pk', ((uf(D + '-sk', ((coins, 256),), 8 * sk), 8 * sk),), 8 * pk), pk)
        return 0
    def signature(e, st, v, a, rt):
        ml = e.conc(st, v[3]); m = e.rdterm(st, v[2], ml) if ml else 0; s = e.rdterm(st, v[4], sk)
        e.wrterm(st, v[0], uf(D + '-sig', ((cat([(m, 8 * ml), (s, 8 * sk)]), 8 * (ml + sk)),), 8 * sig), sig)
        e.wrterm(st, v[1], sig, 8)
        return 0
    def verify(e, st, v, a, rt):
        sl, ml = e.conc(st, v[1]), e.conc(st, v[3])
        s = e.rdterm(st, v[0], sl); m = e.rdterm(st, v[2], ml) if ml else 0; p = e.rdterm(st, v[4], pk)
        if sl != sig: return M(32)
        c = sigcheck(e, st, D, p, pk, m, ml, s, sl)
        return tm.ite(c, 0, M(32), 32)
    return {pre + '_keypair_det': keypair_det, pre + '_keypair': keypair, pre + '_signature': signature, pre + '_verify': verify}

# ------------------------------------------------------------------ ideal mode
IDEAL = [False]
ADV = ('adv',)
def isadv(t): return isinstance(t, T) and t.op == 'var' and t.a[0].startswith(ADV)
def base(t):
    """(function or variable term, bit offset) the bit-vector is a slice of"""
    if isinstance(t, T) and t.op == 'ext': return t.a[0], t.a[1]
    return t, 0
def ideal_eq(w, a, b):
    if w < 64: return None
    if isinstance(a, T) and a.op == 'xor' or isinstance(b, T) and b.op == 'xor':
        # outputs of different functions do not cancel
        d = tm.bxor(w, a, b)
        if not isinstance(d, T) or d.op != 'xor': return None
        names = [x.a[0] for x in (base(y)[0] for y in d.a) if isinstance(x, T) and x.op == 'uf']
        if not names or any(not isinstance(y, int) and base(y)[0].op not in ('uf', 'var') for y in d.a) or not any(names.count(x) == 1 for x in names) or set(names) & {'sc', 'pt'}: return None
        return 0
    x, i = base(a); y, j = base(b)
    if not isinstance(x, T) or not isinstance(y, T):
        # a random-looking value against a constant
        z = x if isinstance(x, T) else y
        return 0 if z.op == 'uf' and z.a[0] not in ('sc', 'pt') else None
    xu, yu = x.op == 'uf', y.op == 'uf'
    if xu and yu:
        if x.a[0] in ('sc', 'pt') or y.a[0] in ('sc', 'pt'): return None
        if x.a[0] != y.a[0] or len(x.a) != len(y.a) or x.w != y.w or i != j: return 0
        if x.a[0].startswith('enc'): return int(x is y)
        r = 1
        for p, q in zip(x.a[1:], y.a[1:]):
            if p[1] != q[1]: return 0
            r = land(r, eq(p[1], p[0], q[0]))
            if isinstance(r, int) and not r: return 0
        return r
    if xu and isadv(y) or yu and isadv(x): return 0
    if x.op == 'var' and y.op == 'var' and x is not y and (isadv(x) or isadv(y)): return 0
    if xu and y.op == 'var' or yu and x.op == 'var': return 0
    return None
def ideal(on): tm.EQ_HOOK[0] = ideal_eq if on else None; IDEAL[0] = bool(on)
