"""Parser of textual LLVM IR (LLVM 23 syntax) into small tuples, function by function."""
import re

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"])*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<attr>\#\d+)
 |(?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 |(?P<p>[()\[\]{}<>,=*|:])
 |(?P<ws>\s+)
''', re.X)

class Unsupported(Exception): pass

def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';': break
            raise Unsupported('lexer: %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append(m.group())
        i = m.end()
    return out

# types: ('i',n) 'ptr' 'void' ('a',n,t) ('s',packed,[t..]) ('v',n,t) 'float' 'double' 'metadata' 'label' 'token'
class P:
    def __init__(self, mod, t): self.m = mod; self.t = t; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ''
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise Unsupported('expected %s at %s in %s' % (x, self.peek(), ' '.join(self.t[:60])))
    def balanced(self):
        o = self.next(); c = {'(': ')', '[': ']', '{': '}', '<': '>'}[o]; d = 1
        while d:
            x = self.next()
            if x == o: d += 1
            elif x == c: d -= 1
    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace': self.next(); self.balanced()
            r = 'ptr'
        elif x in ('void', 'metadata', 'label', 'token', 'float', 'double', 'half', 'x86_fp80', 'fp128'): r = x
        elif re.fullmatch(r'i\d+', x): r = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.need('x'); t = self.type(); self.need(']'); r = ('a', n, t)
        elif x == '{':
            ts = []
            if not self.eat('}'):
                while True:
                    ts.append(self.type())
                    if self.eat('}'): break
                    self.need(',')
            r = ('s', False, tuple(ts))
        elif x == '<':
            if self.eat('{'):
                ts = []
                if not self.eat('}'):
                    while True:
                        ts.append(self.type())
                        if self.eat('}'): break
                        self.need(',')
                self.need('>'); r = ('s', True, tuple(ts))
            else:
                n = int(self.next()); self.need('x'); t = self.type(); self.need('>'); r = ('v', n, t)
        elif x[0] == '%':
            r = self.m.named(x)
        else: raise Unsupported('type %s in %s' % (x, ' '.join(self.t[:40])))
        # function types:  T (args)
        if self.peek() == '(' and self.fty():
            self.balanced(); r = ('fn', r)
        return r
    def fty(self):
        # '(' directly after a return type in a call is a function type when followed by a type or ...
        k = self.peek(1)
        return k in ('...', ')') or k == 'ptr' or re.fullmatch(r'i\d+', k or '') is not None
    ATTR_OK = re.compile(r'^[a-z_"]')
    KW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'ptrtoint', 'ptrtoaddr', 'bitcast', 'none', 'asm', 'sub', 'add', 'xor', 'trunc', 'blockaddress', 'dso_local_equivalent', 'splat', 'c'}
    def attrs(self):
        while True:
            x = self.peek()
            if not x: return
            if x[0] == '#' or x[0] == '"': self.next(); 
            elif x[0].isalpha() and x not in self.KW and not (x[0] == 'c' and x[1:2] == '"') :
                self.next()
                if x == 'align':
                    if self.peek().isdigit(): self.next()
                    elif self.peek() == '(': self.balanced()
                elif self.peek() == '(' : self.balanced()
                elif self.peek() == '=' : self.next(); self.next()
            else: return
            if self.peek() == '=' : self.next(); self.next()
    def const(self, ty):
        """value of type ty -> operand: int | ('r',name) | ('g',name,off) | list (aggregate) | None(undef)"""
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x, 0)
        if x == 'true': return 1
        if x == 'false': return 0
        if x in ('null', 'none'): return 0
        if x in ('undef', 'poison'): return ('undef', ty)
        if x == 'zeroinitializer': return zero(ty)
        if x == 'splat':
            self.need('('); t = self.type(); c = self.const(t); self.need(')'); return ('agg', [c] * ty[1])
        if x[0] == 'c' and x[1:2] == '"':
            return ('bytes', cstr(x[2:-1]))
        if x in ('[', '{'):
            return self.aggbody(']' if x == '[' else '}')
        if x == '<':
            if self.eat('{'):
                r = self.aggbody('}'); self.need('>'); return r
            return self.aggbody('>')
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next() == 'inrange': self.balanced()
            self.need('('); bt = self.type(); self.need(',')
            pt = self.type(); base = self.const(pt)
            idx = []
            while self.eat(','): it = self.type(); idx.append((it, self.const(it)))
            self.need(')')
            return ('cgep', bt, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'ptrtoaddr', 'addrspacecast'):
            self.need('('); t = self.type(); c = self.const(t)
            self.need('to'); t2 = self.type(); self.need(')')
            if isinstance(c, int) and isinstance(t2, tuple) and t2[0] == 'i': c &= (1 << t2[1]) - 1
            return c
        if x in ('add', 'sub', 'xor'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.need('('); t = self.type(); a = self.const(t); self.need(','); t2 = self.type(); b = self.const(t2); self.need(')')
            return ('cbin', x, a, b)
        if re.fullmatch(r'-?\d+', x):
            if not (isinstance(ty, tuple) and ty[0] == 'i'): return 0 if ty == 'ptr' else ('fp', x)
            return int(x) & ((1 << ty[1]) - 1)
        if x in ('dso_local_equivalent', 'no_cfi'): return self.const(ty)
        return ('fp', x)
    def aggbody(self, close):
        out = []
        if self.eat(close): return ('agg', out)
        while True:
            t = self.type(); out.append((t, self.const(t)))
            if self.eat(close): break
            self.need(',')
        return ('agg', out)
    def val(self):
        """TYPE [attrs] VALUE"""
        t = self.type()
        if t == 'metadata':
            while self.i < len(self.t) and self.peek() not in (',', ')'): 
                if self.peek() in '([{': self.balanced()
                else: self.next()
            return t, 0
        self.attrs()
        return t, self.const(t)

def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)
def zero(ty):
    return ('zero', ty) if isinstance(ty, tuple) and ty[0] in ('a', 's', 'v') else 0

class Module:
    def __init__(self, text):
        self.types = {}; self.rawtypes = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.attrs = {}; self.aliases = {}
        self._sz = {}; self._al = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                name = self.fname(l)
                self.funcs[name] = (l, lines, i + 1, j)
                i = j + 1; continue
            if l.startswith('declare'): self.decls[self.fname(l)] = l
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1); self.rawtypes[a.strip()] = b
            elif l.startswith('@'):
                a, b = l.split(' = ', 1); self.globals[a] = b
            elif l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                if m: self.attrs[m.group(1)] = m.group(2)
            i += 1
        self._parsed = {}
        self.noreturn = set()
        for d in (self.decls, {k: v[0] for k, v in self.funcs.items()}):
            for k, v in d.items():
                g = re.findall(r'#\d+', v.split(')')[-1] if ')' in v else v)
                if any('noreturn' in self.attrs.get(x, '') for x in re.findall(r'#\d+', v)): self.noreturn.add(k)
    def fname(self, l):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', l)
        return '@' + m.group(1)
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            raw = self.rawtypes.get(n)
            if raw is None: raise Unsupported('type ' + n)
            t = 'opaque' if raw.strip() == 'opaque' else P(self, toks(raw)).type()
            self.types[n] = t
        return t
    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            if t == 'ptr': r = 8
            elif t == 'float': r = 4
            elif t == 'double': r = 8
            elif t[0] == 'i':
                b = (t[1] + 7) // 8; a = self.align(t); r = (b + a - 1) // a * a
            elif t[0] == 'a': r = t[1] * self.size(t[2])
            elif t[0] == 'v': r = t[1] * self.size(t[2])
            elif t[0] == 's':
                off = self.layout(t)[1]; r = off
            else: raise Unsupported('size of %s' % (t,))
            self._sz[t] = r
        return r
    def align(self, t):
        if t == 'ptr' or t == 'double': return 8
        if t == 'float': return 4
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b: a *= 2
            return min(a, 16)
        if t[0] == 'a': return self.align(t[2])
        if t[0] == 'v': return self.size(t)
        if t[0] == 's': return 1 if t[1] else max([self.align(x) for x in t[2]] or [1])
        raise Unsupported('align')
    def layout(self, t):
        offs, o = [], 0
        for x in t[2]:
            a = 1 if t[1] else self.align(x)
            o = (o + a - 1) // a * a
            offs.append(o); o += self.size(x)
        a = self.align(t)
        return offs, (o + a - 1) // a * a
    # ------------------------------------------------------------ functions
    def func(self, name):
        f = self._parsed.get(name)
        if f is None:
            head, lines, a, b = self.funcs[name]
            f = self._parsed[name] = Func(self, name, head, lines, a, b)
        return f

STRIP = re.compile(r', ![a-zA-Z_.]+ ![0-9]+|, ![a-zA-Z_.]+ !\{[^}]*\}|, !srcloc ![0-9]+')
class Func:
    def __init__(self, mod, name, head, lines, a, b):
        self.name = name
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', head)
        p = P(mod, toks(head[m.end() - 1:].split(' personality ')[0].rstrip('{')))
        self.params = []
        p.need('(')
        k = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'): p.need(')'); break
                t = p.type(); p.attrs()
                if p.peek()[0:1] == '%': nm = p.next()
                else: nm = '%%%d' % k
                self.params.append((t, nm)); k += 1
                if p.eat(')'): break
                p.need(',')
        pre = toks(head[6:m.start()])
        self.blocks = {}; self.entry = None
        cur = None; body = None
        i = a
        unnamed = len([1 for _, n in self.params if re.fullmatch(r'%\d+', n)])
        while i < b:
            l = lines[i]; i += 1
            if not l.strip() or l.lstrip().startswith(';') or l.lstrip().startswith('#dbg'): continue
            mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm:
                cur = '%' + mm.group(1); body = self.blocks[cur] = []
                if self.entry is None: self.entry = cur
                continue
            if cur is None:
                cur = '%%%d' % unnamed; body = self.blocks[cur] = []; self.entry = cur
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[i - 1].strip().endswith(']') or lines[i - 1] is l:
                    s += ' ' + lines[i].strip(); i += 1
                    if lines[i - 1].strip().startswith(']'): break
            elif re.search(r'\binvoke\b', s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'\blandingpad\b', s):
                while lines[i].strip().startswith(('cleanup', 'catch', 'filter')): i += 1
            body.append(s)
        self.raw = self.blocks
        self.code = {}
        self.mod = mod
    def block(self, name):
        c = self.code.get(name)
        if c is None:
            c = self.code[name] = [self.instr(s) for s in self.raw[name]]
        return c
    def instr(self, s0):
        s = STRIP.sub('', s0)
        p = P(self.mod, toks(s))
        dest = None
        if p.peek(1) == '=': dest = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        m = self.mod
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.add(p.next())
            t = p.type(); a = p.const(t); p.need(','); b = p.const(t)
            if t[0] != 'i': return ('vbin', dest, op, t, a, b)
            return ('bin', dest, op, t[1], a, b, frozenset(fl))
        if op == 'icmp':
            if p.peek() == 'samesign': p.next()
            pr = p.next(); t = p.type(); a = p.const(t); p.need(','); b = p.const(t)
            if t == 'ptr': w = 64
            elif t[0] == 'i': w = t[1]
            else: return ('vicmp', dest, pr, t, a, b)
            return ('icmp', dest, pr, w, a, b)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr', 'addrspacecast'):
            while p.peek() in ('nuw', 'nsw', 'nneg'): p.next()
            t = p.type(); a = p.const(t); p.need('to'); t2 = p.type()
            return ('cast', dest, op, t, a, t2)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.type(); p.need(','); pt = p.type(); a = p.const(pt)
            return ('load', dest, t, a)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.type(); v = p.const(t); p.need(','); pt = p.type(); a = p.const(pt)
            return ('store', t, v, a)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            t = p.type(); p.need(','); pt = p.type(); base = p.const(pt); idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.const(it)))
            return ('gep', dest, t, base, idx)
        if op == 'alloca':
            if p.peek() == 'inalloca': p.next()
            t = p.type(); n = 1
            while p.eat(','):
                if p.eat('align'): p.next()
                else: it = p.type(); n = p.const(it)
            return ('alloca', dest, t, n)
        if op == 'br':
            if p.eat('label'): return ('jmp', p.next())
            t = p.type(); c = p.const(t); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
            return ('br', c, a, b)
        if op == 'switch':
            t = p.type(); v = p.const(t); p.need(','); p.need('label'); d = p.next(); p.need('['); cs = []
            while not p.eat(']'):
                ct = p.type(); c = p.const(ct); p.need(','); p.need('label'); cs.append((c, p.next()))
            return ('switch', t[1], v, d, cs)
        if op == 'ret':
            if p.peek() == 'void': return ('ret', None, None)
            t = p.type(); return ('ret', t, p.const(t))
        if op == 'phi':
            t = p.type(); inc = {}
            while p.eat('['):
                v = p.const(t); p.need(','); inc[p.next()] = v; p.need(']')
                if not p.eat(','): break
            return ('phi', dest, t, inc)
        if op == 'select':
            t = p.type(); c = p.const(t); p.need(','); t1 = p.type(); a = p.const(t1); p.need(','); t2 = p.type(); b = p.const(t2)
            if t[0] != 'i': return ('unsup', s)
            return ('select', dest, t1, c, a, b)
        if op == 'extractvalue':
            t, v = p.val(); ix = []
            while p.eat(','): ix.append(int(p.next()))
            return ('xval', dest, v, ix, t)
        if op == 'insertvalue':
            t, v = p.val(); p.need(','); t2, v2 = p.val(); ix = []
            while p.eat(','): ix.append(int(p.next()))
            return ('ival', dest, t, v, v2, ix)
        if op == 'freeze':
            t, v = p.val(); return ('mov', dest, t, v)
        if op == 'unreachable': return ('unreachable',)
        if op == 'fence': return ('nop',)
        if op in ('call', 'invoke'):
            # calling convention and return attributes
            while True:
                x = p.peek()
                if x in ('void', 'ptr', 'label', 'float', 'double', '[', '{', '<') or re.fullmatch(r'i\d+', x) or x[0] == '%': break
                p.next()
                if x == 'align' and p.peek().isdigit(): p.next()
                if p.peek() == '(': p.balanced()
            rt = p.type()
            if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
            asm = None
            if p.peek() == 'asm':
                p.next()
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): p.next()
                asm = (p.next(), ) ; p.need(','); asm += (p.next(),)
                callee = ('asm',) + asm
            else: callee = p.const('ptr')
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    args.append(p.val())
                    if p.eat(')'): break
                    p.need(',')
            nr = any('noreturn' in m.attrs.get(x, '') for x in p.t[p.i:] if x[0] == '#') or 'noreturn' in p.t[p.i:]
            norm = None
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.need('label'); norm = p.next()
            return ('call', dest, rt, callee, args, norm, nr)
        if op == 'atomicrmw':
            while p.peek() == 'volatile': p.next()
            k = p.next(); pt, a = p.val(); p.need(','); t, v = p.val()
            return ('rmw', dest, k, t, a, v)
        if op == 'cmpxchg':
            while p.peek() in ('volatile', 'weak'): p.next()
            pt, a = p.val(); p.need(','); t, c = p.val(); p.need(','); t, v = p.val()
            return ('cmpxchg', dest, t, a, c, v)
        return ('unsup', s)
