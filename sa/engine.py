"""Path-sensitive abstract interpreter over the IR, in the style of property simulation (ESP): the state is
(call string, abstract environment, abstract memory, value facts, monitor automaton).  The value domain is
constants / symbol+offset with integer interval and excluded-constant facts and (dis)equalities between symbols.  No solver.
Exploration is a worklist to fixpoint with memoisation at join points; loops converge because symbols are named by
the site that creates them (re-execution retires the previous generation) and constants that keep changing in a phi are
widened to a symbol.
"""
import sys
from . import ir

sys.setrecursionlimit(20000)

INF = float('inf')
THROW = object()      # model outcome: control leaves by cancellation/exit unwinding
STOP = object()       # model outcome: path ends here (no return)
NULL = (None, 0)
FULL = (-INF, INF, frozenset())


class AnalysisBroken(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'ctx', 'env', 'blk', 'ip', 'prev', 'call', 'kind', 'key')

    def __init__(self, fn, ctx, env, call, kind='call'):
        self.fn = fn
        self.ctx = ctx
        self.env = env
        self.blk = 0
        self.ip = 0
        self.prev = -1
        self.call = call      # call instruction in the caller
        self.kind = kind      # 'call' | 'unwind' (cleanup routine run while unwinding)
        self.key = None

    def clone(self):
        f = Frame(self.fn, self.ctx, dict(self.env), self.call, self.kind)
        f.blk, f.ip, f.prev = self.blk, self.ip, self.prev
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'rel', 'cleanups', 'mon', 'trace', 'inval', 'setjmps', 'unwinding', 'src')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.rel = frozenset()
        self.cleanups = ()
        self.mon = {}
        self.trace = None
        self.inval = False
        self.setjmps = ()
        self.unwinding = False
        self.src = 0          # the last join point this path passed

    def fork(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].clone()]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = self.rel
        s.cleanups = self.cleanups
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.inval = self.inval
        s.setjmps = self.setjmps
        s.unwinding = self.unwinding
        s.src = self.src
        return s

    @property
    def top(self):
        return self.frames[-1]

    def note(self, txt):
        self.trace = (self.trace, txt)

    def path(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def wrap(v, bits):
    if bits <= 0 or bits > 64:
        return v
    m = 1 << bits
    v &= m - 1
    if bits > 1 and v >= m >> 1:
        v -= m
    return v


def bits_of(ty):
    if ty == 'ptr':
        return 64
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return 64


class Engine:
    MAXSTATES = 400000

    def __init__(self, prog, analysis):
        self.p = prog
        self.an = analysis
        self.symid = {}
        self.syms = [None]
        self.ctxid = {(): 0}
        self.ctxs = [()]
        self.stacksz = {}
        self.addrlabel = {}
        self.objtype = {}
        self.phiconst = {}
        self.widened = set()
        self.seen = {}
        self.points = [None]    # join-point states, the paths between them, and those a path ends after
        self.edges = {}
        self.ended = set()
        self.nedges = 0
        self.work = []
        self.nstates = 0
        self.ninst = 0
        self.fns_seen = set()
        self.exits = 0
        self.violations = []
        self.maxdepth = 14
        self.symwidth = {}
        self.typeids = {}
        self.branches = set()
        analysis.eng = self
        self.models = dict(analysis.models())

    # ---------- symbols
    def sym(self, *desc):
        i = self.symid.get(desc)
        if i is None:
            i = len(self.syms)
            self.syms.append(desc)
            self.symid[desc] = i
        return i

    def ctx(self, parent, callkey):
        k = (parent, callkey)
        i = self.ctxid.get(k)
        if i is None:
            i = len(self.ctxs)
            self.ctxs.append(k)
            self.ctxid[k] = i
        return i

    def sitesym(self, st, inst, tag=''):
        """A fresh value produced by this instruction now; an older generation still live in the state is retired."""
        fr = st.frames[-1]
        s = self.sym('v', fr.ctx, fr.fn.key, inst['id'], tag)
        self.refresh(st, s)
        return (s, 0)

    def refresh(self, st, s):
        if not any(f.fn.incycle[f.blk] for f in st.frames) and not st.mon.get('!relooped'):
            return
        if not self.occurs(st, s):
            return
        o = self.sym('o', s)
        if self.occurs(st, o):
            oo = self.sym('o', o)
            self.drop_facts(st, oo)
            self.substitute(st, o, (oo, 0))
            self.drop_facts(st, oo)
        self.substitute(st, s, (o, 0))

    def drop_facts(self, st, s):
        st.facts.pop(s, None)
        st.rel = frozenset(r for r in st.rel if not (r[1][0] == s or r[2][0] == s))

    def contains(self, base, s, depth=0):
        if base == s:
            return True
        if not isinstance(base, int):
            return False
        d = self.syms[base]
        k = d[0]
        if k == 'e':
            return any(isinstance(x, tuple) and self.contains(x[0], s) for x in d[2:])
        if k == 'm0' or k == 'mv':
            return self.contains(d[1][0], s)
        return False

    def extent(self, st, base):
        """(first offset, size) of the object a base stands for, when known"""
        if isinstance(base, str):
            n = self.stacksz.get(base)
            if n is None and base.startswith('g:'):
                g = self.p.globals.get(base[2:])
                n = g['size'] if g and not g['decl'] and g.get('size') else None
            return (0, n) if n else None
        for z in st.mon.get('asz', ()):
            if z[1][0] == base:
                return (z[1][1], z[2])
        return None

    def overrun(self, st, addr, inst, how, n=1):
        """an access outside an object of known size"""
        if addr[0] is not None and addr[1] is not None:
            x = self.extent(st, addr[0])
            if x:
                if not 0 <= addr[1] - x[0] <= x[1] - n:
                    self.flaw(st, '%s outside the memory of the object it is in' % how, inst)
                    return True
                return False
            if self.undefined(addr):
                self.flaw(st, '%s through a variable that has not been set' % how, inst)
                return True
        elif addr[0] is None and addr[1] is not None and 0 <= addr[1] < 4096:
            self.flaw(st, '%s through a null pointer' % how, inst)
            return True
        return False

    def undefined(self, v):
        d = self.syms[v[0]] if isinstance(v[0], int) else ('',)
        return d[0] == 'undef' or d[0] == 'v' and d[-1] == 'undef'

    def flaw(self, st, msg, inst):
        """a defect whatever the property: charged to every property of the analysis"""
        self.an.report(self, st, msg, inst)
        self.an.reports[-1]['case'] = getattr(self.an, 'case', '')
        st.mon['!stop'] = 1

    def occurs(self, st, s):
        c = self.contains
        for fr in st.frames:
            for v in fr.env.values():
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and c(v[0], s):
                    return True
        for (b, o), v in st.mem.items():
            if isinstance(b, int) and c(b, s):
                return True
            if isinstance(v[0][0], int) and c(v[0][0], s):
                return True
        for b in st.facts:
            if c(b, s):
                return True
        for r in st.rel:
            if (isinstance(r[1][0], int) and c(r[1][0], s)) or (isinstance(r[2][0], int) and c(r[2][0], s)):
                return True
        for a in st.cleanups:
            for v in a:
                if isinstance(v[0], int) and c(v[0], s):
                    return True
        return self._occurs_mon(st.mon, s)

    def _occurs_mon(self, m, s):
        def walk(x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and (isinstance(x[1], int) or x[1] is None):
                return self.contains(x[0], s)
            if isinstance(x, (tuple, frozenset)):
                return any(walk(y) for y in x)
            return False
        return any(walk(v) for v in m.values())

    def substitute(self, st, s, val):
        """Replace symbol s by val everywhere in the state."""
        memo = {}

        def sb(base):
            """value for symbol 'base' after substitution, or None if unchanged"""
            if base in memo:
                return memo[base]
            r = None
            if base == s:
                r = val
            elif isinstance(base, int):
                d = self.syms[base]
                if d[0] == 'e':
                    new = []
                    ch = False
                    for x in d[2:]:
                        if isinstance(x, tuple) and isinstance(x[0], int):
                            y = sb(x[0])
                            if y is not None:
                                ch = True
                                new.append(self.addoff(y, x[1]))
                                continue
                        new.append(x)
                    if ch:
                        r = self.mkexpr(d[1], *new)
                elif d[0] == 'm0' or d[0] == 'mv':
                    b, o = d[1]
                    y = sb(b) if isinstance(b, int) else None
                    if y is not None:
                        r = (self.sym(d[0], self.addoff(y, o), *d[2:]), 0)
            memo[base] = r
            return r

        def sv(v):
            b = v[0]
            if isinstance(b, int):
                y = sb(b)
                if y is not None:
                    return self.addoff(y, v[1])
            return v

        def deep(x):
            if isinstance(x, tuple):
                if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and (isinstance(x[1], int) or x[1] is None):
                    return sv(x)
                return tuple(deep(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(deep(y) for y in x)
            return x
        nf = []
        for fr in st.frames:
            ne = None
            for k, v in fr.env.items():
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int):
                    w = sv(v)
                    if w is not v and w != v:
                        if ne is None:
                            ne = dict(fr.env)
                        ne[k] = w
            if ne is not None:
                g = fr.clone()
                g.env = ne
                fr = g
            nf.append(fr)
        st.frames = nf
        nm = {}
        for (b, o), (v, sz) in st.mem.items():
            a = sv((b, o)) if isinstance(b, int) else (b, o)
            nm[a] = (sv(v), sz)
            if a != (b, o) and (b, o) in self.addrlabel and a not in self.addrlabel:
                self.addrlabel[a] = self.addrlabel[(b, o)]
        st.mem = nm
        ot = self.objtype
        nfac = {}
        for b, f in st.facts.items():
            y = sb(b)
            if y is None:
                self._mergefact(nfac, b, f)
            elif isinstance(y[0], int) and y[1] is not None:
                k = y[1]
                lo, hi, ex = f
                self._mergefact(nfac, y[0], (lo - k, hi - k, frozenset(e - k for e in ex)))
        st.facts = nfac
        if st.rel:
            st.rel = frozenset((p, sv(a), sv(b)) for p, a, b in st.rel)
        if st.cleanups:
            st.cleanups = tuple((sv(a), sv(b)) for a, b in st.cleanups)
        for k, v in list(st.mon.items()):
            st.mon[k] = deep(v)

    @staticmethod
    def _mergefact(d, b, f):
        g = d.get(b)
        if g is None:
            d[b] = f
        else:
            d[b] = (max(f[0], g[0]), min(f[1], g[1]), f[2] | g[2])

    @staticmethod
    def addoff(v, k):
        if v[1] is None or k is None:
            return (v[0], None) if v[0] is not None else v
        return (v[0], v[1] + k)

    # ---------- expressions
    def pair(self, v):
        """the two 32-bit halves of a 64-bit value made of two, or None"""
        if v[0] is None and v[1] is not None:
            return (None, wrap(v[1], 32)), (None, wrap(v[1] >> 32, 32))
        if isinstance(v[0], int) and v[1] == 0 and self.syms[v[0]][:2] == ('e', 'pair'):
            return self.syms[v[0]][2:4]
        return None

    def mkpair(self, lo, hi):
        if lo[0] is None and hi[0] is None and lo[1] is not None and hi[1] is not None:
            return (None, wrap((lo[1] & 0xffffffff) | hi[1] << 32, 64))
        return (self.sym('e', 'pair', lo, hi), 0)

    def x_pairins(self, st, inst):
        """one half of a small structure passed by value is set"""
        x, h = self.norm(st, self.ev(st, inst['ops'][0])), self.norm(st, self.ev(st, inst['ops'][1]))
        p = self.pair(x) or (self.mkexpr('trunc', x, (None, 32)), self.mkexpr('trunc', self.mkexpr('lshr', x, (None, 32)), (None, 32)))
        lo, hi = (h, p[1]) if inst['half'] == 0 else (p[0], h)
        if self.an.num and inst['ops'][0][0] != 'u':
            outs = []
            for s, a in self.an.num.cast(self, st, 'zext', lo, 32, 64, inst):
                for t, b in self.an.num.binop(self, s, 'shl', hi, (None, 32), 64, inst):
                    outs += self.an.num.binop(self, t, 'add', b, a, 64, inst)
            return self.num_out(st, inst, outs)
        self.setv(st, inst, self.mkpair(lo, hi))

    def low(self, v, bits=32):
        """what a parameter of that width gets of v"""
        return v if v[0] is None else self.mkexpr('trunc', v, (None, bits))

    def mkexpr(self, op, *a):
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op == 'neg':
            if x[0] is None:
                return (None, -x[1])
            if isinstance(x[0], int) and x[1] is not None:
                d = self.syms[x[0]]
                if d[0] == 'e' and d[1] == 'neg':
                    return (d[2][0], d[2][1] - x[1])
                return (self.sym('e', 'neg', (x[0], 0)), -x[1])
        if y is not None and x[0] is None and y[0] is None and x[1] is not None and y[1] is not None:
            A, B = x[1], y[1]
            try:
                r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'mul': lambda: A * B,
                     'shl': lambda: A << B, 'ashr': lambda: A >> B, 'lshr': lambda: A >> B if A >= 0 else None,
                     'add': lambda: A + B, 'sub': lambda: A - B,
                     'sdiv': lambda: None if B == 0 else int(abs(A) // abs(B)) * (1 if (A < 0) == (B < 0) else -1),
                     'udiv': lambda: None if B == 0 or A < 0 or B < 0 else A // B,
                     'srem': lambda: None if B == 0 else (abs(A) % abs(B)) * (1 if A >= 0 else -1),
                     'urem': lambda: None if B == 0 or A < 0 or B < 0 else A % B}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                return (None, wrap(r, 64))
        if op in ('add', 'sub') and y is not None:
            r = self.linear(op, x, y)
            if r is not None:
                return r
        if op in ('and', 'mul') and y is not None and (x == NULL or y == NULL):
            return NULL
        if op in ('or', 'shl', 'ashr', 'lshr') and y == NULL:
            return x
        if op == 'mul' and y == (None, 1):
            return x
        if op == 'or' and x == NULL:
            return y
        if op == 'xor' and y == (None, -1):
            n = self.mkexpr('neg', x)
            return self.addoff(n, -1)
        if op in ('add', 'and', 'or', 'xor', 'mul') and y is not None:
            if repr(x) > repr(y) and x[0] is not None and y[0] is not None:
                x, y = y, x
                a = (x, y) + a[2:]
        if self._depth(x) > 5 or (y is not None and self._depth(y) > 5):
            return (self.sym('e', 'deep', op), 0)
        return (self.sym('e', op, *a), 0)

    def terms(self, v, sign, out):
        """accumulate the linear terms of v into out {base: coefficient}; returns the constant part or None"""
        b, o = v
        if o is None:
            return None
        if b is None:
            return sign * o
        if isinstance(b, int):
            d = self.syms[b]
            if d[0] == 'e' and d[1] in ('add', 'sub', 'neg'):
                k = self.terms(d[2], -sign if d[1] == 'neg' else sign, out)
                if k is None:
                    return None
                if d[1] != 'neg':
                    k2 = self.terms(d[3], -sign if d[1] == 'sub' else sign, out)
                    if k2 is None:
                        return None
                    k += k2
                return k + sign * o
            if d[0] == 'e' and d[1] == 'mul' and d[3][0] is None and d[2][1] == 0 and isinstance(d[3][1], int) and abs(d[3][1]) < 4:
                out[d[2][0]] = out.get(d[2][0], 0) + sign * d[3][1]
                return sign * o
        out[b] = out.get(b, 0) + sign
        return sign * o

    def linear(self, op, x, y):
        t = {}
        k = self.terms(x, 1, t)
        if k is None:
            return None
        k2 = self.terms(y, -1 if op == 'sub' else 1, t)
        if k2 is None:
            return None
        k += k2
        ts = sorted(((b, c) for b, c in t.items() if c), key=lambda z: repr(z[0]))
        if len(ts) > 5:
            return None

        def unit(b, c):
            return (b, 0) if c == 1 else (self.sym('e', 'mul', (b, 0), (None, c)), 0)
        pos = [unit(b, c) for b, c in ts if c > 0]
        neg = [unit(b, -c) for b, c in ts if c < 0]
        if not pos and not neg:
            return (None, k)

        def fold(vs):
            r = vs[0]
            for v in vs[1:]:
                r = (self.sym('e', 'add', r, v), 0)
            return r
        if pos:
            r = fold(pos)
            if neg:
                r = (self.sym('e', 'sub', r, fold(neg)), 0)
        else:
            r = (self.sym('e', 'neg', fold(neg)), 0)
        return (r[0], r[1] + k)

    def cancel(self, pred, a, b):
        """x + z pred y + z  ->  x pred y  (signed comparisons and equality; sums are assumed not to overflow); x ^ y pred 0 -> x pred y"""
        if b == NULL and pred in ('eq', 'ne') and isinstance(a[0], int) and a[1] == 0 and self.syms[a[0]][:2] == ('e', 'xor'):
            return self.syms[a[0]][2:4]
        if pred[0] == 'u' or not isinstance(a[0], int) or not isinstance(b[0], int) or a[0] == b[0] or self.syms[a[0]][0] != 'e' and self.syms[b[0]][0] != 'e':
            return a, b
        t, u = {}, {}
        if self.terms(a, 1, t) is None or self.terms(b, 1, u) is None or not set(t) & set(u):
            return a, b
        d = self.linear('sub', a, b)
        if d is None:
            return a, b
        return d, NULL

    def _depth(self, v):
        if not isinstance(v, tuple) or not isinstance(v[0], int):
            return 0
        d = self.syms[v[0]]
        if d[0] == 'e':
            return 1 + max([self._depth(x) for x in d[2:] if isinstance(x, tuple) and len(x) == 2] + [0])
        return 0

    # ---------- comparison
    def rng(self, st, v):
        """signed interval (lo, hi, excl) of v, or None when not an integer-like value"""
        if v[1] is None:
            return FULL
        if v[0] is None:
            return (v[1], v[1], frozenset())
        if isinstance(v[0], int):
            f = st.facts.get(v[0])
            d = self.syms[v[0]]
            if d[0] == 'e':
                e = self._exprrange(st, d)
                if e is not None:
                    f = e if f is None else (max(e[0], f[0]), min(e[1], f[1]), f[2] | e[2])
            if f is None:
                return FULL
            k = v[1]
            if k == 0:
                return f
            return (f[0] + k, f[1] + k, frozenset(x + k for x in f[2]))
        return None

    def _exprrange(self, st, d):
        op = d[1]
        if op == 'neg':
            r = self.rng(st, d[2])
            if r:
                return (-r[1], -r[0], frozenset(-x for x in r[2]))
        if op == 'and' and len(d) > 3 and d[3][0] is None and d[3][1] is not None and d[3][1] >= 0:
            return (0, d[3][1], frozenset())
        if op == 'bool':
            return (0, 1, frozenset())
        if op == 'zext' and len(d) > 3 and isinstance(d[3], int):
            return (0, (1 << d[3]) - 1, frozenset())
        if op in ('lshr', 'ashr') and isinstance(d[3], tuple) and d[3][0] is None and d[3][1] is not None and 0 <= d[3][1] < 64:
            r = self.rng(st, d[2])
            if r and r[0] >= 0:
                return (r[0] >> d[3][1], r[1] if r[1] == INF else r[1] >> d[3][1], frozenset())
        if op in ('sdiv', 'udiv') and d[3][0] is None and d[3][1] and d[3][1] > 0:
            r = self.rng(st, d[2])
            if r and r[0] >= 0:
                return (0, r[1] if r[1] == INF else r[1] // d[3][1], frozenset())
        if op == 'mul' and len(d) > 3:
            a, b = self.rng(st, d[2]), self.rng(st, d[3])
            if a and b and a[0] >= 0 and b[0] >= 0:
                return (a[0] * b[0], INF if INF in (a[1], b[1]) else a[1] * b[1], frozenset())
        if op == 'add' and len(d) > 3:
            a, b = self.rng(st, d[2]), self.rng(st, d[3])
            if a and b:
                return (a[0] + b[0], a[1] + b[1], frozenset())
        if op == 'sub' and len(d) > 3:
            a, b = self.rng(st, d[2]), self.rng(st, d[3])
            if a and b:
                lo, hi = a[0] - b[1], a[1] - b[0]
                if ('slt', d[2], d[3]) in st.rel:
                    hi = min(hi, -1)
                if ('slt', d[3], d[2]) in st.rel:
                    lo = max(lo, 1)
                return (lo, hi, frozenset())
        if op in ('srem', 'urem') and d[3][0] is None and d[3][1] and d[3][1] > 0:
            r = self.rng(st, d[2])
            if r and r[0] >= 0 or op == 'urem':
                return (0, d[3][1] - 1, frozenset())
            return (1 - d[3][1], d[3][1] - 1, frozenset())
        return None

    def norm(self, st, v):
        r = v
        if isinstance(v[0], int):
            f = st.facts.get(v[0])
            if f and f[0] == f[1]:
                return (None, int(f[0]) + v[1]) if v[1] is not None else v
        return r

    def decide(self, st, pred, a, b):
        if a[0] is None and b[0] is None and a[1] is not None and b[1] is not None:
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y,
                    'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pred]
        if a[0] == b[0] and a[1] is not None and b[1] is not None:
            x, y = a[1], b[1]
            p = pred
            if p[0] == 'u':
                p = 's' + p[1:]
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[p]
        # addresses of named objects
        sa, sb_ = isinstance(a[0], str), isinstance(b[0], str)
        if pred in ('eq', 'ne'):
            r = None
            if sa and sb_ and a[0] != b[0]:
                r = False
            elif (sa and b[0] is None) or (sb_ and a[0] is None):
                r = False
            elif sa and isinstance(b[0], int) and a[0].startswith('a:') and self.syms[b[0]][0] in ('m0', 'arg', 'heap'):
                r = False
            elif sb_ and isinstance(a[0], int) and b[0].startswith('a:') and self.syms[a[0]][0] in ('m0', 'arg', 'heap'):
                r = False
            if r is not None:
                return r if pred == 'eq' else not r
        if pred == 'uge' and b == (None, 0):
            return True
        if pred == 'ult' and b == (None, 0):
            return False
        if pred == 'ugt' and b == (None, 0):
            return self.decide(st, 'ne', a, b)
        if pred == 'ule' and b == (None, 0):
            return self.decide(st, 'eq', a, b)
        # named object vs. small negative constant sentinel, unsigned: objects live below the sentinels
        if pred[0] == 'u' and sa and b[0] is None and b[1] is not None and b[1] < 0:
            return pred in ('ult', 'ule')
        if not isinstance(a[0], int) and not isinstance(b[0], int):
            return None
        ra, rb = self.rng(st, a), self.rng(st, b)
        if ra is None or rb is None:
            return None
        if pred in ('eq', 'ne'):
            r = None
            if ra[1] < rb[0] or rb[1] < ra[0]:
                r = False
            elif rb[0] == rb[1] and rb[0] in ra[2]:
                r = False
            elif ra[0] == ra[1] and ra[0] in rb[2]:
                r = False
            elif ra[0] == ra[1] == rb[0] == rb[1]:
                r = True
            else:
                if ('ne', a, b) in st.rel or ('ne', b, a) in st.rel or ('slt', a, b) in st.rel or ('slt', b, a) in st.rel \
                        or ('ult', a, b) in st.rel or ('ult', b, a) in st.rel:
                    r = False
            if r is None:
                return None
            return r if pred == 'eq' else not r
        p = pred
        if p[0] == 'u':
            if ra[0] >= 0 and rb[0] >= 0 or (ra[1] < 0 and rb[1] < 0):
                p = 's' + p[1:]
            elif ra[1] < 0 and rb[0] >= 0:
                return pred in ('ugt', 'uge')
            elif ra[0] >= 0 and rb[1] < 0:
                return pred in ('ult', 'ule')
            elif b[0] is None and b[1] < 0:
                # x >=u C with C negative  <=>  C <= x <= -1 (signed)
                if ra[0] >= 0 or ra[1] < b[1]:
                    return pred in ('ult', 'ule')
                ex = set(range(b[1], 0)) if b[1] > -9 else None
                if ex is not None and ex <= set(ra[2]) and pred in ('uge', 'ult'):
                    return pred == 'ult'
                if ra[0] >= b[1] and ra[1] <= -1:
                    if pred == 'uge':
                        return True
                    if pred == 'ult':
                        return False
                return self._relq(st, pred, a, b)
            else:
                return self._relq(st, pred, a, b)
        if p == 'slt':
            r = True if ra[1] < rb[0] else False if ra[0] >= rb[1] else None
        elif p == 'sle':
            r = True if ra[1] <= rb[0] else False if ra[0] > rb[1] else None
        elif p == 'sgt':
            r = True if ra[0] > rb[1] else False if ra[1] <= rb[0] else None
        else:
            r = True if ra[0] >= rb[1] else False if ra[1] < rb[0] else None
        if r is None:
            r = self._relq(st, pred, a, b)
            if r is None and p != pred:
                r = self._relq(st, p, a, b)
        return r

    def _relq(self, st, pred, a, b):
        # canonical relations stored: ('slt'|'ult'|'ne'|'sle'|'ule', a, b)
        R = st.rel
        s = pred[0]
        lt, le = s + 'lt', s + 'le'
        if pred == lt:
            if (lt, a, b) in R:
                return True
            if (le, b, a) in R or (lt, b, a) in R:
                return False
            if (le, a, b) in R and (('ne', a, b) in R or ('ne', b, a) in R):
                return True
        elif pred == le:
            if (lt, a, b) in R or (le, a, b) in R:
                return True
            if (lt, b, a) in R:
                return False
        elif pred == s + 'gt':
            return self._relq(st, lt, b, a)
        elif pred == s + 'ge':
            return self._relq(st, le, b, a)
        return None

    def assume(self, st, pred, a, b, addrel=True):
        """Refine st with (a pred b).  Returns False when infeasible."""
        d = self.decide(st, pred, a, b)
        if d is not None:
            return d
        if not isinstance(a[0], int) and isinstance(b[0], int):
            a, b, pred = b, a, SWAP[pred]
        if not isinstance(a[0], int) or a[1] is None or b[1] is None:
            return True
        if pred == 'ugt' and b == NULL:
            pred = 'ne'
        elif pred == 'ule' and b == NULL:
            pred = 'eq'
        da = self.syms[a[0]]
        if b[0] is None:
            c = b[1] - a[1]
            if da[0] == 'e' and da[1] == 'neg':
                # -(x) pred c   <=>  x swap(pred) -c   (signed preds only)
                if pred in ('eq', 'ne') or pred[0] == 's':
                    return self.assume(st, SWAP[pred], da[2], (None, -c))
            if da[0] == 'e' and da[1] == 'bool' and pred in ('eq', 'ne') and c in (0, 1):
                want = (pred == 'eq') == (c == 1)
                q, x, y = da[2]
                if not self.assume(st, q if want else NEGP[q], x, y):
                    return False
                if self.occurs(st, a[0]):
                    self.substitute(st, a[0], (None, 1 if want else 0))
                return True
            if da[0] == 'e' and da[1] == 'sub' and pred in ('eq', 'ne') and c == 0:
                if not self.assume(st, pred, da[2], da[3]):
                    return False
            elif da[0] == 'e' and da[1] == 'sub' and pred[0] == 's' and c == 0:
                ra, rb = self.rng(st, da[2]), self.rng(st, da[3])
                if ra and rb and -2 ** 31 <= ra[0] - rb[1] and ra[1] - rb[0] < 2 ** 31 and not self.assume(st, pred, da[2], da[3]):
                    return False
            lo, hi, ex = st.facts.get(a[0], FULL)
            p = pred
            if p[0] == 'u':
                if c >= 0 and a[1] == 0:
                    if p == 'ult':
                        if lo < 0:
                            lo = 0
                        p = 'slt'
                    elif p == 'ule':
                        if lo < 0:
                            lo = 0
                        p = 'sle'
                    elif lo >= 0:
                        p = 's' + p[1:]
                    else:
                        if p == 'uge' and c > 0 and c <= 8:
                            st.facts[a[0]] = (lo, hi, ex | frozenset(range(0, c)))
                        elif p == 'ugt' and c < 8:
                            st.facts[a[0]] = (lo, hi, ex | frozenset(range(0, c + 1)))
                        if addrel:
                            st.rel = st.rel | {('ult' if p == 'ugt' else 'ule', b, a)}
                        return True
                elif c < 0 and a[1] == 0:
                    if p == 'uge':
                        lo = max(lo, c)
                        hi = min(hi, -1)
                        p = None
                    elif p == 'ugt':
                        lo = max(lo, c + 1)
                        hi = min(hi, -1)
                        p = None
                    elif p == 'ult':
                        if c > -9:
                            ex = ex | frozenset(range(c, 0))
                        p = None
                    elif p == 'ule':
                        if c > -9:
                            ex = ex | frozenset(range(c + 1, 0))
                        p = None
                else:
                    return True
            if p == 'eq':
                if c < lo or c > hi or c in ex:
                    return False
                self.substitute(st, a[0], (None, c))
                return True
            if p == 'ne':
                ex = ex | {c}
            elif p == 'slt':
                hi = min(hi, c - 1)
            elif p == 'sle':
                hi = min(hi, c)
            elif p == 'sgt':
                lo = max(lo, c + 1)
            elif p == 'sge':
                lo = max(lo, c)
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            if lo == hi:
                self.substitute(st, a[0], (None, int(lo)))
                return True
            ex = frozenset(x for x in ex if lo < x < hi) if lo != -INF or hi != INF else ex
            st.facts[a[0]] = (lo, hi, ex)
            return True
        # symbol vs symbol / named object
        if pred == 'eq':
            if isinstance(b[0], int):
                # keep the older symbol
                ka, kb = self._age(a[0]), self._age(b[0])
                if ka < kb or (ka == kb and a[0] < b[0]):
                    a, b = b, a
                # merge facts of a into b
                f = st.facts.get(a[0])
                if f is not None:
                    k = a[1] - b[1]
                    self._mergefact(st.facts, b[0], (f[0] + k, f[1] + k, frozenset(x + k for x in f[2])))
                    st.facts.pop(a[0], None)
                if self.contains(b[0], a[0]):
                    return True
                self.substitute(st, a[0], (b[0], b[1] - a[1]))
                f = st.facts.get(b[0])
                if f and f[0] > f[1]:
                    return False
            else:
                if not self.contains(b[0], a[0]):
                    self.substitute(st, a[0], (b[0], b[1] - a[1]))
            return True
        p = pred
        x, y = a, b
        if p in ('sgt', 'ugt', 'sge', 'uge'):
            x, y, p = b, a, SWAP[p]
        st.rel = st.rel | {(p, x, y)}
        return True

    def _age(self, s):
        k = self.syms[s][0]
        return {'arg': 0, 'm0': 1, 'mv': 1, 'heap': 0}.get(k, 2)

    # ---------- memory
    def label(self, addr):
        return self.addrlabel.get(addr)

    def default_load(self, st, addr, size, inst):
        b, o = addr
        if isinstance(b, str) and b.startswith('a:'):
            return self.sitesym(st, inst, 'undef')
        if b == 'zero':
            return NULL
        if isinstance(b, str) and b.startswith('g:'):
            g = self.p.globals.get(b[2:])
            if g and not g.get('decl') and (g.get('const') or b[2:] in self.p.fixed_globals()):
                v = self.p.gcell(b[2:], o, size)
                if v is not None and v[0] in ('c', 'n', 'g', 'f', 'gep', 'ce', 'z'):
                    return self.ev(st, v)
        if isinstance(b, int) and self.syms[b][0] == 'heap0':
            return NULL
        if not st.inval or self.an.stable(self, st, addr, self.label(addr)):
            return (self.sym('m0', addr), 0)
        return self.sitesym(st, inst, 'ld')

    def load(self, st, addr, size, inst, vol=False):
        v = None
        if addr[1] is None:
            return self.sitesym(st, inst, 'ldx')
        if vol or self.an.volatile(self, st, addr, self.label(addr)):
            if not (isinstance(addr[0], str) and addr[0].startswith('a:')) and not self.an.private(self, st, addr, self.label(addr)):
                v = self.an.fresh_load(self, st, addr, self.label(addr), inst)
                if v is None:
                    v = self.sitesym(st, inst, 'vol')
                st.mem[addr] = (v, size)
                return v
        m = st.mem.get(addr)
        if m is not None:
            val, sz = m
            if sz == size or sz == 0 or val == NULL:
                return val
            if sz > size and val[0] is None:
                return (None, wrap(val[1], size * 8))
            if sz > size and isinstance(val[0], int) and self.syms[val[0]][0] in ('m0', 'mv', 'v', 'arg', 'o'):
                return val
            hi = st.mem.get(self.addoff(addr, 4))
            if sz == 4 and size == 8 and hi is not None and hi[1] == 4:
                return self.mkpair(val, hi[0])
            return self.mkexpr('part', val, (None, size))
        v = self.default_load(st, addr, size, inst)
        st.mem[addr] = (v, size)
        return v

    def store(self, st, addr, val, size):
        if addr[1] is None:
            for k in [k for k in st.mem if k[0] == addr[0]]:
                del st.mem[k]
            return
        b, o = addr
        if size == 8 and val[0] is not None and self.pair(val):
            lo, hi = self.pair(val)
            self.store(st, addr, lo, 4)
            return self.store(st, self.addoff(addr, 4), hi, 4)
        if (b, o) not in st.mem or st.mem[(b, o)][1] != size:
            # kill overlapping granules
            for k in [k for k in st.mem if k[0] == b and k[1] is not None and k != addr]:
                ko = k[1]
                if ko < o + size and o < ko + max(1, st.mem[k][1]):
                    del st.mem[k]
        st.mem[addr] = (val, size)

    def memcpy(self, st, dst, src, n, inst):
        if dst[1] is None or src[1] is None:
            self.store(st, (dst[0], None), NULL, 0)
            return
        if n is None:
            for k in [k for k in st.mem if k[0] == dst[0]]:
                del st.mem[k]
            return
        gran = {}
        for (b, o), (v, sz) in st.mem.items():
            if b == src[0] and o is not None and src[1] <= o < src[1] + n and sz:
                gran[o - src[1]] = (v, sz)
        i = 0
        out = {}
        while i < n:
            if i in gran:
                out[i] = gran[i]
                i += gran[i][1]
            else:
                nxt = min([k for k in gran if k > i] + [n])
                sz = min(8, nxt - i)
                lab = None
                a = self.addoff(src, i)
                if a[1] is not None:
                    v = self.load(st, a, sz, dict(inst, id=(inst['id'], i)))
                    out[i] = (v, sz)
                i += sz
        for k in [k for k in st.mem if k[0] == dst[0] and k[1] is not None and dst[1] <= k[1] < dst[1] + n]:
            del st.mem[k]
        for i, (v, sz) in out.items():
            st.mem[self.addoff(dst, i)] = (v, sz)

    def invalidate(self, st, keep=None):
        """Forget shared memory: other threads may have changed it."""
        st.inval = True
        for a in list(st.mem):
            if isinstance(a[0], str) and a[0].startswith('a:'):
                continue
            lab = self.label(a)
            if self.an.stable(self, st, a, lab) or self.an.private(self, st, a, lab):
                continue
            if keep and keep(a, lab):
                continue
            del st.mem[a]

    # ---------- operand evaluation
    def ev(self, st, o):
        t = o[0]
        if t == 'i':
            return st.frames[-1].env[o[1]]
        if t == 'a':
            return st.frames[-1].env[-1 - o[1]]
        if t == 'c':
            v = o[1]
            if o[2] == 1:
                v &= 1
            return (None, v)
        if t == 'n' or t == 'z':
            return NULL
        if t == 'g':
            return ('g:' + o[1], 0)
        if t == 'f':
            return ('f:' + o[1], 0)
        if t == 'gep':
            b = self.ev(st, o[1])
            a = self.addoff(b, o[2])
            labs = self.p.labels(o[3])
            if labs and a not in self.addrlabel:
                self.addrlabel[a] = labs[-1]
            return a
        if t == 'ce':
            op = o[1]
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                return self.ev(st, o[2])
            return self.mkexpr(op, *[self.ev(st, x) for x in o[2:]])
        if t == 'u':
            return (self.sym('undef'), 0)
        if t == 'fp':
            return (self.sym('fp', o[1]), 0)
        if t in ('md', 'b', 'asm', '?', 'agg', 'str'):
            return (self.sym('opaque', t), 0)
        raise AnalysisBroken('operand %r' % (o,))

    # ---------- running
    def where(self, inst):
        l = inst.get('loc')
        return '%s:%d' % (l[0], l[1]) if l else '?'

    def start(self, fname, setup=None):
        f = self.p.fn(fname)
        if f is None:
            raise AnalysisBroken('function %s is not defined in the %s build' % (fname, self.p.flavour))
        st = State()
        env = {}
        for i, (n, ty) in enumerate(f.args):
            env[-1 - i] = (self.sym('arg', i, n or str(i)), 0)
        fr = Frame(f, 0, env, None)
        st.frames = [fr]
        st.mon = dict(self.an.init_mon())
        self.root = f
        args = [env[-1 - i] for i in range(len(f.args))]
        states = self.an.setup(self, st, args)
        if states is None:
            states = [st]
        for s in states:
            self.enter(s, f)
            self.work.append(s)
        return args

    def enter(self, st, f):
        self.fns_seen.add(f.name)

    def explore(self):
        while self.work:
            st = self.work.pop()
            self.mark = len(self.work), self.nedges
            self.run(st)
            if self.mark == (len(self.work), self.nedges):
                self.ended.add(st.src)
        return self

    def endless(self):
        """join points from which no path leads to an end of the call, whatever the environment does: [(function, block)]"""
        pre = {}
        for a, bs in self.edges.items():
            for b in bs:
                pre.setdefault(b, []).append(a)
        ok = set(self.ended)
        todo = list(ok)
        while todo:
            for a in pre.get(todo.pop(), ()):
                if a not in ok:
                    ok.add(a)
                    todo.append(a)
        return [self.points[i] for i in range(1, len(self.points)) if i not in ok]

    def key(self, st):
        fks = []
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            if i < n - 1:
                if fr.key is None:
                    fr.key = (fr.fn.key, fr.ctx, fr.blk, fr.ip, frozenset(fr.env.items()))
                fks.append(fr.key)
            else:
                fks.append((fr.fn.key, fr.ctx, fr.blk, frozenset(fr.env.items()), fr.kind))
        return (tuple(fks), frozenset(st.mem.items()), frozenset(st.facts.items()), st.rel, st.cleanups,
                frozenset(st.mon.items()), st.inval, st.setjmps, st.unwinding)

    def gc(self, st):
        fr = st.frames[-1]
        live = fr.fn.live_in[fr.blk]
        ps = fr.env
        dead = [k for k in ps if k not in live and not (isinstance(k, str))]
        for k in dead:
            del ps[k]
        reach = set()

        def mark(b):
            if not isinstance(b, int) or b in reach:
                return
            reach.add(b)
            d = self.syms[b]
            if d[0] == 'e':
                for x in d[2:]:
                    if isinstance(x, tuple) and len(x) == 2:
                        mark(x[0])
                        if d[1] == 'bool':
                            pass
                    if isinstance(x, tuple) and len(x) == 3:
                        for y in x[1:]:
                            mark(y[0])
            elif d[0] in ('m0', 'mv'):
                mark(d[1][0])

        for f in st.frames:
            for v in f.env.values():
                if isinstance(v, tuple):
                    mark(v[0])
        for c in st.cleanups:
            for v in c:
                mark(v[0])

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and (isinstance(x[1], int) or x[1] is None):
                    mark(x[0])
                else:
                    for y in x:
                        walk(y)
            elif isinstance(x, frozenset):
                for y in x:
                    walk(y)
        for v in st.mon.values():
            walk(v)
        # memory: keep cells whose base is reachable, transitively
        ch = True
        cells = dict(st.mem)
        keep = {}
        while ch:
            ch = False
            for a, (v, sz) in list(cells.items()):
                b = a[0]
                if not isinstance(b, int) or b in reach or self.syms[b][0] in ('m0', 'arg'):
                    keep[a] = (v, sz)
                    mark(v[0])
                    if isinstance(b, int):
                        mark(b)
                    del cells[a]
                    ch = True
        # ambient read-only cells that hold their own initial value carry no information
        for a, (v, sz) in list(keep.items()):
            if not st.inval and isinstance(v[0], int) and v[1] == 0 and self.syms[v[0]] == ('m0', a) and v[0] not in st.facts:
                pass
        st.mem = keep
        def known(b):
            if not isinstance(b, int) or b in reach:
                return True
            d = self.syms[b]
            if d[0] == 'e' and d[1] != 'deep':
                return all(known(x[0]) for x in d[2:] if isinstance(x, tuple) and len(x) == 2)
            return False
        for b in [b for b in st.facts if not known(b)]:
            del st.facts[b]
        if st.rel:
            st.rel = frozenset(r for r in st.rel if known(r[1][0]) and known(r[2][0]))

    def goto(self, st, blk):
        fr = st.frames[-1]
        fr.prev = fr.blk
        fr.blk = blk
        fr.ip = 0
        insts = fr.fn.blocks[blk]
        # parallel phi evaluation
        vals = []
        for inst in insts:
            if inst['op'] != 'phi':
                break
            v = None
            for o, pb in inst['inc']:
                if pb == fr.prev:
                    v = self.ev(st, o)
                    break
            vals.append((inst, v))
        if vals:
            wid = []
            for inst, v in vals:
                fr.env[inst['id']] = v
                if fr.fn.incycle[blk] and v is not None and v[1] is not None and not self.an.nowiden:
                    k = (fr.ctx, fr.fn.key, inst['id'])
                    if k in self.widened:
                        if v[0] is None and (-1 <= v[1] <= 1 or v[1] in self.phiconst[k][None]):
                            continue                    # one of the few values kept apart
                        wid.append((inst, v))
                    else:
                        s = self.phiconst.setdefault(k, {}).setdefault(v[0], set())
                        s.add(v[1])
                        if len(s) > 8:
                            s.discard(v[1])
                            self.phiconst[k].setdefault(None, set())
                            self.widened.add(k)
                            if not (v[0] is None and -1 <= v[1] <= 1):
                                wid.append((inst, v))
            for inst, v in wid:
                lo = (self.rng(st, v) or FULL)[0]         # keep the sign (a counter that only goes up stays positive)
                lo = 1 if lo >= 1 else 0 if lo >= 0 else -INF
                nv = self.sitesym(st, inst, 'widen')
                st.frames[-1].env[inst['id']] = nv
                if lo != -INF:
                    st.facts[nv[0]] = (lo, INF, frozenset())
            fr = st.frames[-1]
            fr.ip = len(vals)
        if fr.fn.npreds[blk] > 1:
            self.gc(st)
            k = self.key(st)
            pt = (fr.fn.key, fr.ctx, blk)
            seen = self.seen.setdefault(pt, {})
            i = seen.get(k)
            self.nedges += 1
            if i is not None:
                self.edges.setdefault(st.src, set()).add(i)
                return False
            i = seen[k] = len(self.points)
            self.points.append((fr.fn, blk, st.trace))
            self.edges.setdefault(st.src, set()).add(i)
            st.src = i
            self.mark = len(self.work), self.nedges
            self.nstates += 1
            if self.nstates > self.MAXSTATES:
                raise AnalysisBroken('state budget exceeded in %s (%s)' % (self.root.name, fr.fn.name))
        return True

    def run(self, st):
        while True:
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.blk]
            inst = insts[fr.ip]
            self.ninst += 1
            op = inst['op']
            h = getattr(self, 'x_' + op, None)
            if h is None:
                h = self.x_misc
            r = h(st, inst)
            if r is None:
                st.frames[-1].ip += 1
                continue
            if r is True:      # control already moved
                continue
            return             # path ended / forks were queued

    def setv(self, st, inst, v):
        st.frames[-1].env[inst['id']] = v

    # ---- instructions
    def x_alloca(self, st, inst):
        fr = st.frames[-1]
        b = 'a:%d:%s:%s' % (fr.ctx, fr.fn.key, inst['id'])
        for k in [k for k in st.mem if k[0] == b]:
            del st.mem[k]
        c = self.ev(st, inst['ops'][0]) if inst.get('ops') else (None, 1)
        if c[0] is None and c[1] and inst.get('size'):
            self.stacksz[b] = inst['size'] * c[1]
        self.setv(st, inst, (b, 0))

    def x_freeze(self, st, inst):
        o = inst['ops'][0]
        self.setv(st, inst, self.sitesym(st, inst, 'undef') if o[0] == 'u' else self.ev(st, o))

    def x_load(self, st, inst):
        addr = self.ev(st, inst['ops'][0])
        lab = self.label(addr)
        if self.overrun(st, addr, inst, 'load', inst.get('size', 1)) or self.an.on_deref(self, st, addr, lab, inst, 'load') is STOP:
            return 'end'
        fk = self.an.load_forks(self, st, addr, lab, inst)
        if fk is not None:
            for t, v in fk:
                self.an.on_load(self, t, addr, lab, v, inst)
                if t.mon.get('!stop') is None:
                    t.frames[-1].env[inst['id']] = v
                    t.frames[-1].ip += 1
                    self.work.append(t)
            return 'end'
        v = self.load(st, addr, inst.get('size', 8), inst, inst.get('vol', False))
        if inst.get('ty') in ('double', 'float'):
            pass
        self.an.on_load(self, st, addr, lab, v, inst)
        self.setv(st, inst, v)

    def x_store(self, st, inst):
        v = self.ev(st, inst['ops'][0])
        addr = self.ev(st, inst['ops'][1])
        lab = self.label(addr)
        if self.overrun(st, addr, inst, 'store', inst.get('size', 1)) or self.an.on_deref(self, st, addr, lab, inst, 'store') is STOP:
            return 'end'
        self.an.on_store(self, st, addr, lab, v, inst)
        self.store(st, addr, v, inst.get('size', 8))

    def x_getelementptr(self, st, inst):
        b = self.ev(st, inst['ops'][0])
        a = self.addoff(b, inst['off'])
        if inst.get('var'):
            off = a[1]
            for o, stride in inst['var']:
                iv = self.ev(st, o)
                if iv[0] is None and iv[1] is not None and off is not None:
                    off += iv[1] * stride
                elif off is not None and len(inst['var']) == 1 and isinstance(a[0], (int, str)):
                    # symbolic index: address is base + stride*sym
                    e = self.mkexpr('idx', (a[0], a[1]) if a[0] is not None else a, iv, (None, stride))
                    self.setv(st, inst, e)
                    self.an.on_gep(self, st, a, iv, stride, e, inst)
                    return
                else:
                    off = None
            a = (a[0], off)
        labs = inst.get('labels')
        if labs:
            if a[1] is not None:
                self.addrlabel[a] = labs[-1]
            if b[0] is not None and not isinstance(b[0], str):
                self.objtype.setdefault(b, labs[0][0])
        self.setv(st, inst, a)

    def x_icmp(self, st, inst):
        a = self.ev(st, inst['ops'][0])
        b = self.ev(st, inst['ops'][1])
        pred = inst['pred']
        a, b = self.norm(st, a), self.norm(st, b)
        if self.an.num and inst['oty'].startswith('i') and inst['oty'] != 'i1':
            outs = self.an.num.icmp(self, st, pred, a, b, bits_of(inst['oty']))
            for t, r in outs:
                t.frames[-1].env[inst['id']] = (None, r)
                t.note('%s: %s(%s %s %s)' % (self.where(inst), '' if r else 'not ', self.show(a), pred, self.show(b)))
                t.frames[-1].ip += 1
                self.work.append(t)
            return 'end'
        if pred[0] == 'u' and bits_of(inst['oty']) < 64:
            # interpret negative i32 constants as unsigned consistently: both sides are sign-extended so order is kept
            pass
        a, b = self.cancel(pred, a, b)
        d = self.decide(st, pred, a, b)
        if d is not None:
            self.setv(st, inst, (None, 1 if d else 0))
            return
        self.branches.add((st.frames[-1].fn.name, inst.get('loc', [None, 0])[1], inst['id']))
        t = st.fork()
        w = self.where(inst)
        st_desc = None
        if self.assume(t, NEGP[pred], a, b):
            t.frames[-1].env[inst['id']] = (None, 0)
            t.note('%s: not (%s %s %s)' % (w, self.show(a), pred, self.show(b)))
            t.frames[-1].ip += 1
            self.work.append(t)
        if self.assume(st, pred, a, b):
            st.frames[-1].env[inst['id']] = (None, 1)
            st.note('%s: %s %s %s' % (w, self.show(a), pred, self.show(b)))
            return
        return 'end'

    def x_fcmp(self, st, inst):
        self.setv(st, inst, self.sitesym(st, inst))

    def x_br(self, st, inst):
        s = inst['succ']
        if len(s) == 1:
            return True if self.goto(st, s[0]) else 'end'
        c = self.ev(st, inst['ops'][0])
        # LLVM successor order for br i1 c, T, F : successors() yields T, F
        if c[0] is None:
            return True if self.goto(st, s[0] if c[1] & 1 else s[1]) else 'end'
        t = st.fork()
        if self.assume(t, 'eq', c, NULL):
            if self.goto(t, s[1]):
                self.work.append(t)
        if self.assume(st, 'ne', c, NULL):
            return True if self.goto(st, s[0]) else 'end'
        return 'end'

    def x_switch(self, st, inst):
        v = self.norm(st, self.ev(st, inst['ops'][0]))
        if v[0] is None:
            for c, b in inst['cases']:
                if c == v[1]:
                    return True if self.goto(st, b) else 'end'
            return True if self.goto(st, inst['default']) else 'end'
        w = self.where(inst)
        for c, b in inst['cases']:
            t = st.fork()
            if self.assume(t, 'eq', v, (None, c)):
                t.note('%s: %s == %d' % (w, self.show(v), c))
                if self.goto(t, b):
                    self.work.append(t)
        for c, b in inst['cases']:
            if not self.assume(st, 'ne', v, (None, c)):
                return 'end'
        st.note('%s: %s is none of the cases' % (w, self.show(v)))
        return True if self.goto(st, inst['default']) else 'end'

    def x_select(self, st, inst):
        c = self.norm(st, self.ev(st, inst['ops'][0]))
        if c[0] is None:
            self.setv(st, inst, self.ev(st, inst['ops'][1 if c[1] & 1 else 2]))
            return
        t = st.fork()
        if self.assume(t, 'eq', c, NULL):
            t.frames[-1].env[inst['id']] = self.ev(t, inst['ops'][2])
            t.frames[-1].ip += 1
            self.work.append(t)
        if self.assume(st, 'ne', c, NULL):
            self.setv(st, inst, self.ev(st, inst['ops'][1]))
            return
        return 'end'

    def x_phi(self, st, inst):
        raise AnalysisBroken('stray phi')

    def binop(self, st, inst):
        a = self.norm(st, self.ev(st, inst['ops'][0]))
        b = self.norm(st, self.ev(st, inst['ops'][1]))
        op = inst['op']
        bits = bits_of(inst['ty'])
        if op == 'lshr' and bits == 64 and b == (None, 32) and a[0] is not None and self.pair(a):
            return self.setv(st, inst, self.mkpair(self.pair(a)[1], NULL))
        if self.an.num and bits > 1:
            return self.num_out(st, inst, self.an.num.binop(self, st, op, a, b, bits, inst))
        v = None
        if op in ('lshr', 'udiv', 'urem') and a[0] is None and b[0] is None and a[1] is not None and b[1] is not None and (a[1] < 0 or b[1] < 0):
            x, y = a[1] % (1 << bits), b[1] % (1 << bits)
            if op == 'lshr' or y:
                v = (None, x >> min(y, bits) if op == 'lshr' else x // y if op == 'udiv' else x % y)
        v = v or self.mkexpr(op, a, b)
        if v[0] is None and v[1] is not None:
            v = (None, wrap(v[1], bits))
        self.an.on_arith(self, st, op, a, b, v, inst)
        self.setv(st, inst, v)
    x_add = x_sub = x_mul = x_and = x_or = x_xor = x_shl = x_lshr = x_ashr = x_sdiv = x_udiv = x_srem = x_urem = binop

    def num_out(self, st, inst, outs):
        """several (state, result) of one instruction"""
        for s, v in outs[1:]:
            self.setv(s, inst, v)
            s.frames[-1].ip += 1
            self.work.append(s)
        if not outs:
            return 'end'
        s, v = outs[0]
        if s is not st:
            self.setv(s, inst, v)
            s.frames[-1].ip += 1
            self.work.append(s)
            return 'end'
        self.setv(st, inst, v)

    def x_cast(self, st, inst):
        v = self.norm(st, self.ev(st, inst['ops'][0]))
        op = inst['op']
        sb, db = bits_of(inst.get('sty', '')), bits_of(inst['ty'])
        if op == 'trunc' and sb == 64 and db == 32 and v[0] is not None and self.pair(v):
            return self.setv(st, inst, self.norm(st, self.pair(v)[0]))
        if self.an.num and op in ('trunc', 'zext', 'sext') and sb > 1 and db > 1:
            return self.num_out(st, inst, self.an.num.cast(self, st, op, v, sb, db, inst))
        if v[0] is None and v[1] is not None:
            x = v[1]
            if op == 'zext':
                x &= (1 << sb) - 1
                x = wrap(x, db)
            elif op == 'trunc':
                x = wrap(x, db)
            v = (None, x)
        elif op in ('trunc', 'zext', 'sext') and self.an.exact_cast and (op != 'zext' or sb > 1):
            v = self.an.on_cast(self, st, op, sb, db, v, inst)
        elif op == 'trunc' and db < 32:
            v = self.mkexpr('trunc', v, (None, db))
        elif op == 'trunc' and sb == 64:
            r = self.rng(st, v)
            if r is None or r[0] < -(1 << 31) or r[1] >= 1 << 32:
                v = self.mkexpr('trunc', v, (None, db))
        elif op == 'zext' and sb > 1 and (sb < 32 or isinstance(v[0], int) and self.syms[v[0]][:2] == ('e', 'trunc')):
            v = self.mkexpr('zext', v, sb)
        self.setv(st, inst, v)
    x_zext = x_sext = x_trunc = x_ptrtoint = x_inttoptr = x_bitcast = x_cast

    def x_misc(self, st, inst):
        if inst['ty'] != 'void':
            self.setv(st, inst, self.sitesym(st, inst))

    def x_unreachable(self, st, inst):
        return 'end'

    def typeid(self, name):
        """selector value of an exception type (its type-info object)"""
        name = name if isinstance(name, str) else str(name)
        return (None, 0x7000 + self.typeids.setdefault(name, len(self.typeids)))

    def caught_as(self, st, ti):
        """the clause of the landing pad being executed that catches an exception of the type with type-info ti: its type-info name, 'any' or 'none'"""
        up, work = set(), [ti]
        while work:
            x = work.pop()
            if x not in up:
                up.add(x)
                work += [v[1] for _, _, v in self.p.globals.get(x, {}).get('cells', ()) if v[0] == 'g' and '_ZTI' in v[1]]
        fr = st.frames[-1]
        for i in fr.fn.blocks[fr.blk]:
            if i['op'] == 'landingpad':
                for c in i['clauses']:
                    if c[0] == 'catch' and c[1][0] == 'g' and c[1][1] in up:
                        return 'g:' + c[1][1]
                    if c[0] == 'catch' and c[1][0] == 'n':
                        return 'any'
        return 'none'

    def x_extractvalue(self, st, inst):
        if inst.get('idx') == [1]:
            v = self.ev(st, inst['ops'][0])
            if v == (self.sym('exc'), 0):
                t = self.an.exc_type(self, st)
                if t is not None:
                    self.setv(st, inst, self.typeid(t))
                    return
        self.setv(st, inst, self.sitesym(st, inst))

    def x_insertvalue(self, st, inst):
        self.setv(st, inst, self.sitesym(st, inst))

    def x_landingpad(self, st, inst):
        self.setv(st, inst, (self.sym('exc'), 0))

    def x_resume(self, st, inst):
        return self.throw(st, cont=True)

    def x_cmpxchg(self, st, inst):
        addr = self.ev(st, inst['ops'][0])
        old = self.ev(st, inst['ops'][1])
        new = self.ev(st, inst['ops'][2])
        return self.do_atomic(st, inst, 'cas', addr, new, old, pair=True)

    def x_atomicrmw(self, st, inst):
        addr = self.ev(st, inst['ops'][0])
        v = self.ev(st, inst['ops'][1])
        k = {'xchg': 'xchg', 'add': 'xadd', 'sub': 'xsub'}.get(inst['rmw'])
        if k == 'xsub':
            v = self.mkexpr('neg', v)
            k = 'xadd'
        return self.do_atomic(st, inst, k or 'rmw', addr, v, None)

    # ---- atomics
    def do_atomic(self, st, inst, kind, addr, val, comp, pair=False):
        lab = self.label(addr)
        if self.overrun(st, addr, inst, 'atomic') or self.an.on_deref(self, st, addr, lab, inst, 'atomic') is STOP:
            return 'end'
        size = 8 if bits_of(inst['ty']) == 64 else 4
        if kind == 'inc':
            kind, val, post = 'xadd', (None, 1), 1
        elif kind == 'dec':
            kind, val, post = 'xadd', (None, -1), -1
        else:
            post = 0
        if kind in ('xadd',) and val == NULL:
            kind = 'aload'
        olds = self.an.atomic_olds(self, st, addr, lab, inst, kind) if not inst.get('_old') else None
        if inst.get('_old') is not None:
            old = inst['_old'][0]
        elif olds is not None:
            inst2 = {k: v for k, v in inst.items()}
            for i, o in enumerate(olds):
                t = st if i == len(olds) - 1 else st.fork()
                if not isinstance(o, tuple):
                    o = (None, o)
                i3 = dict(inst2, _old=(o,))
                t.note('%s: %s reads %s' % (self.where(inst), self.showaddr(addr), self.show(o)))
                r = self.do_atomic(t, i3, kind if not post else ('inc' if post == 1 else 'dec'), addr, val, comp, pair)
                if r is None:
                    t.frames[-1].ip += 1
                    self.work.append(t)
                elif r is True:
                    self.work.append(t)
            return 'end'
        elif self.an.atomic_private(self, st, addr, lab):
            old = self.load(st, addr, size, inst)
        else:
            old = self.an.atomic_old(self, st, addr, lab, inst, kind)
            if old is None:
                old = self.sitesym(st, inst, 'atom')
        if kind == 'cas':
            comp_ = self.norm(st, comp)
            t = st.fork()
            if self.assume(t, 'ne', old, comp_):
                t.frames[-1].env[inst['id']] = old
                self.an.on_atomic(self, t, 'cas-fail', addr, lab, old, val, comp_, inst)
                self.store(t, addr, old, size)
                t.note('%s: compare-exchange of %s fails' % (self.where(inst), self.showaddr(addr)))
                t.frames[-1].ip += 1
                if t.mon.get('!stop') is None:
                    self._after_atomic(t, inst)
            if self.assume(st, 'eq', old, comp_):
                st.frames[-1].env[inst['id']] = comp_
                self.store(st, addr, val, size)
                st.note('%s: compare-exchange of %s succeeds' % (self.where(inst), self.showaddr(addr)))
                self.an.on_atomic(self, st, 'cas-ok', addr, lab, comp_, val, comp_, inst)
                if inst['op'] == 'invoke':
                    return True if self.goto(st, inst['normal']) else 'end'
                return None
            return 'end'
        if kind == 'xchg':
            self.setv(st, inst, old)
            self.store(st, addr, val, size)
        elif kind == 'xadd':
            self.setv(st, inst, self.addoff(old, post) if post else old)
            nv = self.mkexpr('add', old, val)
            self.store(st, addr, nv, size)
            val = nv
        elif kind == 'aload':
            self.setv(st, inst, old)
            self.store(st, addr, old, size)
            val = old
        else:
            self.setv(st, inst, old)
            self.store(st, addr, self.sitesym(st, inst, 'rmw'), size)
        self.an.on_atomic(self, st, kind, addr, lab, old, val, comp, inst)
        if st.mon.get('!stop') is not None:
            return 'end'
        if inst['op'] == 'invoke':
            return True if self.goto(st, inst['normal']) else 'end'
        return None

    def _after_atomic(self, t, inst):
        if inst['op'] == 'invoke':
            t.frames[-1].ip -= 1
            if self.goto(t, inst['normal']):
                self.work.append(t)
        else:
            self.work.append(t)

    # ---- calls
    def x_call(self, st, inst):
        if 'atomic_op' in inst:
            if inst.get('asm_odd'):
                raise AnalysisBroken('inline assembly of a form that is not known at ' + self.where(inst))
            if inst.get('atomic_flaw'):
                self.flaw(st, inst['atomic_flaw'], inst)
                return 'end'
            ops = inst['ops']
            addr = self.ev(st, ops[0])
            val = self.ev(st, ops[1]) if len(ops) > 1 else None
            comp = self.ev(st, ops[2]) if len(ops) > 2 else None
            return self.do_atomic(st, inst, inst['atomic_op'], addr, val, comp)
        c = inst['callee']
        if c[0] == 'asm':
            if inst['ty'] != 'void':
                self.setv(st, inst, self.sitesym(st, inst))
            return self.after_call(st, inst)
        cv = self.ev(st, c)
        args = [self.norm(st, self.ev(st, o)) for o in inst['ops']]
        return self.call_value(st, inst, cv, args)
    x_invoke = x_call

    def after_call(self, st, inst):
        if inst['op'] == 'invoke':
            return True if self.goto(st, inst['normal']) else 'end'
        return None

    def call_value(self, st, inst, cv, args):
        fn = None
        name = None
        if isinstance(cv[0], str) and cv[0].startswith('f:'):
            fn = self.p.fns.get(cv[0][2:])
            name = fn.name
        else:
            name = '*indirect'
        if name.startswith('llvm.'):
            return self.intrinsic(st, inst, name, args)
        name, args = self.plain_call(st, inst, name, args)
        r = self.an.on_call(self, st, name, cv, args, inst)
        if r is STOP or st.mon.get('!stop') is not None:
            return 'end'
        m = self.models.get(name)
        if m is None and (fn is None or fn.decl):
            m = self.an.extern(name)
            if m is None:
                m = self.model_unknown
        if m is not None:
            outs = m(self, st, inst, args, name, cv)
            if outs is not None:
                return self.apply_outcomes(st, inst, outs)
        return self.push(st, inst, fn, args)

    def plain_call(self, st, inst, name, args):
        """a system call in its extended form used like the basic one is the basic one"""
        if name in ('WaitForSingleObjectEx', 'SleepEx', 'WaitForMultipleObjectsEx') and args[-1] == NULL:
            name, args = name[:-2], args[:-1]
        if name == 'WaitForMultipleObjects' and args[0] == (None, 1) and args[1][1] is not None:
            name, args = 'WaitForSingleObject', [self.norm(st, self.load(st, args[1], 8, inst)), args[3]]
        return name, args

    def push(self, st, inst, fn, args, kind='call'):
        if len(st.frames) > self.maxdepth:
            raise AnalysisBroken('call depth exceeded at %s' % fn.name)
        if sum(1 for f in st.frames if f.fn is fn) > 1:
            raise AnalysisBroken('recursion on %s' % fn.name)
        fr = st.frames[-1]
        c = self.ctx(fr.ctx, (fr.fn.key, inst['id'] if inst else 'cleanup%d' % len(st.cleanups)))
        env = {-1 - i: a for i, a in enumerate(args[:len(fn.args)])}
        for i in range(len(args), len(fn.args)):
            env[-1 - i] = (self.sym('undef'), 0)
        nf = Frame(fn, c, env, inst, kind)
        fr.key = None
        st.frames = st.frames + [nf]
        self.enter(st, fn)
        self.an.on_enter(self, st, fn, args)
        return True

    def apply_outcomes(self, st, inst, outs):
        """outs: list of (state, value); value may be THROW or STOP."""
        for s, v in outs:
            if v is STOP or s.mon.get('!stop') is not None:
                continue
            if v is THROW:
                self.queue_throw(s)
                continue
            if inst['ty'] != 'void':
                s.frames[-1].env[inst['id']] = v
            if inst['op'] == 'invoke':
                if self.goto(s, inst['normal']):
                    self.work.append(s)
            else:
                s.frames[-1].ip += 1
                self.work.append(s)
        return 'end'

    def queue_throw(self, s):
        r = self.throw(s)
        if r is True:
            self.work.append(s)

    def model_unknown(self, eng, st, inst, args, name, cv):
        for a in args:
            if isinstance(a[0], str) and a[0].startswith('a:') and self.an.havocs(name):
                for k in [k for k in st.mem if k[0] == a[0] and (a[1] is None or k[1] is None or k[1] >= a[1])]:
                    del st.mem[k]
        if inst['ty'] == 'void':
            return [(st, None)]
        return [(st, self.sitesym(st, inst, 'ret'))]

    def intrinsic(self, st, inst, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = args[2][1] if args[2][0] is None else None
            if n and (self.overrun(st, args[1], inst, 'read', n) or self.overrun(st, args[0], inst, 'write', n)):
                return 'end'
            self.an.on_memcpy(self, st, args[0], args[1], n, inst)
            self.memcpy(st, args[0], args[1], n, inst)
        elif name.startswith('llvm.memset'):
            n = args[2][1] if args[2][0] is None else None
            if n and self.overrun(st, args[0], inst, 'write', n):
                return 'end'
            self.an.on_memset(self, st, args[0], args[1], n, inst)
            d = args[0]
            for k in [k for k in st.mem if k[0] == d[0] and (n is None or d[1] is None or k[1] is None or d[1] <= k[1] < d[1] + n)]:
                del st.mem[k]
            if self.an.bytewise and n is not None and d[1] is not None and n <= 4096:
                for i in range(n):
                    st.mem[self.addoff(d, i)] = (args[1], 1)
            elif args[1] == NULL and n is not None and d[1] is not None and n <= 1024:
                for i in range(0, n, 8):
                    st.mem[self.addoff(d, i)] = (NULL, min(8, n - i))
                # sub-granule reads of zero give zero through the size-mismatch rule
                for i in range(4, n, 8):
                    st.mem.setdefault(self.addoff(d, i), (NULL, 4))
        elif name.startswith('llvm.eh.typeid'):
            self.setv(st, inst, self.typeid(args[0][0]))
        elif name.startswith('llvm.objectsize'):
            self.setv(st, inst, (None, -1))
        elif name.startswith('llvm.expect'):
            self.setv(st, inst, args[0])
        elif name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin', 'llvm.abs')):
            self.setv(st, inst, self.mkexpr(name.split('.')[1], *args))
        elif inst['ty'] != 'void':
            self.setv(st, inst, self.sitesym(st, inst))
        return self.after_call(st, inst)

    def x_ret(self, st, inst):
        v = self.norm(st, self.ev(st, inst['ops'][0])) if inst['ops'] else None
        fr = st.frames[-1]
        if len(st.frames) == 1:
            return self.finish(st, 'return', v, inst)
        self.an.on_leave(self, st, fr.fn, v)
        self.drop_frame_mem(st, fr)
        st.frames = st.frames[:-1]
        caller = st.frames[-1].clone()
        st.frames[-1] = caller
        if fr.kind == 'unwind':
            r = self.throw(st, cont=True)
            return r
        ci = fr.call
        if ci['ty'] != 'void':
            caller.env[ci['id']] = v
        if not self.join_after(st, fr):
            return 'end'
        if ci['op'] == 'invoke':
            return True if self.goto(st, ci['normal']) else 'end'
        caller.ip += 1
        return True

    def join_after(self, st, fr):
        return True

    def drop_frame_mem(self, st, fr):
        pre = 'a:%d:%s:' % (fr.ctx, fr.fn.key)
        for k in [k for k in st.mem if isinstance(k[0], str) and k[0].startswith(pre)]:
            del st.mem[k]

    def throw(self, st, cont=False):
        """Unwind from the current point.  C flavour: run registered cleanup routines LIFO, then leave by longjmp.
        C++ flavour: pop frames to the next landing pad."""
        if not cont:
            self.an.on_throw(self, st)
            if st.mon.get('!stop') is not None:
                return 'end'
        if self.p.flavour == 'c':
            if st.cleanups:
                (routine, arg) = st.cleanups[-1]
                st.cleanups = st.cleanups[:-1]
                fn = None
                if isinstance(routine[0], str) and routine[0].startswith('f:'):
                    fn = self.p.fns.get(routine[0][2:])
                if fn is not None and not fn.decl and self.models.get(fn.name) is None:
                    st.note('unwinding: cleanup handler %s runs' % fn.name)
                    return self.push(st, None, fn, [arg], kind='unwind')
                self.an.on_cleanup_opaque(self, st, routine, arg)
                return self.throw(st, cont=True)
            if st.setjmps:
                d, inst = st.setjmps[-1]
                st.setjmps = st.setjmps[:-1]
                while len(st.frames) > d:
                    self.drop_frame_mem(st, st.frames[-1])
                    st.frames = st.frames[:-1]
                fr = st.frames[-1].clone()
                st.frames[-1] = fr
                fr.blk, fr.ip = inst['_pos']
                st.facts = dict(st.facts)
                v = self.an.longjmp_value(self, st)
                if v is None:
                    v = self.sitesym(st, inst, 'lj')
                    st.facts[v[0]] = (-INF, INF, frozenset([0]))
                st.frames[-1].env[inst['id']] = v
                st.frames[-1].ip += 1
                st.note('longjmp returns to setjmp at %s' % self.where(inst))
                return True
            return self.finish(st, 'unwind', None, None)
        # C++ flavour
        while True:
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.blk]
            inst = insts[fr.ip] if fr.ip < len(insts) else insts[-1]
            if inst['op'] == 'invoke' and not (cont and inst['op'] == 'resume'):
                g = fr.clone()
                st.frames[-1] = g
                st.note('unwinding into %s' % fr.fn.name)
                return True if self.goto(st, inst['unwind']) else 'end'
            if len(st.frames) == 1:
                return self.finish(st, 'unwind', None, inst)
            self.an.on_leave(self, st, fr.fn, THROW)
            self.drop_frame_mem(st, fr)
            st.frames = st.frames[:-1]

    def finish(self, st, kind, v, inst):
        self.exits += 1
        if st.mon.get('mcs') and not self.an.passes_locks:
            self.flaw(st, '%s holding the internal lock %s' % ('unwinds' if kind == 'unwind' else 'returns', self.showaddr(st.mon['mcs'][0][1])), inst)
            return 'end'
        g = getattr(self.an, 'gave_up', None)
        if g is None or not g(self, st, kind, v, inst):
            self.an.on_exit(self, st, kind, v, inst)
        return 'end'

    # ---------- reporting
    def show(self, v):
        if v is None:
            return 'void'
        b, o = v
        if b is None:
            return str(o)
        if isinstance(b, str):
            if b.startswith('a:'):
                parts = b.split(':')
                s = '&local%s' % parts[-1]
            else:
                s = ('&' if b[0] == 'g' else '') + b[2:]
        else:
            s = self.showsym(b)
        if o is None:
            return s + '[?]'
        lab = self.addrlabel.get(v)
        if lab and o:
            return '&%s->%s' % (s, lab[1])
        return s if o == 0 else '%s%+d' % (s, o)

    def showaddr(self, a):
        lab = self.addrlabel.get(a)
        if a[0] is None:
            return '*%s' % a[1]
        if isinstance(a[0], str):
            s = a[0].split(':')[-1] if a[0].startswith('a:') else a[0][2:]
            return s + ('.' + lab[1] if lab else '' if a[1] == 0 else '[%s]' % a[1])
        s = self.showsym(a[0])
        if lab:
            return '%s->%s' % (s, lab[1])
        return '*%s' % s if a[1] == 0 else '*(%s+%s)' % (s, a[1])

    def showsym(self, s):
        d = self.syms[s]
        k = d[0]
        if k == 'arg':
            return d[2]
        if k == 'm0':
            return self.showaddr(d[1])
        if k == 'v':
            f = self.p.fns[d[2]]
            for b in f.blocks:
                for i in b:
                    if i['id'] == d[3] and 'callee' in i:
                        c = i['callee']
                        return '%s()' % (self.p.fns[c[1]].name if c[0] == 'f' and c[1] in self.p.fns else d[4] or 'val')
                    if i['id'] == d[3] and i['op'] == 'load':
                        return 'load@%s' % self.where(i)
            return '%s@%s' % (d[4] or 'val', d[3])
        if k == 'e':
            return '%s(%s)' % (d[1], ', '.join(self.show(x) if isinstance(x, tuple) and len(x) == 2 else str(x) for x in d[2:]))
        if k == 'lin':
            return '(%s)' % ' + '.join('%s%s' % ('%d*' % c if c != 1 else '', self.showsym(a) if isinstance(a, int) else a) for a, c in d[1])
        if k == 'lin-div':
            return '(%s%+d)/%d' % (' + '.join('%s%s' % ('%d*' % c if c != 1 else '', self.showsym(a) if isinstance(a, int) else a) for a, c in d[1]), d[2], d[3])
        if k == 'o':
            return 'prev(%s)' % self.showsym(d[1])
        return ':'.join(str(x) for x in d)


class Analysis:
    """Base class: override the hooks a rule needs."""
    name = '?'

    def __init__(self):
        self.reports = []

    def models(self):
        return {}

    def extern(self, name):
        return None

    def init_mon(self):
        return {}

    def setup(self, eng, st, args):
        return None

    def stable(self, eng, st, addr, lab):
        return False

    def private(self, eng, st, addr, lab):
        return False

    def volatile(self, eng, st, addr, lab):
        return False

    def fresh_load(self, eng, st, addr, lab, inst):
        return None

    def atomic_private(self, eng, st, addr, lab):
        return False

    def load_forks(self, eng, st, addr, lab, inst):
        return None

    def atomic_old(self, eng, st, addr, lab, inst, kind):
        return None

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        return None

    def havocs(self, name):
        return True

    def on_load(self, *a):
        pass

    def on_store(self, *a):
        pass

    def on_deref(self, *a):
        return None

    def on_gep(self, *a):
        pass

    num = None              # exact arithmetic domain (num.Num)
    bytewise = False        # memory is set byte by byte (strings)
    nowiden = False         # loops over concrete bounds are followed to their end
    exact_cast = False      # judge or model every conversion between integer widths

    def on_cast(self, eng, st, op, sb, db, v, inst):
        r = eng.rng(st, v)
        if op == 'trunc' and (r is None or r[0] < -(1 << db - 1) or r[1] >= 1 << db - 1):
            return eng.mkexpr('trunc', v, (None, db))
        if op == 'zext' and (r is None or r[0] < 0):
            return eng.mkexpr('zext', v, sb)
        return v

    def on_arith(self, *a):
        pass

    def on_atomic(self, *a):
        pass

    def on_call(self, *a):
        return None

    def on_enter(self, *a):
        pass

    def on_leave(self, *a):
        pass

    def on_memcpy(self, *a):
        pass

    def on_memset(self, *a):
        pass

    def on_throw(self, *a):
        pass

    def on_cleanup_opaque(self, *a):
        pass

    def exc_type(self, eng, st):
        return None

    def longjmp_value(self, eng, st):
        return None

    def on_exit(self, *a):
        pass

    passes_locks = False      # the entry point hands an internal lock on to another thread or to its caller

    def report(self, eng, st, msg, inst=None):
        where = eng.where(inst) if inst else (eng.root.file + ':' + str(eng.root.line))
        fn = st.frames[-1].fn.name if st.frames else eng.root.name
        self.reports.append({'entry': eng.root.name, 'flavour': eng.p.flavour, 'function': fn, 'where': where, 'msg': msg,
                             'path': st.path()[-40:]})
