"""Exact machine-integer arithmetic as a convex-polyhedra abstract domain: a value is an integer linear form over atoms, equal to the machine
value modulo the word size; the path keeps linear inequalities over the atoms.  Every use that depends on the interpretation (comparison,
division, extension) proves which multiple of the word size has to be taken off, splitting the path if there are several."""
from fractions import Fraction
from math import gcd
from .engine import wrap, NULL, AnalysisBroken


class Cons:
    """an immutable set of inequalities  sum(coef * atom) + k >= 0"""
    __slots__ = ('s',)

    def __init__(self, s=frozenset()):
        self.s = s

    def __hash__(self):
        return hash(self.s)

    def __eq__(self, o):
        return isinstance(o, Cons) and self.s == o.s


def tidy(t, k):
    """integer tightening: divide by the gcd of the coefficients and round the constant down"""
    t = {a: c for a, c in t.items() if c}
    if not t:
        return (), k
    g = 0
    for c in t.values():
        g = gcd(g, abs(c))
    if g > 1:
        t = {a: c // g for a, c in t.items()}
        k = k // g
    return tuple(sorted(t.items(), key=lambda x: repr(x[0]))), k


def strongest(cs):
    best = {}
    for t, k in cs:
        if not t:
            if k < 0:
                return None
            continue
        if t not in best or k < best[t]:
            best[t] = k
    return best


def feasible(cs):
    """Fourier-Motzkin elimination with integer tightening (False only when there is no solution)"""
    best = strongest(cs)
    while best:
        if best is None:
            return False
        n = {}
        for t in best:
            for a, c in t:
                p = n.setdefault(a, [0, 0])
                p[c > 0] += 1
        a = min(n, key=lambda x: (n[x][0] * n[x][1], repr(x)))
        pos, neg, out = [], [], []
        for t, k in best.items():
            d = dict(t)
            c = d.pop(a, 0)
            if c > 0:
                pos.append((c, d, k))
            elif c < 0:
                neg.append((-c, d, k))
            else:
                out.append((t, k))
        for c, d, k in pos:
            for e, f, l in neg:
                g = gcd(c, e)
                x, y = e // g, c // g
                r = {b: v * x for b, v in d.items()}
                for b, v in f.items():
                    r[b] = r.get(b, 0) + v * y
                out.append(tidy(r, k * x + l * y))
        if len(out) > 4000:
            raise AnalysisBroken('too many inequalities on one path')
        best = strongest(out)
    return best is not None


class Num:
    def __init__(self):
        self.memo = {}

    # ---------- values and linear forms
    def lin(self, eng, v):
        """-> (dict atom -> coef, const)"""
        b, k = v
        if k is None:
            return ({('?', b): 1}, 0)
        if b is None:
            return ({}, k)
        if isinstance(b, int):
            d = eng.syms[b]
            if d[0] == 'lin':
                return (dict(d[1]), k)
        return ({b: 1}, k)

    def val(self, eng, t, k):
        t = {a: c for a, c in t.items() if c}
        if not t:
            return (None, k)
        if len(t) == 1:
            (a, c), = t.items()
            if c == 1:
                return (a, k)
        return (eng.sym('lin', tuple(sorted(t.items(), key=lambda x: repr(x[0])))), k)

    @staticmethod
    def comb(x, y, p=1, q=1):
        t = {a: c * p for a, c in x[0].items()}
        for a, c in y[0].items():
            t[a] = t.get(a, 0) + c * q
        return ({a: c for a, c in t.items() if c}, x[1] * p + y[1] * q)

    # ---------- constraints of a path
    def cons(self, st):
        return st.mon.get('lin', Cons()).s

    def add(self, st, L):
        """assume L >= 0; -> is the path still possible?"""
        c = tidy(*L)
        if not c[0]:
            return c[1] >= 0
        s = self.cons(st)
        if c in s:
            return True
        s = s | {c}
        st.mon['lin'] = Cons(s)
        return self.ok(s)

    def ok(self, s):
        r = self.memo.get(s)
        if r is None:
            r = self.memo[s] = feasible(s)
        return r

    def entails(self, st, L):
        """is L >= 0 on this path?"""
        c = tidy({a: -x for a, x in L[0].items()}, -L[1] - 1)
        if not c[0]:
            return c[1] < 0
        return not self.ok(self.cons(st) | {c})

    def rangeof(self, st, a, lo, hi):
        return self.add(st, ({a: 1}, -lo)) and self.add(st, ({a: -1}, hi))

    def atom(self, eng, st, name, lo, hi):
        a = eng.sym('arg', 'n', name)
        self.rangeof(st, a, lo, hi)
        return (a, 0)

    def known(self, st, L, bits):
        """give an atom never seen before the (signed) range of its width"""
        have = {a for t, k in self.cons(st) for a, c in t}
        for a in L[0]:
            if a not in have:
                self.rangeof(st, a, -(1 << bits - 1), (1 << bits - 1) - 1)

    def interp(self, eng, st, v, bits, signed):
        """-> [(state, linear form equal to the machine value)]"""
        L = self.lin(eng, v)
        M = 1 << bits
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if not L[0]:
            return [(st, ({}, (L[1] - lo) % M + lo))]
        self.known(st, L, bits)
        inside = lambda s, m: (self.comb(L, ({}, 1), 1, -lo - m * M), self.comb(L, ({}, 1), -1, hi + m * M))
        up, dn = inside(st, 0)
        if self.entails(st, up) and self.entails(st, dn):
            return [(st, L)]
        far = [self.feasible_with(st, inside(st, m)[0 if m > 0 else 1]) for m in (3, -3)]
        ms = (0, 1, -1, 2, -2)
        if any(far):
            # any form equal modulo 2^bits will do
            L = ({a: wrap(c, bits) for a, c in L[0].items() if c % M}, wrap(L[1], bits))
            if not L[0]:
                return [(st, ({}, (L[1] - lo) % M + lo))]
            far = [self.feasible_with(st, inside(st, m)[0 if m > 0 else 1]) for m in (3, -3)]
            b = self.bounds(st, L)
            if b and (b[1] - lo) // M - (b[0] - lo) // M < 5:
                ms, far = range((b[0] - lo) // M, (b[1] - lo) // M + 1), (False, False)
        outs = []
        for m in ms:
            s = st.fork()
            a, b = inside(s, m)
            if self.add(s, a) and self.add(s, b):
                outs.append((s, self.comb(L, ({}, 1), 1, -m * M)))
        # anything further away
        for m, sg, is_ in ((3, 1, far[0]), (-3, -1, far[1])):
            if not is_:
                continue
            s = st.fork()
            a, b = inside(s, m)
            if self.add(s, a if sg > 0 else b):
                f = (eng.sym('lin-any', v, bits, signed, m), 0)
                self.rangeof(s, f[0], lo, hi)
                outs.append((s, self.lin(eng, f)))
        return outs

    def feasible_with(self, st, L):
        return self.add(st.fork(), L)

    def bounds(self, st, L):
        """integers between which L lies on this path (within a factor of two of 2^90), or None"""
        out = []
        for sg in (-1, 1):
            # the least t with sg * L <= t
            le = lambda t: self.entails(st, self.comb(L, ({}, t), -sg, 1))
            lo, hi = -(1 << 90), 1 << 90
            if not le(hi):
                return None
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if le(mid):
                    hi = mid
                else:
                    lo = mid
            out.append(hi)
        return -out[0], out[1]

    # ---------- operations; each gives [(state, value)]
    def div(self, eng, st, L, k):
        """floor division by a positive constant -> (quotient, remainder) as linear forms"""
        if not L[0]:
            return ({}, L[1] // k), ({}, L[1] % k)
        # what is a multiple of k comes out exactly
        whole = {a: c // k for a, c in L[0].items() if c % k == 0}
        rest = {a: c for a, c in L[0].items() if c % k}
        wk, rk = divmod(L[1], k)
        if not rest:
            return (whole, wk), ({}, rk)
        R = (rest, rk)
        q = eng.sym('lin-div', tuple(sorted(rest.items(), key=lambda x: repr(x[0]))), rk, k)
        Q = ({q: 1}, 0)
        rem = self.comb(R, Q, 1, -k)
        self.add(st, rem)
        self.add(st, self.comb(rem, ({}, k - 1), -1, 1))
        return self.comb(Q, (whole, wk)), rem

    def fresh(self, eng, st, key, bits):
        f = eng.sym('lin-op', *key)
        self.rangeof(st, f, -(1 << bits - 1), (1 << bits - 1) - 1)
        return (f, 0)

    def binop(self, eng, st, op, a, b, bits, inst):
        A, B = self.lin(eng, a), self.lin(eng, b)
        V = lambda L: self.val(eng, L[0], wrap(L[1], bits) if not L[0] else L[1])
        any_ = lambda s: [(s, self.fresh(eng, s, (op, a, b, bits), bits))]
        if op in ('add', 'sub'):
            return [(st, V(self.comb(A, B, 1, 1 if op == 'add' else -1)))]
        if op == 'mul':
            if A[0] and B[0]:
                return any_(st)
            x, y = (A, B) if not B[0] else (B, A)
            return [(st, V(self.comb(x, ({}, 0), wrap(y[1], bits))))]
        if op == 'shl':
            return any_(st) if B[0] else [(st, V(self.comb(A, ({}, 0), 1 << B[1] % bits)))]
        if op in ('sdiv', 'srem', 'udiv', 'urem', 'lshr', 'ashr'):
            if B[0]:
                return any_(st)
            k = B[1]
            sg = op[0] in 'sa'
            if op in ('lshr', 'ashr'):
                k = 1 << k % bits
            elif not sg:
                k %= 1 << bits
            if k <= 0:
                return any_(st)
            outs = []
            for s, L in self.interp(eng, st, a, bits, sg):
                rem = op.endswith('rem')
                if op == 'ashr' or not sg or self.entails(s, L):
                    outs.append((s, V(self.div(eng, s, L, k)[rem])))
                    continue
                t = s.fork()
                if self.add(s, L):
                    outs.append((s, V(self.div(eng, s, L, k)[rem])))
                N = self.comb(L, ({}, 0), -1)
                if self.add(t, self.comb(N, ({}, 1), 1, -1)):
                    outs.append((t, V(self.comb(self.div(eng, t, N, k)[rem], ({}, 0), -1))))
            return outs
        if op == 'and' and (not B[0] or not A[0]):
            X, m = (A, B[1]) if not B[0] else (B, A[1])
            m %= 1 << bits
            if m & (m + 1) == 0:
                return [(st, V(self.div(eng, st, X, m + 1)[1]))] if m else [(st, NULL)]
            low = ((1 << bits) - 1) ^ m
            if low & (low + 1) == 0:
                return [(st, V(self.comb(X, self.div(eng, st, X, low + 1)[1], 1, -1)))]
            if not X[0]:
                return [(st, (None, wrap(X[1] & m, bits)))]
            return any_(st)
        if op == 'xor' and B == ({}, -1):
            return [(st, V(self.comb(A, ({}, 1), -1, -1)))]
        if op in ('or', 'xor') and not A[0] and not B[0]:
            return [(st, (None, wrap(A[1] | B[1] if op == 'or' else A[1] ^ B[1], bits)))]
        if op in ('or', 'xor'):
            for X, Y in ((A, B), (B, A)):
                g = X[1]
                for c in X[0].values():
                    g = gcd(g, abs(c))
                p = g & -g if g else 0
                if p > 1:
                    if self.entails(st, Y) and self.entails(st, self.comb(Y, ({}, p - 1), -1, 1)):
                        return [(st, V(self.comb(X, Y)))]
        return any_(st)

    def cast(self, eng, st, op, v, sb, db, inst):
        if op == 'trunc':
            L = self.lin(eng, v)
            return [(st, v if L[0] else (None, wrap(L[1], db)))]
        if v[0] is None:
            return [(st, (None, wrap(v[1] % (1 << sb) if op == 'zext' else wrap(v[1], sb), db)))]
        return [(s, self.val(eng, *L)) for s, L in self.interp(eng, st, v, sb, op == 'sext')]

    def icmp(self, eng, st, pred, a, b, bits):
        """-> [(state, 0 or 1)]"""
        sg = pred[0] != 'u'
        outs = []
        for s, A in self.interp(eng, st, a, bits, sg):
            for t, B in self.interp(eng, s, b, bits, sg):
                D = self.comb(A, B, 1, -1)
                one = ({}, 1)
                for rel, C in (('<', self.comb(D, one, -1, -1)), ('>', self.comb(D, one, 1, -1)), ('=', None)):
                    u = t.fork()
                    if C is not None:
                        if not self.add(u, C):
                            continue
                    elif not (self.add(u, D) and self.add(u, self.comb(D, ({}, 0), -1))):
                        continue
                    p = pred if pred in ('eq', 'ne') else pred[1:]
                    outs.append((u, int({'eq': rel == '=', 'ne': rel != '=', 'lt': rel == '<', 'le': rel != '>', 'gt': rel == '>', 'ge': rel != '<'}[p])))
        return outs
