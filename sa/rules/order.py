"""G01: one order for the internal locks; no user code, unwinding or re-acquisition under them (whole program, bottom-up summaries)."""
from ..engine import AnalysisBroken

ACQ = {'ptw32_mcs_lock_acquire': (0, 1), 'pthread_mutex_lock': (0, None), 'pthread_mutex_timedlock': (0, None), 'ptw32_semwait': (0, None)}
TRY = {'ptw32_mcs_lock_try_acquire': (0, 1), 'pthread_mutex_trylock': (0, None)}
REL = {'pthread_mutex_unlock': 0, 'sem_post': 0, 'sem_post_multiple': 0}
NODE_REL = {'ptw32_mcs_lock_release': 0}
MOVE = {'ptw32_mcs_node_transfer': (0, 1)}
BLOCK = {'WaitForSingleObject': 1, 'WaitForSingleObjectEx': 1, 'WaitForMultipleObjects': 3, 'WaitForMultipleObjectsEx': 3, 'SignalObjectAndWait': 2, 'Sleep': 0, 'SleepEx': 0}
BRIEF = 1000            # milliseconds
# the memory of a caller: never a lock of the library itself
USER = ('arg', 'any')
CALLER = ('caller',)


class Order:
    def __init__(self, P):
        self.P = P
        self.sum = {}            # fn key -> dict(acq={cls: where}, held=set, rel=set, ind=where, thr=where)
        self.edges = {}          # (held class, acquired class) -> (function, where, where held)
        self.bad = {}
        self.nsites = 0
        self.defs = {}

    # ---- naming
    def d(self, f, o):
        if o[0] == 'i':
            return self.defs.setdefault(f.key, {x['id']: x for b in f.blocks for x in b}).get(o[1])
        return None

    def cls(self, f, o, depth=0):
        """the lock an operand designates: a global, a field of a structure, or the caller's"""
        if depth > 12:
            return USER
        k = o[0]
        if k == 'g':
            return ('lock', o[1].lstrip('@'))
        if k in ('gep', 'ce'):
            return self.cls(f, o[1] if k == 'gep' else o[2], depth + 1)
        if k == 'a':
            return ('arg', o[1])
        x = self.d(f, o)
        if x is None:
            return USER
        if x['op'] == 'getelementptr' and x.get('labels'):
            return ('lock', '.'.join(x['labels'][-1]))
        if x['op'] in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'getelementptr', 'freeze'):
            return self.cls(f, x['ops'][0], depth + 1)
        if x['op'] == 'phi':
            c = {self.cls(f, v, depth + 1) for v, _ in x['inc']}
            return c.pop() if len(c) == 1 else USER
        if x['op'] == 'alloca':
            return ('var', f.name, x['id'])
        if x['op'] == 'load':
            c = self.cls(f, x['ops'][0], depth + 1)
            return ('lock', '*' + c[1]) if c[0] == 'lock' else USER
        return USER

    def node(self, f, o):
        if o[0] == 'i':
            x = self.d(f, o)
            if x['op'] == 'alloca':
                return ('n', x['id'])
            if x['op'] == 'getelementptr' and x.get('labels'):
                return ('f',) + x['labels'][-1]
            if x['op'] in ('bitcast', 'phi', 'load'):
                return ('v', o[1])
        if o[0] == 'a':
            return ('a', o[1])
        return ('?',)

    # ---- calls
    def callee(self, x):
        c = x['callee']
        if c[0] == 'f':
            return self.P.fns[c[1]]
        return None

    def system(self, f, o):
        """a function pointer the library obtained from the system: loaded from one of its globals"""
        x = self.d(f, o)
        n = 0
        while x is not None and x['op'] in ('bitcast', 'inttoptr', 'phi') and n < 8:
            x = self.d(f, x['ops'][0] if x['op'] != 'phi' else x['inc'][0][0])
            n += 1
        if x is not None and x['op'] == 'load':
            r = x['ops'][0]
            while r[0] in ('gep', 'ce'):
                r = r[1] if r[0] == 'gep' else r[2]
            return r[0] == 'g'
        return x is not None and x['op'] in ('call', 'invoke') and (self.callee(x) is None or self.callee(x).decl)

    def mentioned(self, f):
        """functions of the program whose address f uses as a value"""
        out = set()

        def val(o):
            if o[0] == 'f' and o[1] in self.P.fns and not self.P.fns[o[1]].decl:
                out.add(o[1])
            elif o[0] in ('gep', 'ce'):
                val(o[1] if o[0] == 'gep' else o[2])
        for b in f.blocks:
            for x in b:
                for o in x.get('ops', ()):
                    val(o)
        return out

    def where(self, f, x):
        l = x.get('loc')
        return '%s:%s' % (l[0].split('/')[-1], l[1]) if l and not isinstance(l, str) else '%s' % (l or f.file.split('/')[-1])

    EMPTY = {'acq': {}, 'held': frozenset(), 'rel': frozenset(), 'ind': None, 'thr': None, 'blk': None}

    def summary(self, key):
        return self.sum.get(key, self.EMPTY)

    def note(self, kind, f, where, msg):
        self.bad.setdefault((kind, f.name, msg), where)

    def inst_cls(self, f, x, c):
        """a class of the callee seen from the call"""
        if c[0] == 'arg' and c[1] != 'any':
            return self.cls(f, x['ops'][c[1]]) if c[1] < len(x['ops']) else USER
        return c

    def inst_node(self, f, x, n):
        if n and n[0] == 'a':
            return self.node(f, x['ops'][n[1]]) if n[1] < len(x['ops']) else ('?',)
        if n and n[0] in ('n', 'v'):
            return ('gone',)
        return n

    def outer(self, f, x, fr):
        """own arguments behind the callee's arguments fr"""
        return frozenset(x['ops'][k][1] for k in fr if k < len(x['ops']) and x['ops'][k][0] == 'a')

    def less(self, f, x, H, fr):
        """what is still held after the callee released the locks of its arguments fr"""
        ns = {self.node(f, x['ops'][k]) for k in fr if k < len(x['ops'])}
        return {h for h in H if h[1] not in ns}

    def run(self, f, final):
        own = self.mentioned(f)
        acq, ind, thr, blk, rel = {}, None, None, None, set()
        held_exit = set()
        start = {0: frozenset((CALLER, ('a', k), None, '') for k in range(len(f.args))) | self.entry(f)}

        def freed(H):
            have = {h[1] for h in H if h[0] == CALLER}
            return frozenset(k for k in range(len(f.args)) if ('a', k) not in have)

        def ev(old, new, H, sub=None):
            """an event (function, place, arguments whose lock is released before it)"""
            r = freed(H)
            if sub is not None:
                r |= sub
            return (new[0], new[1], r) if old is None else (old[0], old[1], old[2] & r)
        work = [0]
        while work:
            b = work.pop()
            H = set(start[b])
            for x in f.blocks[b]:
                op = x['op']
                self.visit(f, x, H, final)
                if op not in ('call', 'invoke'):
                    continue
                if x['callee'][0] == 'asm':
                    continue
                g = self.callee(x)
                w = self.where(f, x)
                name = g.name if g else None
                if name in ACQ or name in TRY:
                    if b == 0 or True:
                        self.nsites += final
                    lo, no = ACQ.get(name) or TRY[name]
                    c = self.cls(f, x['ops'][lo])
                    n = self.node(f, x['ops'][no]) if no is not None else ('m', c)
                    if name in ACQ:
                        acq[c] = ev(acq.get(c), (f.name, w), H)
                        self.order(f, H, c, w, f.name, final)
                        H.add((c, n, None if no is not None else x['id'], w))
                    else:
                        H.add((c, n, x['id'], w))
                    continue
                if name in REL:
                    c = self.cls(f, x['ops'][REL[name]])
                    rel.add(('m', c))
                    H = {h for h in H if h[1] != ('m', c)}
                    continue
                if name in NODE_REL:
                    n = self.node(f, x['ops'][0])
                    rel.add(n)
                    H = {h for h in H if h[1] != n}
                    continue
                if name in MOVE:
                    a, o = (self.node(f, x['ops'][i]) for i in MOVE[name])
                    H = {(h[0], a, h[2], h[3]) if h[1] == o else h for h in H}
                    continue
                if g is None:
                    if not self.system(f, x['callee']):
                        ind = ev(ind, (f.name, w), H)
                        self.user(f, H, w, f.name, final, self.cls(f, x['callee']))
                    continue
                if name == 'ptw32_throw':
                    thr = ev(thr, (f.name, w), H)
                    self.unwind(f, H, w, final)
                    continue
                if name in BLOCK and not self.brief(f, x, BLOCK[name]):
                    blk = ev(blk, (f.name, w), H)
                    self.blocks(f, H, w, f.name, final)
                if g.decl:
                    continue
                s = self.summary(g.key)
                todo = [s]
                if s['ind']:
                    if own:
                        todo += [self.summary(k) for k in own if k != g.key]
                    else:
                        ind = ev(ind, s['ind'], H, self.outer(f, x, s['ind'][2]))
                        self.user(f, self.less(f, x, H, s['ind'][2]), w, s['ind'][0], final)
                for t in todo:
                    for c, (fn, ww, fr) in t['acq'].items():
                        c = self.inst_cls(f, x, c) if t is s else c
                        fr = fr if t is s else frozenset()
                        acq[c] = ev(acq.get(c), (fn, ww), H, self.outer(f, x, fr))
                        self.order(f, self.less(f, x, H, fr), c, w, fn, final)
                    if t['blk']:
                        fr = t['blk'][2] if t is s else frozenset()
                        blk = ev(blk, t['blk'], H, self.outer(f, x, fr))
                        self.blocks(f, self.less(f, x, H, fr), w, t['blk'][0], final)
                    if t['thr'] and t is s:
                        thr = ev(thr, t['thr'], H, self.outer(f, x, t['thr'][2]))
                        self.unwind(f, self.less(f, x, H, t['thr'][2]), w, final)
                R = {self.inst_node(f, x, n) if n[0] != 'm' else ('m', self.inst_cls(f, x, n[1])) for n in s['rel']}
                rel |= {r for r in R if r[0] in ('a', 'm', 'f')}
                H = {h for h in H if h[1] not in R}
                for c, n in s['held']:
                    n = ('m', self.inst_cls(f, x, n[1])) if n[0] == 'm' else self.inst_node(f, x, n)
                    H.add((self.inst_cls(f, x, c), n, None, w))
            t = f.blocks[b][-1]
            if t['op'] == 'ret':
                held_exit |= {(h[0], h[1]) for h in H if h[1][0] not in ('m', 'n') and h[0] != CALLER}
            for i, nb in self.out(f, b, H):
                H2 = frozenset(i)
                o = start.get(nb)
                j = H2 if o is None else self.join(o, H2)
                if j != o:
                    start[nb] = j
                    work.append(nb)
        rel = frozenset(r for r in rel if r[0] in ('a', 'm', 'f'))
        return {'acq': acq, 'held': frozenset(held_exit), 'rel': rel, 'ind': ind, 'thr': thr, 'blk': blk}

    def entry(self, f):
        return frozenset()

    def join(self, a, b):
        return a | b

    def visit(self, f, x, H, final):
        pass

    def out(self, f, b, H):
        """successors with the outcome of try operations resolved"""
        t = f.blocks[b][-1]
        if t['op'] == 'br' and t.get('ops') and len(t['succ']) == 2:
            r = self.test(f, t['ops'][0])
            if r and any(h[2] == r[0] for h in H):
                tr = {h for h in H if h[2] == r[0]}
                got = {(h[0], h[1], None, h[3]) for h in tr} | (H - tr)
                no = H - tr
                zero_true = r[1]
                return [(got if zero_true else no, t['succ'][0]), (no if zero_true else got, t['succ'][1])]
        return [(H, s) for s in f.succs[b]]

    def test(self, f, o, depth=0):
        """-> (id of the value tested, whether true means it is zero)"""
        x = self.d(f, o)
        if x is None or depth > 6:
            return None
        if x['op'] == 'icmp' and x['pred'] in ('eq', 'ne'):
            a, c = x['ops']
            if a[0] == 'c':
                a, c = c, a
            if c[0] in ('c', 'n', 'z'):
                zero = (c[1] if c[0] == 'c' else 0) == 0
                y = self.d(f, a)
                if y is not None and y['op'] in ('zext', 'sext', 'trunc', 'icmp', 'xor'):
                    r = self.test(f, a, depth + 1)
                    return r and (r[0], r[1] == (not zero) if x['pred'] == 'eq' else r[1] == zero)
                if a[0] == 'i':
                    return a[1], (x['pred'] == 'eq') == zero
        if x['op'] in ('zext', 'sext', 'trunc'):
            return self.test(f, x['ops'][0], depth + 1)
        if x['op'] == 'xor' and x['ops'][1][0] == 'c' and x['ops'][1][1] in (1, -1, True):
            r = self.test(f, x['ops'][0], depth + 1)
            return r and (r[0], not r[1])
        return None

    # ---- rules
    def order(self, f, H, c, w, via, final):
        if not final or c[0] != 'lock':
            return
        for h in H:
            if h[0][0] == 'lock':
                self.edges.setdefault((h[0], c), (f.name, w, h[3], via))

    def user(self, f, H, w, via, final, what=None):
        if not final:
            return
        for h in H:
            if h[0] != CALLER and h[1][0] != 'm' and h[0] not in OWN and not (h[0][0] == 'arg' and not f.internal):
                self.note('user', f, w, 'user code (called from %s) runs while the internal lock %s is held' % (via, show(h[0])))

    def unwind(self, f, H, w, final):
        if not final:
            return
        for h in H:
            if h[0] != CALLER and h[1][0] != 'm':
                self.note('unwind', f, w, 'the thread may be cancelled or exit while it holds the internal lock %s: nobody would release it' % show(h[0]))

    def brief(self, f, x, k):
        o = x['ops'][k] if k is not None else ('?',)
        if o[0] in ('n', 'z'):
            return True
        return o[0] == 'c' and 0 <= o[1] <= BRIEF

    def blocks(self, f, H, w, via, final):
        if not final:
            return
        for h in H:
            if h[0] != CALLER and h[1][0] != 'm':
                self.note('block', f, w, 'waits (in %s) for something other than a lock while it holds the internal lock %s' % (via, show(h[0])))

    @staticmethod
    def norm(s):
        e = lambda v: v and v[2]
        return {c: e(v) for c, v in s['acq'].items()}, s['held'], s['rel'], e(s['ind']), e(s['thr']), e(s['blk'])

    def solve(self):
        fs = [f for f in self.P.fns.values() if not f.decl]
        for rnd in range(30):
            ch = False
            for f in fs:
                n = self.run(f, False)
                o = self.sum.get(f.key)
                if o is None or self.norm(n) != self.norm(o):
                    self.sum[f.key] = n
                    ch = True
            if not ch:
                break
        else:
            raise AnalysisBroken('lock summaries do not converge')
        for f in fs:
            self.run(f, True)
        return fs


# a once-control's own lock is meant to be held by whoever runs its routine
OWN = (('lock', 'pthread_once_t_.lock'),)


def show(c):
    return c[1] if c[0] == 'lock' else 'given by the caller' if c[0] == 'arg' else 'on the stack'


def cycles(edges):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
    out = []
    for a, b in sorted(edges):
        # shortest way back from b to a
        prev, todo, seen = {b: None}, [b], {b}
        while todo:
            x = todo.pop(0)
            if x == a:
                p = [x]
                while prev[x] is not None:
                    x = prev[x]
                    p.append(x)
                out.append((a, b, tuple(reversed(p))))
                break
            for y in sorted(adj.get(x, ())):
                if y not in seen:
                    seen.add(y)
                    prev[y] = x
                    todo.append(y)
    return out


def run(P, tier):
    reps, stats = [], []
    for fl in sorted(P):
        o = Order(P[fl])
        fs = o.solve()
        if o.nsites < 40:
            raise AnalysisBroken('only %d sites that take an internal lock' % o.nsites)

        def rep(fn, where, msg, path=()):
            reps.append({'prop': ('G01',), 'entry': fn, 'case': '', 'flavour': fl, 'function': fn, 'where': where, 'path': list(path), 'msg': msg})
        for (k, fn, msg), w in sorted(o.bad.items()):
            rep(fn, w, msg)
        for a, b, p in cycles(o.edges):
            fn, w, hw, via = o.edges[(a, b)]
            if a == b:
                rep(fn, w, 'takes the internal lock %s (in %s) while holding it' % (show(a), via), ['held since %s' % hw])
            else:
                rep(fn, w, 'takes %s (in %s) while holding %s, but elsewhere they are taken the other way round' % (show(b), via, show(a)),
                    ['%s -> %s in %s at %s (held since %s)' % (show(x), show(y), *o.edges[(x, y)][:3]) for x, y in zip((a,) + p, p)])
        stats.append({'entry': 'lock order', 'library': fl, 'functions': sorted(f.name for f in fs), 'obligations': o.nsites + len(o.edges),
                      'rule_sites': ['%s before %s (%s)' % (show(a), show(b), e[1]) for (a, b), e in sorted(o.edges.items())]})
    return reps, stats


JOBS = [{'kind': 'fn', 'props': ('G01',), 'name': 'lock order', 'run': run}]
