"""G02: data that calls of different threads share is guarded by one lock, or is a single word that is only published (whole program, locks certainly held)."""
from ..engine import AnalysisBroken
from .order import Order, ACQ, TRY, REL, NODE_REL, CALLER

# run before the first and after the last concurrent call
PHASE = ('ptw32_processInitialize', 'ptw32_processTerminate', 'pthread_win32_process_attach_np', 'pthread_win32_process_detach_np')
SYNC = dict.fromkeys(list(ACQ) + list(TRY) + list(REL), 0)
SYNC.update({'pthread_once': 0, 'pthread_cond_wait': 0, 'pthread_cond_signal': 0, 'sem_wait': 0, 'sem_trywait': 0, 'sem_wait_nocancel': 0, 'pthread_spin_lock': 0, 'pthread_spin_unlock': 0})
HARMLESS = ('free', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.declare', 'llvm.dbg.value')


class Guard(Order):
    """must-held locks at every access to a variable of static storage duration"""

    def __init__(self, P):
        super().__init__(P)
        self.acc = {}           # global -> [(kind, fn, where, guards)]
        self.ctx = {}           # internal function -> locks held at every call
        self.next = {}
        self.param = {}

    def join(self, a, b):
        kb = {(h[0], h[1]) for h in b}
        return frozenset((h[0], h[1], h[2], h[3]) for h in a if (h[0], h[1]) in kb and (h[2] is None or h in b) or (h[0], h[1]) in kb and h in b)

    def entry(self, f):
        return frozenset((c, ('ctx',), None, '') for c in self.ctx.get(f.key) or ())

    def base(self, f, o, depth=0):
        """the variable an address lies in: ('g', name), ('a', k) or None"""
        if depth > 12:
            return None
        if o[0] == 'g':
            return ('g', o[1].lstrip('@'))
        if o[0] == 'a':
            return ('a', o[1])
        if o[0] == 'gep':
            return self.base(f, o[1], depth + 1)
        if o[0] == 'ce':
            return self.base(f, o[2], depth + 1) if isinstance(o[2], (list, tuple)) else None
        x = self.d(f, o)
        if x is not None and x['op'] in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'):
            return self.base(f, x['ops'][0], depth + 1)
        return None

    def accesses(self, f, x):
        """(base, kind) for what instruction x does: r, w"""
        op = x['op']
        if op == 'load':
            b = self.base(f, x['ops'][0])
            if b:
                yield b, 'r', x.get('atomic')
        elif op == 'store':
            b = self.base(f, x['ops'][1])
            if b:
                yield b, 'w', x.get('atomic')
            b = self.base(f, x['ops'][0])
            if b and b[0] == 'g':
                yield b, 'e', None
        elif op in ('call', 'invoke'):
            g = self.callee(x)
            name = g.name if g else None
            if name in HARMLESS or x['callee'][0] == 'asm' or 'atomic_op' in x:
                return
            for k, o in enumerate(x.get('ops', ())):
                b = self.base(f, o)
                if b is None or SYNC.get(name) == k or name in NODE_REL:
                    continue
                if name and name.startswith('llvm.mem'):
                    if k < 2:
                        yield b, 'w' if k == 0 else 'r', None
                    continue
                if g is None or g.decl:
                    yield b, 'w', None
                    continue
                for kind in sorted(self.param.get((g.key, k), ())):
                    yield b, kind, None

    def params(self):
        fs = [f for f in self.P.fns.values() if not f.decl]
        ch = True
        while ch:
            ch = False
            for f in fs:
                for b in f.blocks:
                    for x in b:
                        for (t, k), kind, at in self.accesses(f, x):
                            if t == 'a' and not at and kind not in self.param.get((f.key, k), ()):
                                self.param.setdefault((f.key, k), set()).add(kind)
                                ch = True

    def visit(self, f, x, H, final):
        if x['op'] in ('call', 'invoke'):
            g = self.callee(x)
            if g is not None and not g.decl:
                s = self.summary(g.key)
                loose = any(n[0] == 'a' for n in s['rel'])
                c = frozenset() if loose else frozenset(h[0] for h in H if h[0][0] == 'lock' and h[2] is None)
                o = self.next.get(g.key)
                self.next[g.key] = c if o is None else o & c
        if not self.collect:
            return
        for b, kind, at in self.accesses(f, x):
            if b[0] == 'g' and not at:
                w = self.where(f, x)
                e = self.acc.setdefault(b[1], {})
                key = (kind, f.name, w)
                g = frozenset(h[0] for h in H if h[0][0] == 'lock' and h[2] is None)
                e[key] = g if key not in e else e[key] & g

    def solve2(self):
        self.collect = False
        fs = self.solve()
        self.params()
        taken = set()
        for f in fs:
            taken |= self.mentioned(f)
        inner = {f.key for f in fs if f.name.startswith('ptw32_') or f.internal} - taken
        # held at every call of an internal function (greatest fixpoint, descending from the first round)
        self.ctx = {}
        for rnd in range(8):
            self.next = {}
            for f in fs:
                self.run(f, False)
            new = {k: v for k, v in self.next.items() if k in inner}
            if rnd and new == self.ctx:
                break
            self.ctx = new if not rnd else {k: v for k, v in new.items()}
        self.collect = True
        for f in fs:
            self.run(f, False)
        return fs

    def phase(self, fs):
        """the functions that run only before or after all concurrent calls"""
        callers = {}
        for f in fs:
            for b in f.blocks:
                for x in b:
                    if x['op'] in ('call', 'invoke'):
                        g = self.callee(x)
                        if g is not None and not g.decl:
                            callers.setdefault(g.name, set()).add(f.name)
        out = set(PHASE)
        ch = True
        internal = {f.name for f in fs if f.internal or f.name.startswith('ptw32_')}
        while ch:
            ch = False
            for f in internal - out:
                if callers.get(f) and callers[f] <= out:
                    out.add(f)
                    ch = True
        return out


MEMO = {}


def findings(P):
    """the reports alone, once per program"""
    if id(P) not in MEMO:
        MEMO[id(P)] = (P, run(P, 'quick')[0])
    return MEMO[id(P)][1]


def run(P, tier):
    reps, stats = [], []
    for fl in sorted(P):
        G = Guard(P[fl])
        fs = G.solve2()
        ph = G.phase(fs)
        n = 0
        names = []
        for g, acc in sorted(G.acc.items()):
            d = P[fl].globals.get(g)
            if d is None or d.get('const') or d.get('decl') or d.get('tls') or not any(k[0] in 'we' for k in acc):
                continue
            live = {k: v for k, v in acc.items() if k[1] not in ph}
            n += len(acc)
            names.append(d.get('name') or g)
            if not any(k[0] in 'we' for k in live):
                continue
            common = None
            for v in live.values():
                common = v if common is None else common & v
            if common:
                continue
            title = d.get('name') or g
            # a single word that each function either sets or reads, once
            per = {}
            for k in live:
                per.setdefault(k[1], []).append(k)
            if d.get('size', 99) <= 8 and all(len(v) == 1 and v[0][0] in 'rw' for v in per.values()):
                continue
            bare = sorted(k for k, v in live.items() if not v) or sorted(live)
            kind, fn, w = ([k for k in bare if k[0] in 'we'] or bare)[0]
            reps.append({'prop': ('G02',), 'entry': fn, 'case': '', 'flavour': fl, 'function': fn, 'where': w,
                         'path': ['%s %s in %s at %s%s' % (title, {'r': 'read', 'w': 'written', 'e': 'address kept'}[k[0]], k[1], k[2], ' holding %s' % ', '.join(sorted(c[1] for c in v)) if v else '') for k, v in sorted(live.items())],
                         'msg': 'works in %s, which another thread may be using at the same time: no lock is held at every access' % title})
        if len(names) < 8:
            raise AnalysisBroken('only %d variables of static storage duration are written' % len(names))
        stats.append({'entry': 'shared data', 'library': fl, 'functions': sorted(f.name for f in fs), 'obligations': n, 'rule_sites': names})
    return reps, stats


JOBS = [{'kind': 'fn', 'props': ('G02',), 'name': 'shared data', 'run': run}]
