"""I03: which calls may act on a cancellation request (call-graph effect analysis; the complementary obligation, that every
cancellation point does act, is judged inside the contracts of those calls)."""
from ..engine import AnalysisBroken
from ..common import K

ACT = ('pthread_testcancel', 'pthreadCancelableWait', 'pthreadCancelableTimedWait', 'ptw32_throw', 'pthread_exit')
# documented cancellation points, calls that act on a request by their very purpose, and calls that wait for a condition variable
# on behalf of a writer (POSIX allows those to be cancellation points)
MAY = {'pthread_testcancel', 'pthreadCancelableWait', 'pthreadCancelableTimedWait', 'pthread_exit', 'pthread_cancel', 'pthread_setcancelstate', 'pthread_setcanceltype',
       'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_join', 'pthread_tryjoin_np', 'pthread_timedjoin_np', 'sem_wait', 'sem_timedwait', 'pthread_delay_np',
       'pthread_rwlock_wrlock', 'pthread_rwlock_timedwrlock'}


class Points:
    def __init__(self, P):
        self.P = P
        self.name = {k: f.name for k, f in P.fns.items()}
        self.sites = 0

    def callee(self, x):
        c = x['callee']
        return self.P.fns[c[1]] if c[0] == 'f' else None

    def edges(self, f):
        """calls made while cancellation may be enabled (must-analysis of 'this function has disabled it')"""
        n = len(f.blocks)
        own = [(o, x) for b in f.blocks for x in b for o in self.mentioned(x)]
        inn = [None] * n
        inn[0] = False
        todo, out = [0], {}
        while todo:
            b = todo.pop()
            off = inn[b]
            for x in f.blocks[b]:
                if x['op'] in ('call', 'invoke'):
                    g = self.callee(x)
                    if g is None:
                        continue
                    if g.name == 'pthread_setcancelstate':
                        a = x['ops'][0]
                        off = a[0] == 'c' and a[1] == K['PTHREAD_CANCEL_DISABLE']
                        continue
                    out.setdefault((g.key, self.where(f, x)), []).append((b, off))
            for s in f.succs[b]:
                v = off if inn[s] is None else inn[s] and off
                if inn[s] is None or v != inn[s]:
                    inn[s] = v
                    todo.append(s)
        for k, x in own:
            out[(k, self.where(f, x))] = [(0, False)]        # whoever is given the function may call it
        return {k: all(o for _, o in vs) for k, vs in out.items()}

    def mentioned(self, x):
        g = self.callee(x) if x['op'] in ('call', 'invoke') else None
        todo = list(x.get('ops', ())) if g is not None and not g.decl else [o for o, _ in x['inc']] if x['op'] == 'phi' else list(x['ops']) if x['op'] == 'select' else []
        out = []
        while todo:
            o = todo.pop()
            if o[0] == 'f' and not self.P.fns[o[1]].decl:
                out.append(o[1])
            elif o[0] == 'gep':
                todo.append(o[1])
            elif o[0] == 'ce':
                todo.append(o[2])
        return out

    def where(self, f, x):
        l = x.get('loc')
        return '%s:%s' % (l[0].split('/')[-1], l[1]) if l and not isinstance(l, str) else '%s' % (l or f.file.split('/')[-1])

    def solve(self):
        g = {}
        for f in self.P.fns.values():
            if f.decl:
                continue
            es = self.edges(f)
            self.sites += len(es)
            g[f.key] = [(k, w) for (k, w), off in sorted(es.items(), key=str) if not off]
        return g


def public(f):
    return not f.decl and not f.internal and f.name.startswith(('pthread_', 'sem_', 'sched_', 'pthread'))


def run(P, tier):
    reps, stats = [], []
    for fl in sorted(P):
        p = Points(P[fl])
        g = p.solve()
        fs = {k: f for k, f in P[fl].fns.items() if not f.decl}
        names = {f.name for f in fs.values()}
        for n in ACT:
            if n not in names:
                raise AnalysisBroken('%s is not defined: the set of acting calls is not known' % n)
        ents = [k for k, f in fs.items() if public(f) and f.name not in MAY]
        if len(ents) < 90:
            raise AnalysisBroken('only %d public calls found' % len(ents))
        for e in ents:
            prev, todo, hit = {e: None}, [e], None
            while todo and hit is None:
                k = todo.pop(0)
                for t, w in g.get(k, ()):
                    if t in prev:
                        continue
                    prev[t] = (k, w)
                    if fs.get(t) is not None and fs[t].name in ACT:
                        hit = t
                        break
                    todo.append(t)
            if hit is None:
                continue
            path, k = [], hit
            while prev[k]:
                path.append('%s calls %s at %s' % (fs[prev[k][0]].name, fs[k].name, prev[k][1]))
                last, k = k, prev[k][0]
            path.reverse()
            f = fs[e]
            reps.append({'prop': ('I03',), 'entry': f.name, 'case': '', 'flavour': fl, 'function': f.name, 'where': prev[hit][1], 'path': path,
                         'msg': 'is not a cancellation point but may act on a cancellation request (through %s)' % fs[hit].name})
        stats.append({'entry': 'calls that must not act on cancellation', 'library': fl, 'functions': sorted(fs[k].name for k in ents), 'obligations': len(ents),
                      'rule_sites': ['%d direct calls followed' % p.sites]})
    return reps, stats


JOBS = [{'kind': 'fn', 'props': ('I03',), 'name': 'cancellation effects', 'run': run}]
