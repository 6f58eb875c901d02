"""L01: statically initialised mutexes, condition variables, read-write locks and spin locks are set up exactly once."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from ..comp import Comp

LOCKS = {}


class Static(Comp):
    PROPS = ('L01',)
    fail_setevent = False

    def __init__(self, typ, op, case):
        super().__init__(case)
        self.typ, self.op, self.case = typ, op, case
        self.init = {'mutex': ('PTHREAD_MUTEX_INITIALIZER', 'PTHREAD_RECURSIVE_MUTEX_INITIALIZER', 'PTHREAD_ERRORCHECK_MUTEX_INITIALIZER'),
                     'cond': ('PTHREAD_COND_INITIALIZER',), 'rwlock': ('PTHREAD_RWLOCK_INITIALIZER',), 'spin': ('PTHREAD_SPINLOCK_INITIALIZER',)}[typ]

    def models(self):
        m = super().models()
        for t in ('mutex', 'cond', 'rwlock', 'spin'):
            m['pthread_%s_init' % t] = self.m_init
        return m

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'got': 0, 'ini': 0, 'ires': NULL, 'z': 0, 'null': 0, 'busyobj': 0})
        self.A = args[0]
        st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        self.X = self.ptr(eng, st, 'object')
        m['keep'] = ('K', self.A, self.X)
        m['held'] = ()
        for a in args[1:]:
            st.facts[a[0]] = (-INF, INF, frozenset([0]))
        self.iv = K[self.case] if self.case in K else None
        m['now'] = (None, self.iv) if self.iv is not None else NULL     # what the caller last knew
        m['sure'] = 0

    def values(self, st):
        m = st.mon
        if m['sure']:
            return [m['now']]
        if self.case == 'nullobj':
            return [NULL]
        if m['now'] == NULL:
            return [NULL]
        if m['now'] == self.X:
            return [self.X]          # a live object stays one for as long as it is used
        return [m['now'], self.X, NULL] if m['held'] or m.get('racing') else [m['now'], self.X]

    def load_forks(self, eng, st, addr, lab, inst):
        if addr != self.A:
            return None
        out = []
        vs = self.values(st)
        for i, v in enumerate(vs):
            t = st if i == len(vs) - 1 else st.fork()
            t.mon['now'] = v
            if t.mon['held']:
                t.mon['sure'] = 1
            t.note('%s: the variable reads %s' % (eng.where(inst), eng.show(v)))
            out.append((t, v))
        return out

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if addr[0] is None and addr[1] is not None and -16 <= addr[1] < 65536 or (addr[0] is None and addr[1] is not None and -5 <= addr[1]):
            self.rep(eng, st, '%s through a static initialiser' % how, inst)
            return STOP
        if addr[0] == self.X[0]:
            st.mon['used'] = 1
            return STOP

    def on_acquired(self, eng, st, lock, inst):
        m = st.mon
        if isinstance(lock[0], str) and lock[0].startswith('g:'):
            m['held'] = m['held'] + (('h', lock[0]),)
            self.sites.add((eng.where(inst), 'section'))

    def on_released(self, eng, st, lock, inst):
        m = st.mon
        m['held'] = tuple(x for x in m['held'] if x[1] != lock[0])
        if not m['held']:
            m['sure'] = 0

    def record(self, eng, st, inst):
        LOCKS.setdefault((eng.p.flavour, self.typ), {}).setdefault(frozenset(x[1] for x in st.mon['held']), (eng.where(inst), eng.root.name))

    def m_init(self, eng, st, inst, args, name, cv):
        m = st.mon
        if name != 'pthread_%s_init' % self.typ or args[0] != self.A:
            raise AnalysisBroken('%s called for a %s' % (name, self.typ))
        self.sites.add((eng.where(inst), 'set-up'))
        if not m['held']:
            return self.rep(eng, st, 'sets the object up without excluding others that do the same', inst) or []
        if not m['sure']:
            return self.rep(eng, st, 'sets the object up without checking, under the lock, that nobody else has', inst) or []
        if not const(m['now']) or m['now'] == NULL:
            return self.rep(eng, st, 'sets up an object that is already set up', inst) or []
        self.record(eng, st, inst)
        if self.typ == 'mutex':
            kind, rob, psh = K['PTHREAD_MUTEX_DEFAULT'], K['PTHREAD_MUTEX_STALLED'], K['PTHREAD_PROCESS_PRIVATE']
            if args[1] != NULL:
                a = eng.load(st, args[1], 8, dict(inst, id='attr'))
                if a != NULL:
                    g = lambda f: eng.load(st, field(eng, a, 'pthread_mutexattr_t_', f), 4, dict(inst, id='attr' + f))
                    kind, rob, psh = (x[1] if const(x) else None for x in (g('kind'), g('robustness'), g('pshared')))
            want = {K['PTHREAD_MUTEX_INITIALIZER']: K['PTHREAD_MUTEX_DEFAULT'], K['PTHREAD_RECURSIVE_MUTEX_INITIALIZER']: K['PTHREAD_MUTEX_RECURSIVE'],
                    K['PTHREAD_ERRORCHECK_MUTEX_INITIALIZER']: K['PTHREAD_MUTEX_ERRORCHECK']}[m['now'][1]]
            if kind != want or rob != K['PTHREAD_MUTEX_STALLED'] or psh != K['PTHREAD_PROCESS_PRIVATE']:
                return self.rep(eng, st, 'the mutex is not set up with the type its initialiser stands for', inst) or []
        elif self.typ == 'spin':
            if args[1] != (None, K['PTHREAD_PROCESS_PRIVATE']):
                return self.rep(eng, st, 'the object is set up as shared between processes', inst) or []
        elif args[1] != NULL:
            a = eng.load(st, args[1], 8, dict(inst, id='attr'))
            if a != NULL:
                raise AnalysisBroken('attributes of a static %s' % self.typ)
        outs = []
        for r in ('ENOMEM', 'EAGAIN', 0):
            t = st.fork()
            if r:
                t.mon['ires'] = (None, E[r])
                t.mon['now'] = NULL if self.typ in ('mutex', 'spin') else t.mon['now']
            else:
                t.mon['ini'] = 1
                t.mon['now'] = self.X
            t.note('%s: %s -> %s' % (eng.where(inst), name, r or 'success'))
            outs.append((t, (None, E[r] if r else 0)))
        return outs

    def p_any(self, eng, st, op, obj, args, inst):
        if obj[0] is None:
            return self.rep(eng, st, '%s through a static initialiser' % op, inst) or []
        if obj[0] == self.X[0] or isinstance(obj[0], str):
            return [(st, STOP)]
        return super().p_any(eng, st, op, obj, args, inst)

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr != self.A:
            return
        m = st.mon
        if self.op != 'destroy':
            return self.rep(eng, st, 'overwrites the caller\'s variable', inst)
        if not m['held'] or not m['sure']:
            return self.rep(eng, st, 'retires the static object without excluding others that set it up', inst)
        if not const(m['now']) or m['now'] == NULL:
            return self.rep(eng, st, 'retires an object that has been set up meanwhile', inst)
        if const(v) and v[1] in [K[x] for x in self.init]:
            return self.rep(eng, st, 'leaves the object usable', inst)
        self.record(eng, st, inst)
        m['z'] = 1
        m['now'] = NULL

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('ends with %s' % (eng.show(v) if v else kind))
        r = v[1]
        if self.mcs(st):
            return R('returns holding the set-up lock')
        if m['ires'] != NULL:
            if v != m['ires']:
                return R('returns %s although setting the object up failed with %s' % (nm(v), nm(m['ires'])))
            return
        if self.case == 'nullobj':
            if r != E['EINVAL']:
                return R('returns %s for an object that does not exist' % nm(v))
            return
        if self.op == 'destroy':
            if (r == 0) != bool(m['z']):
                return R('returns %s although the static object was %s' % (nm(v), 'retired' if m['z'] else 'not retired'))
            if r not in (0, E['EBUSY'], E['EINVAL']):
                return R('refuses with %s' % nm(v))
            if r != 0 and const(m['now']) and m['now'] != NULL:
                return R('refuses to retire a static object that nobody has set up')
            return
        if self.op in ('unlock', 'signal', 'broadcast', 'consistent'):
            if self.op in ('signal', 'broadcast') and r != 0 and m['now'] != NULL:
                return R('returns %s for a condition variable nobody waits on' % nm(v))
            if self.op == 'unlock' and self.typ == 'spin' and r == 0 and not m.get('used'):
                return R('reports success for unlocking a lock that was never locked')
            if self.op == 'consistent' and r != E['EINVAL']:
                return R('returns %s for a mutex that is not robust' % nm(v))
            return
        # acquiring operations must end up using the object, or find it retired
        if m['now'] != NULL or r == 0:
            return R('returns %s without having set the object up' % nm(v))
        if r != E['EINVAL']:
            return R('returns %s for a retired object' % nm(v))


def locks_agree(P, tier):
    """all entry points of one type exclude each other through one lock"""
    reps = []
    for (fl, typ), d in sorted(LOCKS.items()):
        L = sorted(d.items(), key=lambda x: sorted(x[0]))
        for b, (wb, eb) in L[1:]:
            a, (wa, ea) = L[0]
            if not (a & b):
                reps.append({'prop': ('L01',), 'entry': eb, 'case': '', 'flavour': fl, 'function': eb, 'where': wb, 'path': [],
                             'msg': 'static %s objects are set up or retired under %s here but under %s in %s' % (typ, ', '.join(x[2:] for x in b), ', '.join(x[2:] for x in a), ea)})
    return reps, [{'entry': 'set-up locks', 'functions': [], 'obligations': len(LOCKS),
                   'rule_sites': ['%s %s: %s' % (a, b, '; '.join(sorted(', '.join(sorted(x)) for x in d))) for (a, b), d in sorted(LOCKS.items())]}]


OPS = {'mutex': ('lock', 'trylock', 'timedlock', 'unlock', 'destroy', 'consistent'), 'cond': ('wait', 'timedwait', 'signal', 'broadcast', 'destroy'),
       'rwlock': ('rdlock', 'wrlock', 'tryrdlock', 'trywrlock', 'timedrdlock', 'timedwrlock', 'unlock', 'destroy'), 'spin': ('lock', 'trylock', 'unlock', 'destroy')}
JOBS = []
for _t, _ops in OPS.items():
    for _o in _ops:
        _i = Static(_t, _o, '').init
        for _c in _i + ('nullobj',):
            JOBS.append({'kind': 'engine', 'props': ('L01',), 'entry': 'pthread_%s_%s' % (_t, _o), 'case': _c, 'assumes': ('internal queue locks give mutual exclusion (property P01)',),
                         'make': (lambda t=_t, o=_o, c=_c: _mk(t, o, c))})


def _mk(t, o, c):
    a = Static(t, o, c)
    a.noexit = True
    return a


JOBS.append({'kind': 'fn', 'props': ('L01',), 'name': 'set-up locks agree', 'run': locks_agree})
