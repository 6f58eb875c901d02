"""Missing arguments and variables that name no object (property E01)."""
from ..engine import NULL, INF, STOP
from ..contract import nm
from ..comp import Comp
from ..common import E, K, const, ename

ASSUME = ('an argument that is present points to memory of its type',)
JOBS = []


class Refuse(Comp):
    """bad: argument index -> 'null' (the argument itself) or the value held by the variable it points to; the call must be refused"""
    PROPS = ('E01',)

    def __init__(self, case, bad, want, errno=None):
        super().__init__(case)
        self.bad, self.want, self.er = bad, want, errno

    def setup(self, eng, st, args):
        st.mon.update({'slot': (), 'acts': 0, 'canc': 0})
        for i, a in enumerate(args):
            b = self.bad.get(i)
            if b == 'null':
                eng.substitute(st, a[0], NULL)
                continue
            if a[0] is not None and i not in getattr(self, 'plain', ()):
                st.facts[a[0]] = (65536, INF, frozenset())
            if b is not None:
                st.mem[a] = ((None, b), 8)
                st.mon['slot'] += (('K', a, (None, b)),)

    def stable(self, *a):
        return True

    private = stable

    def cancelled(self, eng, st, inst):
        st.mon['canc'] = 1

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is None and addr[0] is None and addr[1] is not None and -4 <= addr[1] < 65536:
            self.rep(eng, st, '%s through something that is not an object' % how, inst)
            return STOP
        return r

    def p_any(self, eng, st, op, o, args, inst):
        if op.startswith('mutex_') and o != NULL and st.mem.get(o, (None, 0))[0] == NULL:
            return [(st, 'EINVAL')]         # what that operation answers itself
        return self.rep(eng, st, '%s although an argument is missing' % op, inst) or []

    def on_exit(self, eng, st, kind, v, inst):
        R = lambda msg: self.rep(eng, st, msg, inst)
        m = st.mon
        if kind != 'return':
            return None if m['canc'] else R('does not return')
        if not const(v) or v[1] not in self.want:
            return R('returns %s, not %s' % (nm(v), ' or '.join(nm(w) for w in self.want)))
        if self.er is not None and self.errno(st) != (None, self.er):
            return R('does not set errno to %s' % ename((None, self.er)))
        if m['live']:
            return R('leaks what it allocated')
        for _, a, b in m['slot']:
            if a in st.mem and st.mem[a][0] != b:
                return R('changes the caller\'s variable')


def job(entry, case, bad, want, errno=None):
    want = tuple(E[w] if isinstance(w, str) else w for w in ([want] if isinstance(want, (str, int)) else want))
    JOBS.append({'kind': 'engine', 'props': ('E01',), 'entry': entry, 'case': case, 'min_sites': 0, 'assumes': ASSUME,
                 'make': lambda: Refuse(case, bad, want, errno and E[errno])})


def obj(entry, want='EINVAL', errno=None, gone=True):
    job(entry, 'no object', {0: 'null'}, want, errno)
    if gone:
        job(entry, 'destroyed object', {0: 0}, want, errno)


def arg(entry, i, want='EINVAL', errno=None):
    job(entry, 'argument %d missing' % (i + 1), {i: 'null'}, want, errno)


for o, fs in (('cond', 'wait timedwait signal broadcast destroy'), ('rwlock', 'rdlock tryrdlock timedrdlock wrlock trywrlock timedwrlock unlock destroy'),
              ('spin', 'lock trylock unlock destroy'), ('barrier', 'wait destroy'), ('mutexattr', 'destroy'), ('condattr', 'destroy'), ('rwlockattr', 'destroy'),
              ('barrierattr', 'destroy'), ('attr', 'destroy')):
    for f in fs.split():
        obj('pthread_%s_%s' % (o, f))
for o in ('attr', 'mutex', 'cond', 'rwlock', 'spin', 'barrier'):
    obj('pthread_%s_init' % o, gone=False)
for f in 'lock trylock timedlock unlock consistent destroy'.split():
    job('pthread_mutex_' + f, 'destroyed object', {0: 0}, 'EINVAL')
for o, gs, ss in (('attr', 'affinity_np detachstate inheritsched name_np schedparam schedpolicy scope stacksize', None), ('mutexattr', 'pshared robust type', None),
                  ('condattr', 'pshared', None), ('rwlockattr', 'pshared', None), ('barrierattr', 'pshared', None)):
    for f in gs.split():
        obj('pthread_%s_get%s' % (o, f))
        obj('pthread_%s_set%s' % (o, f))
        if f not in ('stacksize',):
            arg('pthread_%s_get%s' % (o, f), 2 if f == 'affinity_np' else 1)
arg('pthread_attr_setschedparam', 1)
arg('pthread_attr_setaffinity_np', 2)
for i in (0, 1):
    arg('pthread_once', i)
arg('pthread_barrier_init', 2)
for f in ('setspecific', 'key_delete'):
    arg('pthread_' + f, 0)
arg('pthread_getspecific', 0, 0)
arg('pthread_delay_np', 0)
for f in ('getaffinity_np', 'setaffinity_np'):
    arg('pthread_' + f, 2, ('EFAULT', 'ESRCH'))
for f in ('sched_setaffinity', 'sched_getaffinity'):
    arg(f, 2, -1, 'EFAULT')
arg('pthread_setschedparam', 2, ('EINVAL', 'ESRCH'))
arg('pthread_getschedparam', 1, ('EINVAL', 'ESRCH'))
for f in ('sem_destroy', 'sem_timedwait'):
    obj(f, -1, 'EINVAL')
