"""Composite objects: analyses of code built on top of mutexes, semaphores and condition variables, whose own
contracts (decided by their own properties) are used as models here."""
from .engine import NULL, INF, THROW, STOP, AnalysisBroken
from .contract import Contract, nm
from .common import E, K, const, field, peek

PRIMS = ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
         'sem_wait', 'ptw32_semwait', 'sem_trywait', 'sem_timedwait', 'sem_post', 'sem_post_multiple', 'sem_init', 'sem_destroy', 'sem_getvalue',
         'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_init', 'pthread_cond_destroy')


# attempts: the error of an attempt that fails, and the waiting operations it stands for
POLL = {'mutex_trylock': ('EBUSY', 'mutex_lock'), 'mutex_timedlock': ('ETIMEDOUT', 'mutex_lock'), 'sem_trywait': ('EAGAIN', 'semwait', 'sem_wait'),
        'sem_timedwait': ('ETIMEDOUT', 'sem_wait')}


class Comp(Contract):
    """Subclasses implement p_<primitive>(eng, st, obj, args, inst) -> outcomes [(state, result)]; result 'E<name>' means failure
    with that error (-1 and errno for semaphores), 0 success, THROW cancellation."""

    def models(self):
        m = super().models()
        for n in PRIMS:
            m[n] = self.m_prim
        m['ptw32_processInitialize'] = self.m_pinit
        m['pthread_testcancel'] = self.m_testcancel
        return m

    def m_pinit(self, eng, st, inst, args, name, cv):
        return [(st, (None, 1))]

    def m_testcancel(self, eng, st, inst, args, name, cv):
        t = st.fork()
        t.note('%s: a pending cancellation is acted on' % eng.where(inst))
        self.cancelled(eng, t, inst)
        return [(t, THROW), (st, None)]

    def cancelled(self, eng, st, inst):
        pass

    def m_prim(self, eng, st, inst, args, name, cv):
        op = name.replace('pthread_', '').replace('ptw32_', '')
        h = getattr(self, 'p_' + op, None) or self.p_any
        self.sites.add((eng.where(inst), '%s(%s)' % (op, self.oname(eng, args[0]))))
        outs = h(eng, st, op, args[0], args, inst)
        if outs is None:
            outs = [(st, 0)]
        res = []
        for s, r in outs:
            if s.mon.get('!stop'):
                continue
            if r is THROW or r is STOP:
                res.append((s, r))
                continue
            code = 0
            if isinstance(r, str):
                code = E[r]
            elif isinstance(r, int):
                code = r
            s.note('%s: %s(%s) -> %s' % (eng.where(inst), name, self.oname(eng, args[0]), r if isinstance(r, str) else 'success' if code == 0 else code))
            if name.startswith('sem') or name == 'ptw32_semwait':
                if code:
                    s.mem[('g:errno', 0)] = ((None, code), 4)
                    res.append((s, (None, -1)))
                else:
                    res.append((s, NULL))
            else:
                res.append((s, (None, code)))
        return res

    def p_any(self, eng, st, op, obj, args, inst):
        if eng.undefined(obj):
            eng.flaw(st, '%s on a variable that has not been set' % op, inst)
            return []
        if obj == NULL:
            return self.rep(eng, st, '%s on a null pointer' % op, inst) or []
        own = [n for n, a in vars(self).items() if (n[:2] == 'A_' or n == 'MX') and a == obj]
        if own and op in POLL:
            h = next((getattr(self, 'p_' + b) for b in POLL[op][1:] if hasattr(self, 'p_' + b)), None)
            if h:
                # an attempt that may end without the lock: what must wait must not leave it at that
                t = st.fork()
                t.mon['gaveup'] = E[POLL[op][0]]
                st.mon['gaveup'] = 0
                b = next(b for b in POLL[op][1:] if hasattr(self, 'p_' + b))
                outs = h(eng, st, b, obj, args, inst)
                return [(t, POLL[op][0])] + ([(st, 0)] if outs is None else [x for x in outs if x[1] == 0 or x[1] is THROW])
        if own and op != 'sem_getvalue':
            # a part of the object under analysis, used in a way that its protocol has no place for
            return self.rep(eng, st, '%s on %s: the protocol has no such step' % (op, self.oname(eng, obj)), inst) or []
        raise AnalysisBroken('%s on %s is not covered by the rule for %s' % (op, eng.showaddr(obj), eng.root.name))

    def gave_up(self, eng, st, kind, v, inst):
        g = st.mon.get('gaveup')
        if not g or kind != 'return':
            return False
        if v == (None, g) or v == (None, -1) and peek(st, ('g:errno', 0)) == (None, g):
            self.rep(eng, st, 'gives up with %s where it has to wait' % nm(g), inst, getattr(self, 'ACC', None))
            return True
        return False

    def oname(self, eng, a):
        l = eng.label(a)
        return l[1] if l else eng.show(a)

    # ---- held sub-locks: mon['sub'] is a tuple of ('S', name)
    def subs(self, st):
        return tuple(x[1] for x in st.mon.get('sub', ()))

    def take(self, st, name):
        st.mon['sub'] = st.mon.get('sub', ()) + (('S', name),)

    def give(self, st, name):
        l = list(st.mon.get('sub', ()))
        if ('S', name) in l:
            l.remove(('S', name))
            st.mon['sub'] = tuple(l)
            return True
        return False
