"""Spin locks (F*), barriers (B*) and one-time initialisation (O01)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from ..comp import Comp

SP = 'pthread_spinlock_t_'
BA = 'pthread_barrier_t_'


# ------------------------------------------------------------------ spin locks
class Spin(Comp):
    fail_setevent = False

    def __init__(self, op, mode):
        super().__init__(mode)
        self.op, self.mode = op, mode
        self.PROPS = ('F01',) if op in ('lock', 'trylock', 'unlock') else ('F02',)

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'acq': 0, 'rel': 0, 'seen': (), 'mx': 0, 'dead': 0, 'n': 0})
        self.A = args[0]
        if self.mode == 'null':
            eng.substitute(st, args[0][0], NULL)
            return
        st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        if self.mode == 'nullobj':
            st.mem[self.A] = (NULL, 8)
            return
        s = self.s = self.ptr(eng, st, 's')
        st.mem[self.A] = (s, 8)
        self.I = field(eng, s, SP, 'interlock')
        self.M = eng.addoff(s, 8) if eng.p.field_off(SP, 'u') is None else field(eng, s, SP, 'u')
        m['keep'] = ('K', s, self.A)
        if self.mode == 'mutex':
            st.mem[self.I] = ((None, K['PTW32_SPIN_USE_MUTEX']), 4)

    def stable(self, eng, st, addr, lab):
        return addr == self.A or (self.mode == 'mutex' and addr == getattr(self, 'I', None))

    def vals(self, st):
        m = st.mon
        if self.mode == 'mutex':
            return [K['PTW32_SPIN_USE_MUTEX']]
        if m['acq'] and not m['rel']:
            return [K['PTW32_SPIN_LOCKED']]
        return [K['PTW32_SPIN_UNLOCKED'], K['PTW32_SPIN_LOCKED']]

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if st.mon.get('rel') and not st.mon.get('acq') and addr == getattr(self, 'I', 0) and self.op == 'unlock':
            self.rep(eng, st, '%s of the spin lock after releasing it' % how, inst)
            return STOP

    def load_forks(self, eng, st, addr, lab, inst):
        if addr != getattr(self, 'I', None):
            return None
        out = []
        vs = self.vals(st)
        for i, v in enumerate(vs):
            t = st if i == len(vs) - 1 else st.fork()
            t.note('%s: the lock word reads %d' % (eng.where(inst), v))
            self.observe(t, v)
            out.append((t, (None, v)))
        return out

    def observe(self, st, v):
        m = st.mon
        if not m['acq'] and v == K['PTW32_SPIN_LOCKED']:
            m['seen'] = (('s', 'locked'),)

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        if addr == getattr(self, 'I', None):
            return self.vals(st)

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == getattr(self, 'I', None):
            # a plain store is an acceptable release by the holder, never an acquisition
            if self.op == 'unlock' and v == (None, K['PTW32_SPIN_UNLOCKED']) and self.mode == 'spin':
                st.mon['rel'] = 1
                return
            self.rep(eng, st, 'changes the lock word without an atomic exchange', inst)
        elif addr == getattr(self, 'A', None):
            if self.op == 'destroy':
                if v == getattr(self, 's', None):
                    return self.rep(eng, st, 'leaves the destroyed lock in place', inst)
                st.mon['dead'] = 1
            else:
                self.rep(eng, st, 'replaces the caller\'s lock', inst)

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        if addr != getattr(self, 'I', None):
            return
        m = st.mon
        self.sites.add((eng.where(inst), 'lock word ' + kind))
        U, L = (None, K['PTW32_SPIN_UNLOCKED']), (None, K['PTW32_SPIN_LOCKED'])
        self.observe(st, old[1])
        if kind in ('cas-fail', 'aload'):
            if self.op == 'trylock' and old == L:
                m['n'] += 1
                if m['n'] > 4:
                    return self.rep(eng, st, 'a try-lock spins', inst)
            return
        if old == val:
            return
        if self.mode == 'mutex':
            return self.rep(eng, st, 'changes the lock word of a lock that uses a mutex', inst)
        if self.op in ('lock', 'trylock'):
            if old == U and val == L and not m['acq']:
                m['acq'] = 1
                return
        elif self.op == 'unlock':
            if old == L and val == U:
                m['rel'] = 1
                return
            if old == U:
                return self.rep(eng, st, 'locks a lock that is free', inst)
        elif self.op == 'destroy':
            if old == U and val not in (U, L):
                m['dead'] = 1
                return
            if old == L:
                return self.rep(eng, st, 'destroys a lock that is held', inst)
        return self.rep(eng, st, 'changes the lock word from %s to %s' % (eng.show(old), eng.show(val)), inst)

    def p_any(self, eng, st, op, obj, args, inst):
        if self.mode != 'mutex' or obj != self.M:
            self.rep(eng, st, '%s on something that is not the lock\'s mutex' % op, inst)
            return []
        m = st.mon
        if m['mx']:
            self.rep(eng, st, 'a second operation on the lock\'s mutex', inst)
            return []
        want = {'lock': 'mutex_lock', 'trylock': 'mutex_trylock', 'unlock': 'mutex_unlock', 'destroy': 'mutex_destroy'}[self.op]
        if op != want:
            self.rep(eng, st, '%s on the lock\'s mutex where %s is due' % (op, want), inst)
            return []
        outs = []
        for r in {'mutex_lock': ('EINVAL', 'ENOMEM', 0), 'mutex_trylock': ('EBUSY', 'EINVAL', 0), 'mutex_unlock': ('EPERM', 0), 'mutex_destroy': ('EBUSY', 0)}[op]:
            t = st.fork()
            t.mon['mx'] = 1
            t.mon['mr'] = (None, E[r] if r else 0)
            outs.append((t, r))
        return outs

    def free_foreign(self, eng, st, v, inst):
        super().free_foreign(eng, st, v, inst)
        if v != getattr(self, 's', None) or self.op != 'destroy' or not (st.mon['dead'] or st.mon.get('mr') == NULL):
            self.rep(eng, st, 'frees a lock that may be in use', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('ends with %s' % (eng.show(v) if v else kind))
        r = v[1]
        if self.mode in ('null', 'nullobj'):
            if r != E['EINVAL']:
                R('returns %s for something that is not a spin lock' % nm(r))
            return
        if self.mode == 'mutex':
            if not m['mx'] or v != m['mr']:
                return R('does not return the result of the underlying mutex')
            if self.op == 'destroy' and (r == 0) != (self.s in m.get('freed', ())):
                return R('destroys the lock only in part' if r == 0 else 'frees a lock it could not destroy')
            if self.op == 'destroy' and r == 0 and peek(st, self.A) == self.s:
                return R('leaves the destroyed lock in place')
            return
        if self.op == 'lock':
            if r != 0 or not m['acq']:
                return R('returns %s %s the lock' % (nm(r), 'holding' if m['acq'] else 'without having acquired'))
        elif self.op == 'trylock':
            if (r == 0) != bool(m['acq']):
                return R('returns %s %s the lock' % (nm(r), 'holding' if m['acq'] else 'without having acquired'))
            if r and (r != E['EBUSY'] or not m['seen']):
                return R('refuses with %s a lock it did not find busy' % nm(r))
        elif self.op == 'unlock':
            if r == 0 and not m['rel'] and m['seen']:
                return R('reports success without releasing the lock')
            if r != 0 and m['rel']:
                return R('returns %s after releasing the lock' % nm(r))
            if r != 0 and m['seen']:
                return R('refuses to release a held lock')
        elif self.op == 'destroy':
            fr = self.s in m.get('freed', ())
            if r == 0 and not fr:
                return R('reports success without freeing the lock')
            if r != 0 and (fr or m['dead']):
                return R('returns %s but has destroyed the lock' % nm(r))
            if r == 0 and peek(st, self.A) == self.s:
                return R('leaves the destroyed lock in place')
            if r != 0 and not m['seen']:
                return R('refuses to destroy a lock that is free')


class SpinInit(Comp):
    PROPS = ('F02',)

    def models(self):
        m = super().models()
        m['ptw32_getprocessors'] = self.m_cpus
        m['pthread_mutexattr_init'] = self.m_mai
        m['pthread_mutexattr_destroy'] = self.m_mad
        return m

    def m_cpus(self, eng, st, inst, args, name, cv):
        outs = []
        for c in (1, 2, 0):
            t = st.fork()
            if c:
                t.mem[args[0]] = ((None, c), 4)
                t.mon['cpus'] = c
                t.note('%s: %d processors' % (eng.where(inst), c))
                outs.append((t, NULL))
            else:
                outs.append((t, (None, E['EAGAIN'])))
        return outs

    def m_mai(self, eng, st, inst, args, name, cv):
        t = st.fork()
        self.fail(t, 'mem')
        t.mon['ma'] = 3
        t.mem[args[0]] = (NULL, 8)     # a failing init leaves NULL behind (decided by A01)
        st.mon['ma'] = 1
        o = self.ptr(eng, st, 'ma')
        st.mem[args[0]] = (o, 8)
        st.mon['keep2'] = ('K', o)
        return [(t, (None, E['ENOMEM'])), (st, NULL)]

    def m_mad(self, eng, st, inst, args, name, cv):
        if st.mon.get('ma') == 3:
            return [(st, (None, E['EINVAL']))]
        if st.mon.get('ma') != 1:
            self.rep(eng, st, 'destroys a mutex attributes object that was not created', inst)
            return []
        st.mon['ma'] = 2
        return [(st, NULL)]

    def setup(self, eng, st, args):
        self.A = args[0]
        st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        st.mon.update({'pub': 0, 'mi': 0, 'psh': args[1], 'old': self.ptr(eng, st, 'previous content')})
        st.mem[self.A] = (st.mon['old'], 8)

    def stable(self, eng, st, addr, lab):
        return True

    def p_mutex_init(self, eng, st, op, obj, args, inst):
        outs = []
        at = args[1]
        ma = peek(st, at) if at != NULL else NULL
        ps = eng.load(st, field(eng, ma, 'pthread_mutexattr_t_', 'pshared'), 4, {'id': 'pk', 'loc': None}) if ma and ma != NULL and st.mon.get('ma') == 1 else NULL
        st.mon['told'] = int(ps == st.mon['psh'])
        for r in ('ENOMEM', 0):
            t = st.fork()
            t.mon['mi'] = 2 if r else 1
            t.mon['mo'] = obj
            if r:
                self.fail(t, 'mutex')
            outs.append((t, r))
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('ends with %s' % (eng.show(v) if v else kind))
        cur = peek(st, self.A)
        if m.get('ma') == 1:
            return R('leaks the mutex attributes object')
        if v[1] == 0:
            L = self.live(st)
            o = cur
            if len(L) != 1 or L[0][2] != o:
                return R('reports success without handing over the lock (or leaks)')
            w = eng.load(st, field(eng, o, SP, 'interlock'), 4, {'id': 'pk', 'loc': None})
            if w == (None, K['PTW32_SPIN_USE_MUTEX']):
                if m['mi'] != 1 or m['mo'] != (field(eng, o, SP, 'u') if eng.p.field_off(SP, 'u') is not None else eng.addoff(o, 8)):
                    return R('the new lock relies on a mutex that was not created')
            elif w != (None, K['PTW32_SPIN_UNLOCKED']):
                return R('the new lock does not start free')
            if w == (None, K['PTW32_SPIN_UNLOCKED']) and m.get('cpus', 1) == 1:
                return R('a lock that spins on a single processor')
            # a lock that relies on a mutex leaves it to the mutex to refuse, if it passes the request on
            if not (m['mi'] == 1 and m.get('told')) and eng.decide(st, 'eq', m['psh'], (None, K['PTHREAD_PROCESS_SHARED'])) is not False:
                return R('a process-shared lock is not refused')
            return
        if self.live(st):
            return R('fails and leaks the new lock')
        if cur in m.get('gone', ()):
            return R('fails and hands out a freed lock')
        if not m['failed'] and eng.decide(st, 'eq', m['psh'], (None, K['PTHREAD_PROCESS_SHARED'])) is not True:
            return R('returns %s although nothing failed' % nm(v))
        if m['mi'] == 1:
            return R('fails and leaks the mutex')


# ------------------------------------------------------------------ barriers
class BarWait(Comp):
    PROPS = ('B01',)
    passes_locks = True     # the lock travels from the last thread to arrive to the last one to leave

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'inc': 0, 'dec': 0, 'last': 0, 'leave': 0, 'got': 0, 'post': 0, 'gone_b': 0, 'wres': 0})
        self.A = args[0]
        st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        b = self.b = self.ptr(eng, st, 'b')
        st.mem[self.A] = (b, 8)
        n = self.sym(eng, st, 'height', 1, INF)
        self.F = {x: field(eng, b, BA, x) for x in ('nCurrentBarrierHeight', 'nInitialBarrierHeight', 'semBarrierBreeched', 'lock', 'proxynode')}
        st.mem[self.F['nInitialBarrierHeight']] = (n, 4)
        m['nn'] = n
        m['keep'] = ('K', b, self.A, n)

    def stable(self, eng, st, addr, lab):
        return addr in (self.A, self.F['nInitialBarrierHeight'])

    def locked(self, st):
        return any(l == self.F['lock'] for _, l, n in self.mcs(st))

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if st.mon['gone_b'] and (addr == self.A or addr[0] == self.b[0]):
            self.rep(eng, st, '%s of the barrier after having left it (its last user may have destroyed it)' % how, inst)
            return STOP
        if addr == self.F['nCurrentBarrierHeight'] and how != 'atomic' and not self.locked(st):
            self.rep(eng, st, '%s of the arrival count without the barrier lock' % how, inst)
            return STOP

    def on_acquired(self, eng, st, lock, inst):
        if lock != self.F['lock'] or st.mon['dec']:
            return self.rep(eng, st, 'takes the wrong lock (or takes it again)', inst)
        self.sites.add((eng.where(inst), 'arrival'))
        c = eng.sitesym(st, inst, 'arrivals-missing')
        st.mem[self.F['nCurrentBarrierHeight']] = (c, 4)
        eng._mergefact(st.facts, c[0], (1, INF, frozenset()))
        st.rel = st.rel | {('sle', c, st.mon['nn'])}
        st.mon['c0'] = c

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == self.F['nCurrentBarrierHeight']:
            m = st.mon
            d = eng.mkexpr('sub', v, m.get('c0', NULL))
            if d != (None, -1) or m['dec']:
                return self.rep(eng, st, 'the arrival is not counted exactly once', inst)
            m['dec'] = 1
        elif addr[0] == self.b[0] and addr[1] is not None and addr[1] in (eng.p.field_off(BA, 'nInitialBarrierHeight'), eng.p.field_off(BA, 'semBarrierBreeched')):
            self.rep(eng, st, 'changes the barrier itself', inst)

    def m_mcs_release(self, eng, st, inst, args, name, cv):
        m = st.mon
        if m['inc'] and args[0] == self.F['proxynode']:
            # the lock travels from the last thread to arrive to the last one to leave
            if not m.get('early') and not self.passed(st):
                return self.rep(eng, st, 'releases the barrier lock through a node that was never put into its queue', inst) or []
            st.mon['mcs'] = tuple(x for x in self.mcs(st) if x[1] != self.F['lock'])
            self.on_release(eng, st, self.F['lock'], inst)
            return [(st, None)]
        return super().m_mcs_release(eng, st, inst, args, name, cv)

    def on_release(self, eng, st, lock, inst):
        m = st.mon
        if not m['inc']:
            # arrival side
            if not m['dec']:
                return self.rep(eng, st, 'lets go of the barrier before counting itself in', inst)
            c = eng.load(st, self.F['nCurrentBarrierHeight'], 4, {'id': 'pk', 'loc': None})
            if eng.decide(st, 'ne', c, NULL) is not True:
                return self.rep(eng, st, 'the last thread to arrive reopens the barrier for the next round before everyone has left', inst)
            m['early'] = 1
        else:
            if not m['last']:
                return self.rep(eng, st, 'a thread that is not the last to leave reopens the barrier', inst)
            m['reopen'] = 1
            m['gone_b'] = 1

    def p_sem_post_multiple(self, eng, st, op, obj, args, inst):
        m = st.mon
        if obj != self.F['semBarrierBreeched'] or m.get('early') or m['post'] or m['inc']:
            return self.rep(eng, st, 'the barrier is breached by the wrong thread or twice', inst) or []
        d = eng.mkexpr('sub', args[1], m['nn'])
        if d != (None, -1):
            return self.rep(eng, st, 'breaching the barrier does not release exactly all the others', inst) or []
        c = eng.load(st, self.F['nCurrentBarrierHeight'], 4, {'id': 'pk', 'loc': None})
        if eng.decide(st, 'eq', c, NULL) is not True or not m['dec']:
            return self.rep(eng, st, 'the barrier is breached before the last thread has arrived', inst) or []
        if not self.passed(st):
            return self.rep(eng, st, 'the others are let out before the barrier lock is passed on: the last one to leave may release it too early', inst) or []
        m['post'] = 1
        return [(st, 0)]

    def passed(self, st):
        return any(l == self.F['lock'] and n == self.F['proxynode'] for _, l, n in self.mcs(st))

    def p_sem_post(self, eng, st, op, obj, args, inst):
        return self.rep(eng, st, 'breaching the barrier does not release exactly all the others', inst) or []

    def wait(self, eng, st, op, obj, args, inst, canc):
        m = st.mon
        if self.mcs(st):
            return self.rep(eng, st, 'waits for the others while holding the barrier lock', inst) or []
        if obj != self.F['semBarrierBreeched'] or not m.get('early') or m['got'] or m['inc']:
            return self.rep(eng, st, 'a wait that no other thread will end', inst) or []
        outs = []
        if canc:
            t = st.fork()
            t.mon['canc'] = 1
            outs.append((t, THROW))
        m['got'] = 1
        return outs + [(st, 0)]

    def p_semwait(self, *a):
        return self.wait(*a, canc=False)

    def p_sem_wait(self, *a):
        return self.wait(*a, canc=True)

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        if addr != self.F['nCurrentBarrierHeight']:
            return None
        if st.mon['inc']:
            return None
        if self.locked(st) and not st.mon['dec']:
            return [st.mon['c0']]
        n = st.mon['nn']
        if n == (None, 1):
            return [NULL]
        # others that have left; the last one brings it to the full height
        v = eng.sitesym(st, inst, 'left')
        eng._mergefact(st.facts, v[0], (0, INF, frozenset()))
        st.rel = st.rel | {('slt', eng.addoff(v, 1), n), ('slt', v, eng.addoff(n, -1)), ('slt', v, n)}
        return [v, eng.addoff(n, -1)]

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        m = st.mon
        if addr != self.F['nCurrentBarrierHeight']:
            return
        if kind == 'xadd' and self.locked(st) and not m['dec']:
            return self.on_store(eng, st, addr, lab, eng.mkexpr('add', m['c0'], eng.mkexpr('sub', val, old)), inst)
        if kind in ('aload', 'cas-fail'):
            return
        if eng.mkexpr('sub', val, old) != (None, 1) or m['inc']:
            return self.rep(eng, st, 'the departure is not counted exactly once', inst)
        if not (m['got'] or m['post'] or (self.locked(st) and eng.decide(st, 'eq', m['nn'], (None, 1)) is True)):
            return self.rep(eng, st, 'leaves before the last thread has arrived', inst)
        m['inc'] = 1
        self.sites.add((eng.where(inst), 'departure'))
        m['last'] = 1 if val == m['nn'] else 0
        # whoever is not the last to leave may not touch the barrier again: the last one is free to destroy it
        m['gone_b'] = 1 - m['last']

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return':
            return R('a wait that ends by cancellation leaves the barrier short of a thread')
        if not const(v):
            return R('returns %s' % eng.show(v))
        if not m['inc']:
            return R('returns without having passed the barrier')
        if m['post'] and not m.get('reopen') and not any(n == self.F['proxynode'] for _, l, n in self.mcs(st)):
            return R('the barrier lock is not passed on to the last thread to leave')
        if m['last'] != (1 if m.get('reopen') else 0):
            return R('the last thread to leave does not reopen the barrier')
        if m['last'] and v[1] != K['PTHREAD_BARRIER_SERIAL_THREAD']:
            return R('no thread of the round is told to be the serial thread')
        if not m['last'] and v[1] != 0:
            return R('returns %s to a thread that is not the last to leave' % nm(v))


class BarMake(Comp):
    """pthread_barrier_init / pthread_barrier_destroy"""
    PROPS = ('B02',)
    fail_setevent = False

    def __init__(self, op):
        super().__init__()
        self.op = op

    def setup(self, eng, st, args):
        m = st.mon
        self.A = args[0]
        st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        m.update({'sem': 0, 'pub': 0, 'semkill': 0, 'chg': 0, 'busy': 0})
        if self.op == 'init':
            m['cnt'] = args[2]
            m['attr'] = args[1]
            m['old'] = self.ptr(eng, st, 'previous content')
            st.mem[self.A] = (m['old'], 8)
            t, u = st.fork(), st.fork()
            eng.substitute(t, args[1][0], NULL)
            for x in (st, u):
                x.facts[args[1][0]] = (65536, INF, frozenset())
            u.mem[args[1]] = (NULL, 8)
            at, v = self.ptr(eng, st, 'attr'), self.sym(eng, st, 'ps', 0, 1)
            st.mem[args[1]] = (at, 8)
            st.mem[field(eng, at, 'pthread_barrierattr_t_', 'pshared')] = (v, 4)
            st.mon['ps'] = v
            return [st, t, u]
        else:
            b = self.b = self.ptr(eng, st, 'b')
            st.mem[self.A] = (b, 8)
            self.F = {x: field(eng, b, BA, x) for x in ('nCurrentBarrierHeight', 'nInitialBarrierHeight', 'semBarrierBreeched', 'lock', 'proxynode', 'pshared')}
            n = self.sym(eng, st, 'height', 1, INF)
            st.mem[self.F['nInitialBarrierHeight']] = (n, 4)
            m['keep'] = ('K', b, n)
            m['nn'] = n

    def stable(self, eng, st, addr, lab):
        return addr == self.A or addr == getattr(self, 'F', {}).get('nInitialBarrierHeight') or self.op == 'init'

    def held(self, st):
        return any(l == self.F['lock'] for _, l, n in self.mcs(st))

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if self.op == 'destroy' and addr == self.F['nCurrentBarrierHeight'] and not self.held(st):
            self.rep(eng, st, '%s of the arrival count without the barrier lock' % how, inst)
            return STOP

    def on_acquire(self, eng, st, lock, node, inst):
        if self.op == 'destroy' and not self.trying:
            self.rep(eng, st, 'destruction waits for a barrier in use', inst)

    trying = False

    def m_mcs_try(self, *a):
        self.trying = True
        try:
            r = super().m_mcs_try(*a)
        finally:
            self.trying = False
        for t, v in r:
            if v != NULL:
                t.mon['busy'] = 1
        return r

    def on_acquired(self, eng, st, lock, inst):
        if self.op == 'destroy' and lock == self.F['lock']:
            self.sites.add((eng.where(inst), 'try'))
            c = eng.sitesym(st, inst, 'cur')
            eng._mergefact(st.facts, c[0], (1, INF, frozenset()))
            st.rel = st.rel | {('sle', c, st.mon['nn'])}
            st.mem[self.F['nCurrentBarrierHeight']] = (c, 4)
            st.mon['c0'] = c

    def p_sem_init(self, eng, st, op, obj, args, inst):
        if self.op == 'destroy':
            return [(st, 0)]
        outs = []
        st.mon['told'] = args[1]
        for r in ('EPERM', 'ENOMEM', 0):
            t = st.fork()
            if r:
                self.fail(t, 'sem')
            else:
                if args[2] != NULL:
                    self.rep(eng, t, 'the new barrier starts breached', inst)
                t.mon['sem'] = 1
                t.mon['so'] = obj
            outs.append((t, r))
        return outs

    def p_sem_destroy(self, eng, st, op, obj, args, inst):
        m = st.mon
        if self.op == 'init':
            m['sem'] = 0
            return [(st, 0)]
        if obj != self.F['semBarrierBreeched'] or m['semkill']:
            return self.rep(eng, st, 'destroys the wrong semaphore (or destroys it twice)', inst) or []
        if not self.held(st):
            return self.rep(eng, st, 'starts destroying the barrier without its lock', inst) or []
        c = eng.load(st, self.F['nCurrentBarrierHeight'], 4, {'id': 'pk', 'loc': None})
        if eng.decide(st, 'sge', c, m['nn']) is not True and eng.decide(st, 'eq', c, m['nn']) is not True and ('sle', m['nn'], c) not in st.rel                 and ('ule', m['nn'], c) not in st.rel:
            return self.rep(eng, st, 'destroys a barrier that threads are waiting at', inst) or []
        t = st.fork()
        self.fail(t, 'sem')
        m['semkill'] = 1
        return [(t, 'EBUSY'), (st, 0)]

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == self.A:
            st.mon['pub'] = 1
        elif self.op == 'destroy' and addr[0] == self.b[0] and addr in (self.F['nCurrentBarrierHeight'], self.F['nInitialBarrierHeight']):
            self.rep(eng, st, 'changes the heights of the barrier', inst)

    def free_foreign(self, eng, st, v, inst):
        super().free_foreign(eng, st, v, inst)
        if self.op != 'destroy' or v != self.b or not st.mon['semkill']:
            self.rep(eng, st, 'frees a barrier that may be in use', inst)
        elif self.held(st):
            self.rep(eng, st, 'frees the barrier while its lock is held', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('ends with %s' % (eng.show(v) if v else kind))
        if self.mcs(st):
            return R('returns holding the barrier lock')
        cur = peek(st, self.A)
        if self.op == 'init':
            if v[1] == 0:
                if eng.decide(st, 'ne', m['cnt'], NULL) is not True:
                    return R('accepts a barrier for no threads')
                # refusing to share may be left to the semaphore, if the request is passed on
                if 'ps' in m and m['told'] != m['ps'] and eng.decide(st, 'eq', m['ps'], (None, K['PTHREAD_PROCESS_SHARED'])) is not False:
                    return R('a process-shared barrier is not refused')
                if 'ps' not in m and m['told'] != NULL:
                    return R('a barrier without attributes is treated as process-shared')
                L = self.live(st)
                if len(L) != 1 or L[0][2] != cur:
                    return R('reports success without handing over the barrier (or leaks)')
                if m['sem'] != 1 or m['so'] != field(eng, cur, BA, 'semBarrierBreeched'):
                    return R('the new barrier has no semaphore')
                for f in ('nCurrentBarrierHeight', 'nInitialBarrierHeight'):
                    if self.val(eng, st, cur, BA, f, 4) != m['cnt']:
                        return R('the new barrier is not for the requested number of threads (%s)' % f)
                if self.val(eng, st, cur, BA, 'lock', 8) != NULL:
                    return R('the new barrier starts locked')
                return
            if m['pub']:
                return R('fails but has overwritten the caller\'s barrier')
            if self.live(st):
                return R('fails and leaks the new barrier')
            if m['sem']:
                return R('fails and leaks the semaphore')
            shared = 'ps' in m and eng.decide(st, 'eq', m['ps'], (None, K['PTHREAD_PROCESS_SHARED'])) is True
            if not m['failed'] and not shared and eng.decide(st, 'eq', m['cnt'], NULL) is not True:
                return R('returns %s although nothing failed' % nm(v))
            if not m['failed'] and not shared and v[1] != E['EINVAL']:
                return R('returns %s for an invalid argument' % nm(v))
            return
        fr = self.b in m.get('freed', ())
        if v[1] == 0:
            if not (m['semkill'] and fr):
                return R('reports success without having released the barrier')
            if cur == self.b:
                return R('leaves the destroyed barrier in place')
        else:
            if m['semkill'] or fr or m['pub'] and cur != self.b:
                return R('returns %s but has destroyed the barrier' % nm(v))
            if v[1] != E['EBUSY']:
                return R('refuses with %s' % nm(v))
            c = m.get('c0')
            if c is not None and not m['failed'] and not any((p, c, m['nn']) in st.rel or eng.decide(st, p, c, m['nn']) is True for p in ('slt', 'ult', 'ne')) and ('ne', m['nn'], c) not in st.rel:
                return R('refuses to destroy a barrier nobody is waiting at')
            if c is None and not m['busy']:
                return R('refuses to destroy a barrier without having found it in use')


class BarBad(Comp):
    """wait / destroy on something that is not a barrier"""

    def __init__(self, op, mode):
        super().__init__(mode)
        self.op, self.mode = op, mode
        self.PROPS = ('B01',) if op == 'wait' else ('B02',)

    def setup(self, eng, st, args):
        self.A = args[0]
        if self.mode == 'null':
            eng.substitute(st, args[0][0], NULL)
        else:
            st.facts[self.A[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            st.mem[self.A] = (NULL, 8)

    def stable(self, eng, st, addr, lab):
        return True

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == getattr(self, 'A', None):
            self.rep(eng, st, 'writes to something that is not a barrier', inst)

    def on_exit(self, eng, st, kind, v, inst):
        if kind != 'return' or v != (None, E['EINVAL']):
            self.rep(eng, st, 'returns %s for something that is not a barrier' % (nm(v) if v else kind), inst)



# ------------------------------------------------------------------ once
class Once(Comp):
    PROPS = ('O01',)

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'run': 0, 'done': 0, 'seen': 0, 'thr': 0, 'rd': 0})
        self.O, self.rt = args[0], args[1]
        st.facts[self.O[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        st.facts[self.rt[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        self.D = field(eng, self.O, 'pthread_once_t_', 'done')
        self.L = field(eng, self.O, 'pthread_once_t_', 'lock')
        m['keep'] = ('K', self.O, self.rt)

    def models(self):
        m = super().models()
        m['*indirect'] = self.m_run
        return m

    def locked(self, st):
        return any(l == self.L for _, l, n in self.mcs(st))

    def m_run(self, eng, st, inst, args, name, cv):
        m = st.mon
        if cv != self.rt:
            return self.rep(eng, st, 'runs %s instead of the routine it was given' % eng.show(cv), inst) or []
        self.sites.add((eng.where(inst), 'routine'))
        if not self.locked(st):
            return self.rep(eng, st, 'the routine is run without excluding other callers', inst) or []
        if not m['rd']:
            return self.rep(eng, st, 'the routine is run without checking, under the lock, that it has not been run', inst) or []
        if m['run']:
            return self.rep(eng, st, 'the routine is run twice', inst) or []
        if m['done']:
            return self.rep(eng, st, 'the routine is marked as done before it has been run', inst) or []
        m['run'] = 1
        t = st.fork()
        t.mon['thr'] = 1
        t.note('%s: the routine is cancelled' % eng.where(inst))
        st.note('%s: the routine returns' % eng.where(inst))
        m['run'] = 2
        return [(t, THROW), (st, None)]

    def stable(self, eng, st, addr, lab):
        return False

    def vals(self, st):
        m = st.mon
        if m['done'] or m['seen']:
            return [1]
        if self.locked(st) and m['rd']:
            return [0]
        return [0, 1]

    def load_forks(self, eng, st, addr, lab, inst):
        if addr != self.D:
            return None
        out = []
        for v in self.vals(st):
            t = st.fork()
            self.obs(t, v)
            t.note('%s: done reads %d' % (eng.where(inst), v))
            out.append((t, (None, v)))
        return out

    def obs(self, st, v):
        if v:
            st.mon['seen'] = 1
        elif self.locked(st):
            st.mon['rd'] = 1

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        if addr == self.D:
            return self.vals(st)

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        if addr != self.D:
            return
        self.obs(st, old[1])
        if kind in ('aload', 'cas-fail') or val == old:
            return
        self.on_store(eng, st, addr, lab, val, inst)

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr != self.D:
            return
        m = st.mon
        if eng.decide(st, 'ne', v, NULL) is not True:
            return self.rep(eng, st, 'marks the routine as not done', inst)
        if m['run'] != 2:
            return self.rep(eng, st, 'marks the routine as done although it has not completed', inst)
        if not self.locked(st):
            return self.rep(eng, st, 'marks the routine as done after letting other callers in', inst)
        m['done'] = 1

    def on_release(self, eng, st, lock, inst):
        if st.mon['run'] == 2 and not st.mon['done']:
            self.rep(eng, st, 'lets other callers in before the completed routine is marked as done', inst)
        if st.mon['run'] == 1 and not st.mon['thr']:
            self.rep(eng, st, 'lets other callers in while the routine runs', inst)

    def on_released(self, eng, st, lock, inst):
        st.mon['rd'] = 0

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('the lock stays held when the routine is cancelled' if kind != 'return' else 'returns holding the lock')
        if kind != 'return':
            if m['done']:
                return R('a cancelled routine is marked as done')
            return
        if v != NULL:
            return R('returns %s for valid arguments' % nm(v))
        if not (m['seen'] or m['done']):
            return R('returns before the routine has completed')


class OnceBad(Comp):
    """pthread_once without a control block or without a routine"""
    PROPS = ('O01',)

    def setup(self, eng, st, args):
        for i, c in enumerate(('no control', 'no routine')):
            if c == self.case:
                eng.substitute(st, args[i][0], NULL)
            else:
                st.facts[args[i][0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        self.O = args[0]

    def models(self):
        m = super().models()
        m['*indirect'] = lambda eng, st, inst, args, name, cv: self.rep(eng, st, 'runs a routine without %s' % self.case.split()[1], inst) or []
        return m

    def stable(self, eng, st, addr, lab):
        return False

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr[0] == self.O[0] and 'done' in eng.showaddr(addr):
            self.rep(eng, st, 'marks the control as done', inst)

    def on_exit(self, eng, st, kind, v, inst):
        if kind != 'return' or v != (None, E['EINVAL']):
            self.rep(eng, st, 'returns %s with %s' % (nm(v) if v else kind, self.case), inst)


ASSUME = ('internal queue locks give mutual exclusion (property P01)', 'callers use a destroyed object no further')
JOBS = []
for _o in ('lock', 'trylock', 'unlock', 'destroy'):
    for _m in ('spin', 'mutex', 'null', 'nullobj'):
        JOBS.append({'kind': 'engine', 'props': ('F02',) if _o == 'destroy' else ('F01',), 'entry': 'pthread_spin_' + _o, 'case': _m, 'min_sites': 1 if _m == 'spin' or _m == 'mutex' else 0,
                     'assumes': ASSUME, 'make': (lambda o=_o, m=_m: Spin(o, m))})
JOBS.append({'kind': 'engine', 'props': ('F02',), 'entry': 'pthread_spin_init', 'case': '', 'min_sites': 1, 'assumes': ASSUME, 'make': SpinInit})
JOBS.append({'kind': 'engine', 'props': ('B01',), 'entry': 'pthread_barrier_wait', 'case': '', 'min_sites': 3, 'assumes': ASSUME, 'make': BarWait})
for _o in ('init', 'destroy'):
    JOBS.append({'kind': 'engine', 'props': ('B02',), 'entry': 'pthread_barrier_' + _o, 'case': _o, 'min_sites': 1, 'assumes': ASSUME, 'make': (lambda o=_o: BarMake(o))})
for _o in ('wait', 'destroy'):
    for _m in ('null', 'nullobj'):
        JOBS.append({'kind': 'engine', 'props': ('B01',) if _o == 'wait' else ('B02',), 'entry': 'pthread_barrier_' + _o, 'case': _m, 'min_sites': 0, 'assumes': ASSUME, 'make': (lambda o=_o, m=_m: BarBad(o, m))})
JOBS.append({'kind': 'engine', 'props': ('O01',), 'entry': 'pthread_once', 'case': '', 'min_sites': 1, 'assumes': ASSUME, 'make': Once})
for _m in ('no control', 'no routine'):
    JOBS.append({'kind': 'engine', 'props': ('O01',), 'entry': 'pthread_once', 'case': _m, 'min_sites': 0, 'assumes': ASSUME, 'make': (lambda m=_m: OnceBad(m))})
