"""Cancellation: posting a request, acting on it, cancelable waits, cleanup handlers, killing (I*, K*)."""
from ..engine import Engine, NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm

TH = 'ptw32_thread_t_'
CU = 'ptw32_cleanup_t'


class Thr(Contract):
    """Analyses of calls on a thread record.  self.tp is the record, self.F its fields."""
    FIELDS = ('state', 'cancelState', 'cancelType', 'cancelEvent', 'threadH', 'exitStatus', 'detachState', 'stateLock', 'threadLock')

    def R(self, eng, st, msg, inst):
        return self.rep(eng, st, msg, inst) or []

    def fields(self, eng, tp):
        self.tp = tp
        self.F = {f: field(eng, tp, TH, f) for f in self.FIELDS}
        h = eng.addoff(tp, eng.p.field_off(TH, 'ptHandle'))
        self.HP, self.HX = h, eng.addoff(h, 8)

    def models(self):
        m = super().models()
        m['ptw32_processInitialize'] = lambda eng, st, inst, args, name, cv: [(st, (None, 1))]
        m['pthread_self'] = self.m_self
        m['pthread_getspecific'] = self.m_getspec
        m['SuspendThread'] = m['ResumeThread'] = self.m_suspend
        m['TerminateThread'] = self.m_terminate
        return m

    def held(self, st, cell):
        return any(l == cell for _, l, n in self.mcs(st))

    def slock(self, st):
        return self.held(st, self.F['stateLock'])

    def rlock(self, st):
        return self.held(st, ('g:ptw32_thread_reuse_lock', 0))

    def set_arg(self, eng, st, a, p, x):
        """the pthread_t argument passed (by copy) at address a"""
        eng.substitute(st, a[0], ('a:arg:thread', 0))
        st.mem[('a:arg:thread', 0)] = (p, 8)
        st.mem[('a:arg:thread', 8)] = (x, 8)

    def handle(self, eng, st, a):
        return peek(st, a), peek(st, eng.addoff(a, 8))

    def m_getspec(self, eng, st, inst, args, name, cv):
        # the caller's own record, if it has one yet
        k = next((g for g in eng.p.globals if g == 'ptw32_selfThreadKey' or (eng.p.globals[g].get('name') or '') == 'ptw32_selfThreadKey'), 'ptw32_selfThreadKey')
        if args[0] != eng.load(st, ('g:' + k, 0), 8, {'id': 'peek', 'loc': None}):
            return self.R(eng, st, 'uses a key that is not that of the thread records', inst)
        t = st.fork()
        t.mon['selfnull'] = t.mon['norec'] = 1
        p = self.self_p(eng)
        eng._mergefact(st.facts, p[0], (-INF, INF, frozenset([0, -1, -2, -3])))
        return [(t, NULL), (st, p)]

    def gave_up(self, eng, st, kind, v, inst):
        if st.mon.get('norec') and kind == 'return' and v is not None and v[0] is None and v[1]:
            self.rep(eng, st, 'fails with %s for a caller that has no thread record yet: it has to be given one' % nm(v), inst)
            return True
        return False

    def m_suspend(self, eng, st, inst, args, name, cv):
        return self.R(eng, st, 'calls %s: stops or starts a thread where that is not called for' % name, inst)

    m_terminate = m_suspend

    def throws(self, eng, fname, exc):
        """does this function always end in the given kind of exit? (analysed on its own)"""
        key = ('throws', fname)
        c = self.__dict__.setdefault('_throws', {})
        if key not in c:
            an = OnlyThrows()
            e = Engine(eng.p, an)
            e.start(eng.p.fns[fname].name)
            e.explore()
            eng.fns_seen |= e.fns_seen
            c[key] = an.seen
        return c[key] == {exc}


class OnlyThrows(Contract):
    def __init__(self):
        super().__init__('')
        self.seen = set()

    def m_throw(self, eng, st, inst, args, name, cv):
        self.seen.add(args[0][1] if const(args[0]) else '?')
        return [(st, THROW)]

    def on_exit(self, eng, st, kind, v, inst):
        if kind == 'return':
            self.seen.add('returns')

    def on_acquire(self, eng, st, lock, node, inst):
        self.seen.add('locks')


class Cancel(Thr):
    """pthread_cancel"""
    PROPS = ('I01',)
    fail_setevent = True
    self_null = False

    def models(self):
        m = super().models()
        m['*indirect'] = self.m_register
        return m

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'pend': 0, 'set': 0, 'susp': 0, 'reg': 0, 'thr': 0, 'selfnull': 0, 'h0': 0})
        p = NULL if self.case == 'null' else self.self_p(eng) if self.case == 'self' else self.ptr(eng, st, 'thread.p')
        x = self.self_x(eng) if self.case == 'self' else self.sym(eng, st, 'thread.x')
        if self.case == 'self':
            eng._mergefact(st.facts, p[0], (-INF, INF, frozenset([0, -1, -2, -3])))
        self.set_arg(eng, st, args[0], p, x)
        if p != NULL:
            self.fields(eng, p)
            sp = self.self_p(eng)
            if self.case != 'self':
                st.rel = st.rel | {('ne', p, sp), ('ne', sp, p)}
        m['p'], m['x'] = p, x
        self.h, self.ev_ = self.sym(eng, st, 'threadH', ex=(0,)), self.sym(eng, st, 'cancelEvent', ex=(0,))
        m['keep'] = ('K', p, x, self.h, self.ev_, self.self_p(eng))

    def m_self(self, eng, st, inst, args, name, cv):
        t = st.fork()
        t.mem[args[0]] = (NULL, 8)
        t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
        t.mon['selfnull'] = 1
        return [(t, None)] + super().m_self(eng, st, inst, args, name, cv) if self.case == 'other' else super().m_self(eng, st, inst, args, name, cv)

    def ok(self, st):
        return st.mon.get('valid') == 1 and st.mon.get('live') != 0

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if self.case == 'null':
            return None
        if addr == self.HX:
            if not self.rlock(st):
                self.rep(eng, st, 'checks the thread handle without holding the lock of the thread records', inst)
                return []
            if 'valid' in m:
                return [(st, m['x'] if m['valid'] else m['other'])]
            self.sites.add((eng.where(inst), 'handle check'))
            t = st.fork()
            o = eng.sitesym(t, inst, 'otherx')
            t.rel = t.rel | {('ne', o, m['x']), ('ne', m['x'], o)}
            t.mon['valid'], t.mon['other'] = 0, o
            t.note('%s: the handle is stale' % eng.where(inst))
            m['valid'] = 1
            return [(t, o), (st, m['x'])]
        if addr == self.F['threadH']:
            if m.get('valid') != 1:
                return None
            if self.rlock(st) and 'alive' not in m and self.case != 'self':
                t = st.fork()
                t.mon['alive'] = 0
                m['alive'] = 1
                return [(t, NULL), (st, self.h)]
            return [(st, NULL if m.get('alive') == 0 else self.h)]
        for f in ('state', 'cancelState', 'cancelType', 'cancelEvent'):
            if addr == self.F[f]:
                if m.get('valid') != 1 or m.get('alive') == 0:
                    self.rep(eng, st, 'looks at a thread record through a handle that is not known to be valid', inst)
                    return []
                if f == 'cancelEvent':
                    return [(st, self.ev_)]
                if not self.slock(st):
                    return [(st, eng.sitesym(st, inst, 'unlocked'))]
                cur = peek(st, addr)
                if cur is not None and 'v_' + f in m:
                    return None
                outs = []
                dom = {'state': [K['PThreadState' + s] for s in ('Initial', 'Running', 'Suspended', 'CancelPending', 'Canceling', 'Exiting', 'Last')],
                       'cancelState': [K['PTHREAD_CANCEL_ENABLE'], K['PTHREAD_CANCEL_DISABLE']],
                       'cancelType': [K['PTHREAD_CANCEL_ASYNCHRONOUS'], K['PTHREAD_CANCEL_DEFERRED']]}[f]
                for i, v in enumerate(dom):
                    s = st if i == len(dom) - 1 else st.fork()
                    s.mon['v_' + f] = v
                    s.mem[addr] = ((None, v), 4)
                    s.note('%s: %s is %d' % (eng.where(inst), f, v))
                    outs.append((s, (None, v)))
                return outs
        return None

    def private(self, eng, st, addr, lab):
        return self.case != 'null' and addr in self.F.values() and self.slock(st)

    def on_deref(self, eng, st, addr, lab, inst, how):
        if self.case != 'null' and addr[0] == st.mon['p'][0] and how == 'store' and not self.slock(st):
            self.rep(eng, st, 'changes the thread record without holding its state lock', inst)
            return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if self.case == 'null':
            return
        if addr in (self.F['state'], self.F['cancelState']):
            self.sites.add((eng.where(inst), 'request recorded'))
            m['w_' + ('state' if addr == self.F['state'] else 'cs')] = v[1] if const(v) else '?'
            self.busy(eng, st, inst)
        elif addr[0] == m['p'][0] and addr not in (self.F['stateLock'], self.F['threadLock']) + self.MAY(self):
            self.rep(eng, st, 'changes something else in the record of the thread', inst)

    MAY = staticmethod(lambda self: ())

    def busy(self, eng, st, inst):
        pass

    def on_acquire(self, eng, st, lock, node, inst):
        m = st.mon
        if m['susp'] == 1:
            self.rep(eng, st, 'waits for a lock while the target is suspended (it may hold it)', inst)
        if self.case != 'null' and lock == self.F['stateLock'] and (m.get('valid') != 1 or m.get('alive') == 0):
            self.rep(eng, st, 'locks a thread record through a handle that is not known to be valid', inst)

    def on_alloc(self, eng, st, v, inst, args):
        super().on_alloc(eng, st, v, inst, args)
        if st.mon['susp'] == 1:
            self.rep(eng, st, 'allocates memory while the target is suspended (it may hold the heap lock)', inst)

    def m_suspend(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != self.h:
            return self.R(eng, st, '%s is not applied to the target' % name, inst)
        if name == 'SuspendThread':
            if m['susp'] or self.case == 'self':
                return self.R(eng, st, 'suspends the target again (or the caller itself)', inst)
            m['susp'] = 1
        else:
            if m['susp'] != 1:
                return self.R(eng, st, 'resumes a target it did not suspend', inst)
            m['susp'] = 2
        return [(st, NULL)]

    def m_wait(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[0] != self.h or args[1] != NULL:
            return self.R(eng, st, 'blocks while cancelling', inst)
        outs = []
        for r, a in ((WAITED, 0), (0x102, 1)):
            s = st.fork()
            s.mon['runs'] = a
            s.note('%s: the target %s' % (eng.where(inst), 'is running' if a else 'has ended'))
            outs.append((s, (None, r)))
        return outs

    def m_register(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'redirect'))
        if m['susp'] != 1 or m.get('runs') != 1:
            return self.R(eng, st, 'redirects a target that is not suspended or not known to be running', inst)
        if len(args) < 2 or args[1] != self.h:
            return self.R(eng, st, 'redirects the wrong thread', inst)
        if not (isinstance(args[0][0], str) and args[0][0].startswith('f:')) or not self.throws(eng, args[0][0][2:], K['PTW32_EPS_CANCEL']):
            return self.R(eng, st, 'redirects the target to something that does not cancel it', inst)
        if m['reg']:
            return self.R(eng, st, 'redirects the target twice', inst)
        m['reg'] = 1
        return [(st, NULL)]

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        if name == 'SetEvent':
            self.sites.add((eng.where(inst), name))
            if args[0] != self.ev_:
                self.rep(eng, st, 'signals something other than the target\'s cancellation event', inst)
            elif not self.slock(st):
                self.rep(eng, st, 'signals the request without holding the state lock (the target may already have acted on it)', inst)
            elif ret == NULL:
                m['set'] = 2
            else:
                m['set'] = 1
        elif name in ('ResetEvent', 'CloseHandle'):
            self.rep(eng, st, '%s on a handle of the target' % name, inst)

    def m_throw(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'throw'))
        if args[0] != (None, K['PTW32_EPS_CANCEL']):
            return self.R(eng, st, 'leaves by something other than cancellation', inst)
        if self.case != 'self':
            return self.R(eng, st, 'cancels the caller instead of the target', inst)
        m['thr'] = 1
        return [(st, THROW)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if m['susp'] == 1:
            return R('leaves the target suspended')
        ws, wc, s0, c0, t0 = m.get('w_state'), m.get('w_cs'), m.get('v_state'), m.get('v_cancelState'), m.get('v_cancelType')
        if kind == 'return' and not const(v):
            return R('returns %s' % eng.show(v))
        acted = ws is not None or wc is not None or m['set'] or m['reg'] or m['thr']
        if self.case == 'null' or m.get('valid') == 0 or m.get('alive') == 0:
            if acted or kind != 'return' or v[1] != E['ESRCH']:
                return R('a handle that is not valid is not simply refused with no-such-thread')
            return
        if m['selfnull'] and not acted and kind == 'return' and v[1] != 0:
            return
        if s0 is None:
            return R('decides without looking at the state of the target under its lock')
        if s0 >= K['PThreadStateCanceling']:
            if acted:
                return R('disturbs a target that is already being cancelled or ending')
            if v[1] != E['ESRCH']:
                return R('reports %s for a target that is already being cancelled or ending' % nm(v))
            return
        A = t0 == K['PTHREAD_CANCEL_ASYNCHRONOUS'] and c0 == K['PTHREAD_CANCEL_ENABLE']
        D = t0 == K['PTHREAD_CANCEL_DEFERRED'] or c0 == K['PTHREAD_CANCEL_DISABLE']
        if not A and not D:
            return R('decides without looking at the cancellation type and state of the target under its lock')
        if A and self.case == 'self':
            if kind != 'unwind' or not m['thr']:
                return R('an asynchronously cancellable caller cancelling itself is not cancelled at once')
            if ws != K['PThreadStateCanceling'] or wc != K['PTHREAD_CANCEL_DISABLE']:
                return R('the cancelled caller is not marked as being cancelled with further cancellation disabled')
            return
        if m['thr'] or kind != 'return':
            return R('a caller that is not asynchronously cancellable is cancelled by pthread_cancel')
        if A:
            if m.get('runs') is None:
                return R('an asynchronously cancellable target is not acted on at once')
            if m['runs'] == 0:
                if acted:
                    return R('redirects (or marks) a target that has ended')
                if v[1] != E['ESRCH']:
                    return R('reports %s for a target that has ended' % nm(v))
                return
            if not m['reg']:
                return R('an asynchronously cancellable target is not redirected')
            if ws != K['PThreadStateCanceling'] or wc != K['PTHREAD_CANCEL_DISABLE']:
                return R('the target is not marked as being cancelled with further cancellation disabled')
            if m['susp'] != 2:
                return R('the target is not resumed')
            if v[1] != 0:
                return R('reports %s although the target was cancelled' % nm(v))
            return
        if m['reg'] or m['susp'] or wc is not None:
            return R('acts at once on a target that is not asynchronously cancellable')
        if s0 == K['PThreadStateCancelPending']:
            if ws not in (None, K['PThreadStateCancelPending']) or v[1] != 0:
                return R('a second request is not simply accepted')
            return
        if ws != K['PThreadStateCancelPending']:
            return R('the request is not recorded')
        if not m['set']:
            return R('the target is not told (its cancellation event is not signalled)')
        if (m['set'] == 1) != (v[1] == 0):
            return R('reports %s although the target %s told' % (nm(v), 'was' if m['set'] == 1 else 'was not'))


WAITED = 0


class Redirect(Thr):
    """the fallback that redirects a suspended thread"""
    PROPS = ('I01',)

    def models(self):
        m = super().models()
        m['GetThreadContext'] = self.m_get
        m['SetThreadContext'] = self.m_set
        return m

    def setup(self, eng, st, args):
        st.mon.update({'got': 0, 'done': 0})
        self.h = args[1]
        st.mon['keep'] = ('K', args[1])

    def m_get(self, eng, st, inst, args, name, cv):
        if args[0] != self.h:
            return self.R(eng, st, 'reads the context of another thread', inst)
        if str(args[1][0]).startswith('g:'):
            return self.R(eng, st, 'two callers at once would use the same context', inst)
        st.mon['got'] = args[1][0]
        self.base = args[1]
        if not self.control(eng, st):
            return self.R(eng, st, 'does not ask for the registers that it is to change', inst)
        fl = eng.addoff(args[1], K['CONTEXT_FLAGS'])
        for k in [k for k in st.mem if k[0] == args[1][0] and k != fl]:
            del st.mem[k]
        return [(st, (None, 1))]

    def control(self, eng, st):
        f = peek(st, eng.addoff(self.base, K['CONTEXT_FLAGS']))
        return f is not None and const(f) and f[1] & K['CONTEXT_CONTROL'] == K['CONTEXT_CONTROL']

    def m_set(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != self.h or args[1][0] != m['got']:
            return self.R(eng, st, 'sets a context that was not read from the same thread', inst)
        if args[1] != self.base or not self.control(eng, st):
            return self.R(eng, st, 'does not set the register that holds the place of execution', inst)
        fns = [v for (b, o), (v, sz) in st.mem.items() if (b, o) == eng.addoff(args[1], K['CONTEXT_RIP']) and isinstance(v[0], str) and v[0].startswith('f:')]
        if len(fns) != 1 or not self.throws(eng, fns[0][0][2:], K['PTW32_EPS_CANCEL']):
            return self.R(eng, st, 'redirects the thread to something that does not cancel it', inst)
        m['done'] = 1
        return [(st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        if not st.mon['done']:
            self.rep(eng, st, 'the thread is not redirected', inst)


class Own(Thr):
    """calls by which a thread acts on a request addressed to itself.  case: <state>/<enabled>/<type>[/extra]"""
    PROPS = ('I02',)
    null_self = True

    def parse(self):
        c = self.case.split('/')
        return c + [''] * (4 - len(c))

    def setup(self, eng, st, args):
        m = st.mon
        s, c, t, x = self.parse()
        m.update({'selfnull': 0, 'thr': 0, 'reset': 0, 'pend': 1 if s == 'pending' else 0})
        p = self.self_p(eng)
        eng._mergefact(st.facts, p[0], (-INF, INF, frozenset([0, -1, -2, -3])))
        self.fields(eng, p)
        F = self.F
        self.s0 = {'running': K['PThreadStateRunning'], 'pending': K['PThreadStateCancelPending'], 'canceling': K['PThreadStateCanceling'], 'exiting': K['PThreadStateExiting']}[s]
        self.c0 = K['PTHREAD_CANCEL_ENABLE'] if c == 'enabled' else K['PTHREAD_CANCEL_DISABLE']
        self.t0 = K['PTHREAD_CANCEL_ASYNCHRONOUS'] if t == 'async' else K['PTHREAD_CANCEL_DEFERRED']
        st.mem[F['state']] = ((None, self.s0), 4)
        st.mem[F['cancelState']] = ((None, self.c0), 4)
        st.mem[F['cancelType']] = ((None, self.t0), 4)
        self.ev_ = self.sym(eng, st, 'cancelEvent', ex=(0,))
        st.mem[F['cancelEvent']] = (self.ev_, 8)
        m['keep'] = ('K', p, self.ev_)
        m['p'] = p

    def stable(self, eng, st, addr, lab):
        return addr in (self.F['cancelState'], self.F['cancelType'], self.F['cancelEvent'], self.F['state'])

    private = stable

    def m_self(self, eng, st, inst, args, name, cv):
        if self.null_self and self.case.startswith('running'):
            t = st.fork()
            t.mem[args[0]] = (NULL, 8)
            t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
            t.mon['selfnull'] = 1
            return [(t, None)] + super().m_self(eng, st, inst, args, name, cv)
        return super().m_self(eng, st, inst, args, name, cv)

    def on_deref(self, eng, st, addr, lab, inst, how):
        m = st.mon
        if how == 'store' and addr[0] == m['p'][0] and not self.slock(st):
            self.rep(eng, st, 'changes its own state without holding the state lock', inst)
            return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_load(self, eng, st, addr, lab, v, inst):
        if addr in (self.F['state'], self.F['cancelState'], self.F['cancelType']):
            self.sites.add((eng.where(inst), 'own state'))

    def m_wait(self, eng, st, inst, args, name, cv):
        if args[0] != self.ev_ or args[1] != NULL:
            return self.R(eng, st, 'blocks', inst)
        return [(st, (None, 0 if st.mon['pend'] else 0x102))]

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if name == 'ResetEvent' and args[0] == self.ev_:
            m['reset'] = 1
        elif name in ('SetEvent', 'CloseHandle') and args[0] == self.ev_:
            self.rep(eng, st, '%s on its own cancellation event' % name, inst)

    def m_throw(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'throw'))
        if args[0] != (None, K['PTW32_EPS_CANCEL']):
            return self.R(eng, st, 'leaves by something other than cancellation', inst)
        if self.mcs(st):
            return self.R(eng, st, 'is cancelled with an internal lock held', inst)
        if peek(st, self.F['state']) != (None, K['PThreadStateCanceling']) or peek(st, self.F['cancelState']) != (None, K['PTHREAD_CANCEL_DISABLE']):
            return self.R(eng, st, 'acts on a request without marking the thread as being cancelled with further cancellation disabled (clean-up handlers could be cancelled)', inst)
        if not m['reset']:
            return self.R(eng, st, 'acts on a request without withdrawing it (the event stays set)', inst)
        m['thr'] = 1
        return [(st, THROW)]

    def same(self, eng, st, *but):
        """nothing but the listed fields changed"""
        for f, o in (('state', self.s0), ('cancelState', self.c0), ('cancelType', self.t0)):
            if f not in but and peek(st, self.F[f]) not in (None, (None, o)):
                return f
        return None


class TestCancel(Own):
    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        must = m['pend'] and self.c0 == K['PTHREAD_CANCEL_ENABLE']
        if m['selfnull']:
            if m['thr']:
                R('a thread without a record is cancelled')
            return
        if must and not m['thr']:
            return R('a pending request to a cancellable thread is not acted on')
        if not must and m['thr']:
            return R('cancels the thread although %s' % ('cancellation is disabled' if m['pend'] else 'no request is pending'))
        if not must and (self.same(eng, st) or m['reset']):
            return R('changes the state of the thread (or withdraws a request) although it is not cancelled')


class SetCancel(Own):
    """pthread_setcancelstate / pthread_setcanceltype; extra: enable, disable / async, deferred / bad"""

    def __init__(self, case, which):
        super().__init__(case)
        self.which = which

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        x = self.parse()[3]
        d = {'enable': 'PTHREAD_CANCEL_ENABLE', 'disable': 'PTHREAD_CANCEL_DISABLE', 'async': 'PTHREAD_CANCEL_ASYNCHRONOUS', 'deferred': 'PTHREAD_CANCEL_DEFERRED'}
        self.new = K[d[x]] if x in d else None
        if self.new is None:
            st.facts[args[0][0]] = (-INF, INF, frozenset([0, 1]))
        else:
            eng.substitute(st, args[0][0], (None, self.new))
        self.old = args[1]
        st.mon['oldp'] = args[1]
        st.mon['w'] = 0
        t = st.fork()
        eng.substitute(t, args[1][0], NULL)
        st.facts[args[1][0]] = (-INF, INF, frozenset([0]))
        return [st, t]

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == st.mon['oldp'] and addr != NULL:
            st.mon['w'] = ('K', v)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if kind == 'return' and not const(v):
            return R('returns %s' % eng.show(v))
        if m['selfnull'] or self.new is None:
            if kind != 'return' or v[1] == 0 or self.same(eng, st) or m['w'] or m['reset']:
                R('a call that cannot be carried out changes something or reports success')
            elif self.new is None and not m['selfnull'] and v[1] != E['EINVAL']:
                R('reports %s for an invalid argument' % nm(v))
            return
        o = self.c0 if self.which == 'cancelState' else self.t0
        if m['oldp'] != NULL and m['w'] != ('K', (None, o)):
            return R('the previous setting is not returned')
        cs = self.new if self.which == 'cancelState' else self.c0
        ct = self.new if self.which == 'cancelType' else self.t0
        must = m['pend'] and cs == K['PTHREAD_CANCEL_ENABLE'] and ct == K['PTHREAD_CANCEL_ASYNCHRONOUS']
        if must != bool(m['thr']):
            return R('a request that became deliverable is not acted on' if must else 'the thread is cancelled by a call that is not a cancellation point')
        if must:
            return
        if v[1] != 0:
            return R('returns %s for a valid setting' % nm(v))
        if peek(st, self.F[self.which]) != (None, self.new):
            return R('the new setting is not made')
        if self.same(eng, st, self.which) or m['reset']:
            return R('changes something else (or withdraws a request)')


class CWait(Own):
    """a cancelable wait; extra: the entry has a timeout argument"""

    def __init__(self, case, timed):
        super().__init__(case)
        self.timed = timed

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        m = st.mon
        self.h = args[0]
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        st.rel = st.rel | {('ne', args[0], self.ev_), ('ne', self.ev_, args[0])}
        self.ms = args[1] if self.timed else (None, -1)
        m['args'] = ('K', self.h, self.ms)
        m['res'] = ''

    def stable(self, eng, st, addr, lab):
        return addr != self.F['state'] and super().stable(eng, st, addr, lab) or st.mon['res'] == 'cancel'

    private = stable

    def waited(self, eng, st, inst, hs, ms):
        m = st.mon
        self.sites.add((eng.where(inst), 'wait'))
        if self.mcs(st):
            return self.R(eng, st, 'blocks with an internal lock held', inst)
        if m['res']:
            return self.R(eng, st, 'waits twice', inst)
        _, h, want = m['args']
        if h not in hs:
            return self.R(eng, st, 'does not wait for the object it was asked to wait for', inst)
        for x in hs:
            if x not in (h, self.ev_):
                return self.R(eng, st, 'waits for %s' % eng.show(x), inst)
        en = self.c0 == K['PTHREAD_CANCEL_ENABLE']
        if not m['selfnull'] and (self.ev_ in hs) != en:
            return self.R(eng, st, 'waits without listening for cancellation requests' if en else 'listens for cancellation requests although cancellation is disabled', inst)
        if ms != want:
            return self.R(eng, st, 'waits for a time other than the one asked for', inst)
        outs = []
        for i, x in enumerate(hs):
            s = st.fork()
            s.mon['res'] = 'object' if x == h else 'cancel'
            s.note('%s: the wait ends: %s' % (eng.where(inst), s.mon['res']))
            if x != h:
                # an event set by a request: the thread is pending (or, in the canceling case, the event is a left-over)
                s.mon['pend'] = 1
                v = self.s0 if self.parse()[0] != 'running' else K['PThreadStateCancelPending']
                s.mem[self.F['state']] = ((None, v), 4)
            outs.append((s, (None, i)))
        for r, n in ((0x102, 'timeout'), (-1, 'failed')):
            if n == 'timeout' and ms == (None, -1):
                continue
            s = st.fork()
            s.mon['res'] = n
            s.note('%s: the wait ends: %s' % (eng.where(inst), n))
            outs.append((s, (None, r)))
        return outs

    def m_wait(self, eng, st, inst, args, name, cv):
        if args[1] == NULL and args[0] == self.ev_:
            return super().m_wait(eng, st, inst, args, name, cv)
        return self.waited(eng, st, inst, [args[0]], args[1])

    def m_waitmulti(self, eng, st, inst, args, name, cv):
        if not const(args[0]) or args[2] != NULL:
            return self.R(eng, st, 'waits for all of its objects (or an unknown number)', inst)
        hs = [peek(st, eng.addoff(args[1], 8 * i)) for i in range(args[0][1])]
        return self.waited(eng, st, inst, hs, args[3])

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if kind == 'return' and not const(v):
            return R('returns %s' % eng.show(v))
        r = m['res']
        if not r:
            return R('returns without waiting')
        if m['thr'] and r != 'cancel':
            return R('cancels the thread although no request arrived')
        if r == 'object' and v[1] != 0:
            return R('reports %s although the object was signalled' % nm(v))
        if r == 'timeout' and v[1] != E['ETIMEDOUT']:
            return R('reports %s for an expired wait' % nm(v))
        if r == 'failed' and v[1] in (0, E['ETIMEDOUT']):
            return R('reports %s for a failed wait' % nm(v))
        if r == 'cancel':
            late = self.s0 >= K['PThreadStateCanceling']
            if not late and not m['thr']:
                return R('a request arrived while waiting and is not acted on')
            if late and m['thr']:
                return R('a thread that is already being cancelled is cancelled again')
            if not m['thr'] and v[1] in (0, E['ETIMEDOUT']):
                return R('reports %s although the object was not signalled' % nm(v))


class Kill(Cancel):
    PROPS = ('K02',)
    MAY = staticmethod(lambda self: (self.F['exitStatus'],))

    def setup(self, eng, st, args):
        who, sig = self.case.split('/')
        full, self.case = self.case, who
        super().setup(eng, st, args)
        self.case = who
        st.mon.update({'term': 0, 'w_exit': 0, 'sig': sig})
        sigs = (K['SIGINT'], K['SIGTERM'], K['SIGBREAK'], K['SIGABRT'])
        self.sig = sig
        if sig == 'other':
            st.facts[args[1][0]] = (-INF, INF, frozenset(sigs + (0, 6)))
        else:
            eng.substitute(st, args[1][0], (None, 0 if sig == 'none' else K[sig]))
        return None

    def load_forks(self, eng, st, addr, lab, inst):
        if self.case != 'null' and addr == self.F['exitStatus'] and self.slock(st) and peek(st, addr) is None:
            t = st.fork()
            t.mem[addr] = (NULL, 8)
            v = self.sym(eng, st, 'status', ex=(0,))
            st.mem[addr] = (v, 8)
            t.mon['v_exit'], st.mon['v_exit'] = NULL, v
            return [(t, NULL), (st, v)]
        return super().load_forks(eng, st, addr, lab, inst)

    def on_store(self, eng, st, addr, lab, v, inst):
        if self.case != 'null' and addr == self.F['exitStatus']:
            st.mon['w_exit'] = ('K', v)
        super().on_store(eng, st, addr, lab, v, inst)
        if self.case != 'null' and st.mon['term'] and addr[0] == st.mon['p'][0]:
            self.rep(eng, st, 'changes the record of a thread after it has been killed (it may already have been joined)', inst)

    def m_terminate(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.mcs(st):
            return self.R(eng, st, 'kills a thread with an internal lock held (it may be the caller itself)', inst)
        if args[0] != self.h or m.get('valid') != 1 or m.get('alive') == 0:
            return self.R(eng, st, 'kills a thread through a handle that is not known to be valid', inst)
        if m['term']:
            return self.R(eng, st, 'kills the thread twice', inst)
        if m.get('v_state') is None or m['v_state'] >= K['PThreadStateLast']:
            return self.R(eng, st, 'kills a thread that has already ended or been killed', inst)
        if m.get('w_state') != K['PThreadStateLast']:
            return self.R(eng, st, 'the killed thread is not marked as ended (joining or detaching it would misbehave)', inst)
        if m.get('v_exit') == NULL and m['w_exit'] != ('K', (None, K['PTHREAD_CANCELED'])) or m.get('v_exit') not in (NULL, None) and m['w_exit'] not in (0, ('K', m['v_exit'])):
            return self.R(eng, st, 'the status a joiner of the killed thread gets is not recorded', inst)
        if 'v_exit' not in m:
            return self.R(eng, st, 'the status a joiner of the killed thread gets is not recorded', inst)
        t = st.fork()
        t.mon['term'] = 2
        m['term'] = 1
        return [(t, NULL), (st, (None, 1))]

    def m_suspend(self, eng, st, inst, args, name, cv):
        return self.R(eng, st, 'suspends or resumes a thread', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if kind != 'return' or not const(v):
            return R('returns %s' % eng.show(v))
        acted = 'w_state' in m or 'w_cs' in m or m['term'] or m['set'] or m['w_exit']
        if self.case == 'null' or m.get('valid') == 0 or m.get('alive') == 0:
            if acted or v[1] != E['ESRCH']:
                return R('a handle that is not valid is not simply refused with no-such-thread')
            return
        if m.get('valid') != 1:
            if acted or v[1] == 0:
                return R('succeeds without having checked the handle')
            return
        if self.sig == 'none':
            if acted or v[1] != 0:
                return R('the existence check %s' % ('disturbs the thread' if acted else 'fails for a valid thread'))
            return
        if self.sig == 'other':
            if acted or v[1] != E['EINVAL']:
                return R('a signal that is not supported is not simply refused')
            return
        if m.get('v_state') is None:
            return R('decides without looking at the state of the target under its lock')
        if m['v_state'] >= K['PThreadStateLast']:
            if acted or v[1] != 0 and v[1] != E['ESRCH']:
                return R('disturbs a thread that has already ended')
            return
        if not m['term']:
            return R('the thread is not killed')
        if (m['term'] == 1) != (v[1] == 0):
            return R('returns %s although the thread %s killed' % (nm(v), 'was' if m['term'] == 1 else 'was not'))


class Cleanup(Contract):
    """ptw32_pop_cleanup / ptw32_push_cleanup.  case: empty, norun, run, noroutine | push"""
    PROPS = ('K01',)

    def models(self):
        m = super().models()
        m['ptw32_processInitialize'] = lambda eng, st, inst, args, name, cv: [(st, (None, 1))]
        m['pthread_getspecific'] = self.m_get
        m['pthread_setspecific'] = self.m_set
        m['*indirect'] = self.m_run
        for n in ('ptw32_push_cleanup', 'ptw32_pop_cleanup'):
            m.pop(n, None)
        return m

    def stable(self, eng, st, addr, lab):
        return True

    def setup(self, eng, st, args):
        m = st.mon
        c = self.case
        self.key = self.ptr(eng, st, 'cleanupKey')
        st.mem[('g:ptw32_cleanupKey', 0)] = (self.key, 8)
        m.update({'ran': 0, 'key': self.key, 'set': 0})
        m['top'] = NULL if c in ('empty', 'push-empty') else self.ptr(eng, st, 'top')
        if c.startswith('push'):
            m['new'], m['fn'], m['a'] = args
            st.facts[args[0][0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            m['old'] = m['top']
            return
        if c == 'norun':
            eng.substitute(st, args[0][0], NULL)
        else:
            st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        if c != 'empty':
            n = m['node'] = m['top']
            m['prev'] = self.sym(eng, st, 'prev')
            m['fn'] = NULL if c == 'noroutine' else self.ptr(eng, st, 'routine')
            m['a'] = self.sym(eng, st, 'arg')
            st.mem[field(eng, n, CU, 'routine')] = (m['fn'], 8)
            st.mem[field(eng, n, CU, 'arg')] = (m['a'], 8)
            st.mem[field(eng, n, CU, 'prev')] = (m['prev'], 8)

    def m_get(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if args[0] != st.mon['key']:
            return self.rep(eng, st, 'uses the wrong key', inst) or []
        return [(st, st.mon['top'])]

    def m_set(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if args[0] != st.mon['key']:
            return self.rep(eng, st, 'uses the wrong key', inst) or []
        st.mon['top'] = args[1]
        return [(st, NULL)]

    def m_run(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'handler'))
        if self.case.startswith('push') or self.case == 'empty':
            return self.rep(eng, st, 'runs something', inst) or []
        if cv == NULL or cv != m['fn'] or not args or args[0] != m['a']:
            return self.rep(eng, st, 'runs something other than the handler with its argument', inst) or []
        if self.case == 'norun':
            return self.rep(eng, st, 'runs a handler that is only to be removed', inst) or []
        if m['ran']:
            return self.rep(eng, st, 'runs a handler twice', inst) or []
        if m['top'] != m['prev']:
            return self.rep(eng, st, 'runs a handler before removing it (it runs again if the handler exits)', inst) or []
        m['ran'] = 1
        t = st.fork()
        return [(t, THROW), (st, None)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        c = self.case
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return':
            return
        if c.startswith('push'):
            n = m['new']
            if m['top'] != n:
                return R('the new handler is not the next to run')
            for f, w in (('routine', 'fn'), ('arg', 'a'), ('prev', 'old')):
                if self.val(eng, st, n, CU, f, 8) != m[w]:
                    return R('the new handler has the wrong %s' % f)
            return
        if c == 'empty':
            if v != NULL or m['top'] != NULL:
                return R('an empty stack does not give nothing')
            return
        if v != m['node']:
            return R('does not return the handler that was removed')
        if m['top'] != m['prev']:
            return R('does not remove exactly one handler')
        if c == 'run' and not m['ran']:
            return R('the handler is removed without being run')


class Throw(Thr):
    noexit = True
    """ptw32_throw.  case: <who>/<exception>"""
    PROPS = ('K01',)

    def models(self):
        m = super().models()
        m['ptw32_pop_cleanup'] = self.m_pop
        m['pthread_win32_thread_detach_np'] = self.m_detach
        m['longjmp'] = self.m_longjmp
        m['__cxa_throw'] = self.m_cxa
        m['__cxa_allocate_exception'] = lambda eng, st, inst, args, name, cv: [(st, self.heap(eng, st, inst, 'heap'))]
        return m

    def setup(self, eng, st, args):
        m = st.mon
        who, exc = self.case.split('/')
        self.who, self.exc = who, exc
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        p = NULL if who == 'none' else self.self_p(eng)
        m.update({'key': sk, 'p': p, 'empty': 0, 'det': 0, 'out': '', 'popped': 0})
        if p != NULL:
            st.facts[p[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            self.fields(eng, p)
            self.status = self.sym(eng, st, 'status')
            st.mem[self.F['exitStatus']] = (self.status, 8)
            m['status'] = self.status
            was = (None, K['PThreadStateCanceling']) if exc == 'CANCEL' else self.sym(eng, st, 'state', K['PThreadStateRunning'], K['PThreadStateCancelPending'])
            st.mem[self.F['state']] = (was, 4)
            m['keep'] = ('K', was)
        if exc == 'other':
            st.facts[args[0][0]] = (-INF, INF, frozenset([K['PTW32_EPS_CANCEL'], K['PTW32_EPS_EXIT']]))
        else:
            eng.substitute(st, args[0][0], (None, K['PTW32_EPS_' + exc]))

    def load_forks(self, eng, st, addr, lab, inst):
        if lab and lab[1] == 'implicit':
            return [(st, (None, 1 if self.who == 'implicit' else 0))]
        return None

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def leaving(self, eng, st, inst):
        """clean-up code runs from here on: a request made now must find that the thread is on its way out"""
        if st.mon['p'] == NULL or self.exc == 'other' or st.mon['det']:
            return True
        s = peek(st, self.F['state']) or NULL
        if eng.decide(st, 'slt', s, (None, K['PThreadStateLast'])) is False:
            return self.rep(eng, st, 'the thread is marked as ended while its clean-up has yet to run', inst, ('K01', 'J02', 'J04'))
        if eng.decide(st, 'sge', s, (None, K['PThreadStateCanceling'])) is True:
            return True
        return self.rep(eng, st, 'clean-up code runs while the thread can still be cancelled', inst, ('K01', 'I02'))

    def m_getspec(self, eng, st, inst, args, name, cv):
        if args[0] != st.mon['key']:
            return self.R(eng, st, 'uses the wrong key', inst)
        return [(st, st.mon['p'])]

    def m_pop(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'clean-up'))
        if args[0] == NULL:
            return self.R(eng, st, 'removes a clean-up handler without running it', inst)
        if not self.leaving(eng, st, inst):
            return []
        t = st.fork()
        t.mon['empty'] = 1
        m['empty'] = 0
        c = eng.sitesym(st, inst, 'handler')
        st.facts[c[0]] = (-INF, INF, frozenset([0]))
        return [(t, NULL), (st, c)]

    def m_detach(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.who == 'thread' or m['det']:
            return self.R(eng, st, 'releases a thread that is still to unwind (or twice)', inst)
        if not self.leaving(eng, st, inst):
            return []
        m['det'] = 1
        if m['p'] != NULL:
            m['gone'] = m.get('gone', ()) + (m['p'],)
        return [(st, (None, 1))]

    def on_terminal(self, eng, st, name, inst):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if name in ('exit', 'abort', '_exit'):
            if self.exc != 'other':
                self.rep(eng, st, 'ends the process for an ordinary %s' % self.exc.lower(), inst)
            return
        if self.exc == 'other':
            return self.rep(eng, st, 'carries on with an unknown exception', inst)
        if self.who == 'thread':
            return self.rep(eng, st, 'ends a thread without unwinding it', inst)
        if not m['det']:
            return self.rep(eng, st, 'ends a thread without releasing its data', inst)

    def left(self, eng, st, inst):
        m = st.mon
        self.sites.add((eng.where(inst), 'unwind'))
        if self.exc == 'other':
            return self.rep(eng, st, 'carries on with an unknown exception', inst)
        if self.who != 'thread':
            return self.rep(eng, st, 'unwinds a thread that has nowhere to unwind to', inst)
        return self.leaving(eng, st, inst)

    def m_longjmp(self, eng, st, inst, args, name, cv):
        m = st.mon
        if self.left(eng, st, inst):
            if not m['empty']:
                return self.R(eng, st, 'unwinds without having run every clean-up handler', inst)
            if args[0] != field(eng, m['p'], TH, 'start_mark'):
                return self.R(eng, st, 'unwinds to somewhere other than the start of the thread', inst)
            if args[1] != (None, K['PTW32_EPS_' + self.exc]):
                return self.R(eng, st, 'reports the wrong reason for the exit', inst)
            m['out'] = 'ok'
        return [(st, STOP)]

    def m_cxa(self, eng, st, inst, args, name, cv):
        m = st.mon
        if self.left(eng, st, inst):
            ti = str(args[1][0])
            if ('ptw32_exception_' + self.exc.lower()) not in ti:
                return self.R(eng, st, 'reports the wrong reason for the exit', inst)
        return [(st, STOP)]

    def on_exit(self, eng, st, kind, v, inst):
        if kind == 'return':
            self.rep(eng, st, 'returns to its caller', inst)


class PExit(Thr):
    noexit = True
    PROPS = ('K01',)

    def setup(self, eng, st, args):
        m = st.mon
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        p = NULL if self.case == 'none' else self.self_p(eng)
        m.update({'key': sk, 'p': p, 'v': args[0]})
        if p != NULL:
            st.facts[p[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            self.fields(eng, p)

    def stable(self, eng, st, addr, lab):
        return True

    def m_getspec(self, eng, st, inst, args, name, cv):
        if args[0] != st.mon['key']:
            return self.R(eng, st, 'uses the wrong key', inst)
        return [(st, st.mon['p'])]

    def m_throw(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'throw'))
        if args[0] != (None, K['PTW32_EPS_EXIT']):
            return self.R(eng, st, 'leaves by something other than an exit', inst)
        if m['p'] != NULL and peek(st, self.F['exitStatus']) != m['v']:
            return self.rep(eng, st, 'the status for the joiner is not recorded', inst, ('K01', 'J02', 'J03')) or []
        return [(st, THROW)]

    def on_terminal(self, eng, st, name, inst):
        self.sites.add((eng.where(inst), name))
        if st.mon['p'] != NULL or name in ('exit', 'abort'):
            self.rep(eng, st, 'ends without unwinding', inst)

    def on_exit(self, eng, st, kind, v, inst):
        if kind == 'return':
            self.rep(eng, st, 'returns to its caller', inst)


ASSUME = ('internal queue locks give mutual exclusion (property P01)', 'a thread record is not recycled while its handle is known to be valid and in use by the caller')
JOBS = []


def job(props, entry, case, make, n=1):
    JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'min_sites': n, 'assumes': ASSUME, 'make': make})


for _c in ('other', 'self', 'null'):
    job(('I01',), 'pthread_cancel', _c, (lambda c=_c: Cancel(c)), 0 if _c == 'null' else 3)
job(('I01',), 'ptw32_RegisterCancellation', '', (lambda: Redirect('')))
for _s in ('running', 'pending', 'canceling', 'exiting'):
    for _e in ('enabled', 'disabled'):
        job(('I02',), 'pthread_testcancel', '%s/%s/deferred' % (_s, _e), (lambda c='%s/%s/deferred' % (_s, _e): TestCancel(c)))
        if _s != 'exiting':
            for _n, _t in (('pthreadCancelableWait', False), ('pthreadCancelableTimedWait', True)):
                job(('I02',), _n, '%s/%s/deferred' % (_s, _e), (lambda c='%s/%s/deferred' % (_s, _e), t=_t: CWait(c, t)))
        for _t in ('async', 'deferred'):
            for _n, _w, _xs in (('pthread_setcancelstate', 'cancelState', ('enable', 'disable', 'bad')), ('pthread_setcanceltype', 'cancelType', ('async', 'deferred', 'bad'))):
                for _x in _xs:
                    if _s == 'exiting' or _x == 'bad' and _s != 'pending':
                        continue
                    _c = '%s/%s/%s/%s' % (_s, _e, _t, _x)
                    job(('I02',), _n, _c, (lambda c=_c, w=_w: SetCancel(c, w)), 0 if _x == 'bad' else 1)
for _w in ('other', 'self', 'null'):
    for _s in ('none', 'other', 'SIGINT', 'SIGTERM', 'SIGBREAK', 'SIGABRT'):
        job(('K02',), 'pthread_kill', '%s/%s' % (_w, _s), (lambda c='%s/%s' % (_w, _s): Kill(c)), 0 if _w == 'null' else 1)
for _c in ('empty', 'run', 'norun', 'noroutine'):
    job(('K01',), 'ptw32_pop_cleanup', _c, (lambda c=_c: Cleanup(c)))
for _c in ('push', 'push-empty'):
    job(('K01',), 'ptw32_push_cleanup', _c, (lambda c=_c: Cleanup(c)))
for _w in ('thread', 'implicit', 'none'):
    for _x in ('CANCEL', 'EXIT', 'other'):
        job(('K01', 'J02', 'J04'), 'ptw32_throw', '%s/%s' % (_w, _x), (lambda c='%s/%s' % (_w, _x): Throw(c)))
for _w in ('thread', 'none'):
    job(('K01', 'J02', 'J03'), 'pthread_exit', _w, (lambda c=_w: PExit(c)))
