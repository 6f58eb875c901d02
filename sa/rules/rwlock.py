"""Read-write locks (properties R*)."""
from ..engine import Engine, NULL, INF, THROW, STOP, AnalysisBroken
from ..contract import nm
from ..comp import Comp
from ..common import E, K, const, field, peek

RW = 'pthread_rwlock_t_'
ASSUME = ('mutexes and condition variables meet their own properties (M*, C*); the mutexes inside a live rwlock are never refused',
          'representation invariant: readers inside = shared - completed; while a writer waits completed = -readers still inside; exclusive is 1 only while a writer holds both mutexes',
          'unlock is called by a thread that holds the lock')
IMAX = (1 << 31) - 1


class RwBase(Comp):
    def newrw(self, eng, st):
        rw = self.ptr(eng, st, 'rwl')
        self.rw = rw
        for n, f in (('sh', 'nSharedAccessCount'), ('ex', 'nExclusiveAccessCount'), ('co', 'nCompletedSharedAccessCount'), ('mg', 'nMagic'),
                     ('mex', 'mtxExclusiveAccess'), ('msh', 'mtxSharedAccessCompleted'), ('cnd', 'cndSharedAccessCompleted')):
            setattr(self, 'A_' + n, field(eng, rw, RW, f))
        return rw

    def setup(self, eng, st, args):
        st.mon.update({'sub': (), 'n': 0, 'freed': ()})
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        st.mem[args[0]] = (self.newrw(eng, st), 8)
        self.R = args[0]
        mg = self.sym(eng, st, 'magic')
        st.mem[self.A_mg] = (mg, 4)
        st.mon['mg'] = mg
        for a in args[1:]:
            st.facts[a[0]] = (-INF, INF, frozenset([0]))
            st.mon['abs'] = a

    def stable(self, eng, st, addr, lab):
        return addr in (self.R, self.A_mg)

    def notvalid(self, eng, st):
        # the lock was found not to carry the mark that creation puts on it
        mg = st.mon['mg']
        if 'PTW32_RWLOCK_MAGIC' not in K:
            return not const(mg)
        return eng.decide(st, 'ne', mg, (None, K['PTW32_RWLOCK_MAGIC'])) is True

    def private(self, eng, st, addr, lab):
        s = self.subs(st)
        if addr in (self.A_sh, self.A_ex):
            return 'ex' in s or addr == self.A_ex and st.mon.get('reader')
        if addr == self.A_co:
            return 'sh' in s
        return False

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP or not hasattr(self, 'rw'):
            return r
        s = self.subs(st)
        if addr == self.A_sh and 'ex' not in s:
            self.rep(eng, st, '%s of the number of readers without the exclusive-access mutex' % how, inst)
        elif addr == self.A_co and 'sh' not in s:
            self.rep(eng, st, '%s of the number of completed readers without the shared-access mutex' % how, inst)
        elif addr == self.A_ex and how != 'load' and not ('ex' in s and 'sh' in s):
            self.rep(eng, st, '%s of the writer count without both mutexes' % how, inst)
        return STOP if st.mon.get('!stop') else None

    def fresh(self, eng, st, inst, addr, tag, lo, hi):
        v = eng.sitesym(st, inst, '%s%d' % (tag, st.mon['n']))
        st.mon['n'] += 1
        st.facts[v[0]] = (lo, hi, frozenset())
        st.mem[addr] = (v, 4)
        return v

    def enter(self, eng, st, o, inst):
        """-> outcome states after taking mutex o"""
        if o == self.A_mex:
            if 'ex' in self.subs(st):
                self.rep(eng, st, 'locks the exclusive-access mutex it already holds', inst)
                return []
            if 'sh' in self.subs(st):
                self.rep(eng, st, 'takes the exclusive-access mutex while holding the shared-access mutex (lock order inversion)', inst)
                return []
            self.take(st, 'ex')
            # shared = readers inside + readers completed, as they will be when the shared-access mutex is taken
            L = self.fresh(eng, st, inst, self.A_sh, 'inside', 0, IMAX - 1)
            D = self.fresh(eng, st, inst, self.A_sh, 'done', 0, IMAX - 1)
            v = eng.mkexpr('add', L, D)
            st.facts[v[0]] = (0, IMAX - 1, frozenset())
            st.mem[self.A_sh] = (v, 4)
            st.mem[self.A_ex] = (NULL, 4)
            st.mon['sh0'] = v
            st.mon['L'], st.mon['D'] = L, D
            st.mon['co0'] = None
            return [st]
        if 'sh' in self.subs(st):
            self.rep(eng, st, 'locks the shared-access mutex it already holds', inst)
            return []
        self.take(st, 'sh')
        if 'ex' in self.subs(st):
            st.mem[self.A_co] = (st.mon['D'], 4)
            st.mon['co0'] = st.mon['D']
            return [st]
        t = st.fork()
        st.mon['co0'] = self.fresh(eng, st, inst, self.A_co, 'done', 0, IMAX - 2)
        st.mon['waiting'] = 0
        # a writer waits for the readers still inside
        t.mon['co0'] = self.fresh(eng, t, inst, self.A_co, 'remaining', -IMAX, -1)
        t.mon['waiting'] = 1
        return [st, t]

    def which(self, eng, st, o, inst):
        n = {self.A_mex: 'ex', self.A_msh: 'sh'}.get(o)
        if n is None:
            self.rep(eng, st, 'operates on %s, which is no mutex of this lock' % eng.showaddr(o), inst)
        return n

    def p_mutex_unlock(self, eng, st, op, o, args, inst):
        n = self.which(eng, st, o, inst)
        if n is None:
            return []
        if n not in self.subs(st):
            return self.rep(eng, st, 'unlocks the %s mutex it does not hold' % n, inst) or []
        self.unlocking(eng, st, n, inst)
        if st.mon.get('!stop'):
            return []
        self.give(st, n)
        return [(st, 0)]

    def unlocking(self, eng, st, n, inst):
        pass

    def cnt(self, eng, st, a):
        return eng.load(st, a, 4, {'id': 'peek', 'loc': None})

    def inside(self, eng, st):
        """readers inside as this call believes: shared - completed"""
        m = st.mon
        co = self.cnt(eng, st, self.A_co) if 'sh' in self.subs(st) else None
        return co


class RwLock(RwBase):
    """rdlock / tryrdlock / timedrdlock / wrlock / trywrlock / timedwrlock"""

    def __init__(self, mode, how):
        super().__init__(how + ' ' + mode)
        self.mode, self.how = mode, how
        self.PROPS = ('R01', 'R02') if mode == 'read' else ('R01', 'R03')

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'err': 0, 'waits': 0, 'dsh': NULL, 'ret': 0, 'empty': 0, 'touched': 0, 'armed': 0, 'busy': 0, 'fold': NULL})

    def lock(self, eng, st, op, o, args, inst):
        n = self.which(eng, st, o, inst)
        if n is None:
            return []
        st.mon['touched'] = 1
        if op == 'mutex_timedlock' and (self.how != 'timed' or args[1] != st.mon['abs']):
            return self.rep(eng, st, 'does not pass its own time limit on', inst, self.PROPS + ('W01',)) or []
        if self.how == 'timed' and op == 'mutex_lock' and (n == 'ex' or self.mode == 'write'):
            return self.rep(eng, st, 'waits without a time limit', inst, self.PROPS + ('W01',)) or []
        if self.how == 'try' and op != 'mutex_trylock' and (n == 'ex' or self.mode == 'write'):
            return self.rep(eng, st, 'a try operation blocks', inst) or []
        outs = []
        errs = {'mutex_timedlock': ('ETIMEDOUT', 'EINVAL'), 'mutex_trylock': ('EBUSY',), 'mutex_lock': ('EINVAL',)}[op]
        for e in errs:
            t = st.fork()
            t.mon['err'] = E[e]
            t.mon['gaveup'] = E[e] if e == 'EBUSY' and self.how != 'try' else 0
            outs.append((t, e))
        st.mon['gaveup'] = st.mon['err'] = 0
        return outs + [(s, 0) for s in self.enter(eng, st, o, inst)]
    p_mutex_lock = p_mutex_trylock = p_mutex_timedlock = lock

    def unlocking(self, eng, st, n, inst):
        m = st.mon
        co0 = m['co0']
        if n == 'sh' and co0 is not None:
            co = self.cnt(eng, st, self.A_co)
            if 'ex' not in self.subs(st):
                return self.rep(eng, st, 'releases the exclusive-access mutex before the shared-access one', inst)
            m['fold'] = eng.mkexpr('sub', co0, co)     # completed readers folded into shared
        if n == 'ex':
            sh = self.cnt(eng, st, self.A_sh)
            m['dsh'] = eng.mkexpr('add', eng.mkexpr('sub', sh, m['sh0']), m['fold'])
            if self.mode == 'read' and m['co0'] is None and m['dsh'] == (None, 1) and eng.decide(st, 'ne', sh, (None, IMAX)) is not True:
                return self.rep(eng, st, 'may leave the reader count at its limit without folding in the readers that have left: the next one overflows it', inst)

    def p_cond_wait(self, eng, st, op, o, args, inst):
        m = st.mon
        if o != self.A_cnd or args[1] != self.A_msh:
            return self.rep(eng, st, 'waits on the wrong object', inst) or []
        if self.mode == 'read' or self.how == 'try':
            return self.rep(eng, st, 'a %s %s operation blocks' % (self.how, self.mode), inst) or []
        if not {'ex', 'sh'} <= set(self.subs(st)):
            return self.rep(eng, st, 'waits for the readers without keeping new ones out', inst) or []
        if (op == 'cond_timedwait') != (self.how == 'timed') or (self.how == 'timed' and args[2] != m['abs']):
            return self.rep(eng, st, 'does not wait with its own time limit', inst, self.PROPS + ('W01',)) or []
        if not st.cleanups and eng.p.flavour == 'c':
            return self.rep(eng, st, 'waits without a cleanup handler: a cancelled writer would leave the lock closed', inst) or []
        co, sh = self.cnt(eng, st, self.A_co), self.cnt(eng, st, self.A_sh)
        if not m['armed']:
            # completed must be minus the readers inside
            left = m['L']
            if eng.mkexpr('add', co, left) != NULL:
                return self.rep(eng, st, 'waits for %s readers to leave although %s are inside' % (eng.show(eng.mkexpr('neg', co)), eng.show(left)), inst) or []
            if eng.decide(st, 'slt', co, NULL) is not True:
                return self.rep(eng, st, 'may wait although no reader is inside (nobody would wake it)', inst) or []
            m['armed'] = 1
        elif m['err']:
            return self.rep(eng, st, 'waits on although its time is up' if m['err'] == E['ETIMEDOUT'] else 'waits on although the wait has failed', inst, self.PROPS + ('W01',)) or []
        elif eng.decide(st, 'slt', co, NULL) is not True:
            return self.rep(eng, st, 'waits again although the last reader may have left (nobody would wake it)', inst) or []
        m['waits'] = 1
        outs = []
        cases = [0, 'EINVAL', THROW]
        if self.how == 'timed':
            cases.append('ETIMEDOUT')
        for r in cases:
            t = st.fork()
            eng.invalidate(t, keep=lambda a, l: a in (self.A_sh, self.A_ex))
            self.fresh(eng, t, inst, self.A_co, 'left', -IMAX, 0)
            t.mon['n'] = 99
            if r is THROW:
                t.mon['canc'] = 1
            elif r:
                t.mon['err'] = E[r]
            t.note('%s: the wait for readers %s' % (eng.where(inst), 'is cancelled' if r is THROW else r or 'is woken'))
            outs.append((t, r))
        return outs
    p_cond_timedwait = p_cond_wait

    def on_store(self, eng, st, addr, lab, v, inst):
        if hasattr(self, 'rw') and addr == self.A_co and st.mon['armed'] and (st.mon.get('canc') or st.mon['err']):
            # the abandoning writer hands the remaining readers back; checked at its release
            st.mon['rest'] = self.cnt(eng, st, self.A_co) if 'rest' not in st.mon else st.mon['rest']

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        held = set(self.subs(st))
        ok = kind == 'return' and v == NULL
        if kind == 'return' and not const(v):
            return self.rep(eng, st, 'returns an unspecified value', inst)
        if kind == 'unwind' and not m.get('canc'):
            return self.rep(eng, st, 'leaves by unwinding without a cancellation', inst)
        if not m['touched']:
            if v != (None, E['EINVAL']) or not self.notvalid(eng, st):
                self.rep(eng, st, 'returns %s without trying to lock' % nm(v), inst)
            return
        if self.mode == 'read':
            if held:
                return self.rep(eng, st, 'a reader keeps internal mutexes locked (%s)' % ', '.join(sorted(held)), inst)
            if ok and m['dsh'] != (None, 1):
                return self.rep(eng, st, 'returns success but counts %s readers' % eng.show(m['dsh']), inst)
            if not ok and m['dsh'] != NULL:
                return self.rep(eng, st, 'returns %s but leaves %s readers counted' % (nm(v), eng.show(m['dsh'])), inst)
            if not ok and v != (None, m['err']):
                return self.rep(eng, st, 'returns %s on a path with no such condition' % nm(v), inst)
            return
        # writer
        if ok:
            if held != {'ex', 'sh'}:
                return self.rep(eng, st, 'a successful writer does not hold both mutexes', inst)
            if self.cnt(eng, st, self.A_ex) != (None, 1):
                return self.rep(eng, st, 'a successful writer is not counted', inst)
            co, sh = self.cnt(eng, st, self.A_co), self.cnt(eng, st, self.A_sh)
            if m['waits']:
                if eng.decide(st, 'sge', co, NULL) is not True:
                    return self.rep(eng, st, 'enters while readers may still be inside', inst)
            else:
                if eng.decide(st, 'sle', m['L'], NULL) is not True:
                    return self.rep(eng, st, 'enters although readers may be inside', inst)
            if eng.mkexpr('sub', sh, co) != NULL:
                if eng.decide(st, 'eq', eng.mkexpr('sub', sh, co), NULL) is not True:
                    return self.rep(eng, st, 'a successful writer leaves %s readers counted' % eng.show(eng.mkexpr('sub', sh, co)), inst)
            return
        if held:
            return self.rep(eng, st, '%s keeps %s locked' % ('a cancelled writer' if kind == 'unwind' else 'a writer that returns %s' % nm(v), ', '.join(sorted(held))), inst)
        if kind == 'return':
            allowed = m['err'] or (E['EBUSY'] if self.how == 'try' else None)
            if v[1] != allowed:
                return self.rep(eng, st, 'returns %s on a path with no such condition' % nm(v), inst)
            if not m['err'] and self.how == 'try':
                left = m['L']
                if m['co0'] is None or eng.decide(st, 'sgt', left, NULL) is not True:
                    return self.rep(eng, st, 'refuses with EBUSY although nobody is inside', inst)
        if m['armed']:
            return self.judged(eng, st, inst)
        if m['dsh'] != NULL:
            return self.rep(eng, st, 'a refused writer changes the number of readers inside by %s' % eng.show(m['dsh']), inst)

    def judged(self, eng, st, inst):
        m = st.mon
        if 'end' not in m:
            return
        if m['end'] != NULL:
            return self.rep(eng, st, 'an abandoning writer leaves %s too many readers counted' % eng.show(m['end']), inst)


class RwWrite(RwLock):
    def unlocking(self, eng, st, n, inst):
        m = st.mon
        if m['armed'] and n == 'sh':
            if 'ex' not in self.subs(st):
                return self.rep(eng, st, 'releases the exclusive-access mutex before settling the readers', inst)
            rest = m.get('rest')
            if rest is None:
                return self.rep(eng, st, 'an abandoning writer leaves the departing readers reporting to it', inst)
            sh, co = self.cnt(eng, st, self.A_sh), self.cnt(eng, st, self.A_co)
            # readers inside now: -rest ; must equal shared - completed, with completed >= 0
            m['end'] = eng.mkexpr('add', eng.mkexpr('sub', sh, co), rest)
            if m['end'] != NULL:
                return self.rep(eng, st, 'an abandoning writer counts %s readers too many' % eng.show(m['end']), inst)
            if eng.decide(st, 'sge', co, NULL) is not True:
                return self.rep(eng, st, 'an abandoning writer leaves the completed count negative', inst)
            return
        if m['armed']:
            return
        super().unlocking(eng, st, n, inst)


class RwUnlock(RwBase):
    PROPS = ('R01', 'R02', 'R03')

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'done': 0, 'sig': 0, 'need': 0, 'serr': 0, 'wr': 0, 'rel': ()})
        t = st.fork()
        t.mon['wr'] = 1
        self.take(t, 'ex')
        self.take(t, 'sh')
        t.mem[self.A_ex] = ((None, 1), 4)
        t.mem[self.A_sh] = (NULL, 4)
        t.mem[self.A_co] = (NULL, 4)
        st.mem[self.A_ex] = (NULL, 4)
        st.mon['reader'] = 1
        return [st, t]

    def p_mutex_lock(self, eng, st, op, o, args, inst):
        n = self.which(eng, st, o, inst)
        if n is None:
            return []
        if n == 'ex' or st.mon['wr']:
            return self.rep(eng, st, 'unlocking waits for the %s mutex' % n, inst) or []
        t = st.fork()
        t.mon['serr'] = E['EINVAL']
        t.mon['lockfail'] = 1
        return [(t, 'EINVAL')] + [(s, 0) for s in self.enter(eng, st, o, inst)]

    def unlocking(self, eng, st, n, inst):
        m = st.mon
        if m['wr']:
            if self.cnt(eng, st, self.A_ex) != NULL:
                return self.rep(eng, st, 'a writer releases a mutex while it is still counted as inside', inst)
            m['rel'] += (('S', n),)
            return
        if m['done']:
            return
        co = self.cnt(eng, st, self.A_co)
        if eng.mkexpr('sub', co, m['co0']) != (None, 1):
            return self.rep(eng, st, 'a departing reader changes the completed count by %s' % eng.show(eng.mkexpr('sub', co, m['co0'])), inst)
        m['done'] = 1
        z = eng.decide(st, 'eq', co, NULL)
        m['need'] = 2 if z is None else int(bool(z))
        if z is None:
            m['coend'] = co

    def p_cond_signal(self, eng, st, op, o, args, inst):
        if o != self.A_cnd or st.mon['wr']:
            return self.rep(eng, st, 'signals the wrong object', inst) or []
        st.mon['sig'] = 1
        return [(st, 0)]
    p_cond_broadcast = p_cond_signal

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if kind != 'return' or not const(v):
            return self.rep(eng, st, 'does not return a status', inst)
        if m.get('lockfail'):
            if v[1] != m['serr'] or self.subs(st):
                self.rep(eng, st, 'a failure is reported as %s' % nm(v), inst)
            return
        if v[1] == E['EINVAL'] and not m['done'] and not m['rel'] and self.notvalid(eng, st):
            return
        if self.subs(st):
            return self.rep(eng, st, '%s leaves %s locked' % ('a writer\'s unlock' if m['wr'] else 'a reader\'s unlock', ', '.join(self.subs(st))), inst)
        if not m['wr'] and not m['done']:
            return self.rep(eng, st, 'a reader leaves without being counted', inst)
        if m['need'] == 1 and not m['sig'] or m['need'] == 2 and not m['sig'] and eng.decide(st, 'ne', m['coend'], NULL) is not True:
            return self.rep(eng, st, 'the last reader leaves without waking the waiting writer', inst)
        if v != NULL:
            return self.rep(eng, st, 'returns %s on a path with no failure' % nm(v), inst)


class RwArgs(RwBase):
    PROPS = ('R04', 'R01')

    def __init__(self, case, want):
        super().__init__(case)
        self.want = want

    def setup(self, eng, st, args):
        a = args[0]
        if self.case == 'null pointer':
            eng.substitute(st, a[0], NULL)
            return
        st.facts[a[0]] = (-INF, INF, frozenset([0]))
        st.mem[a] = (NULL if self.case == 'destroyed' else (None, K['PTHREAD_RWLOCK_INITIALIZER']), 8)

    def stable(self, *a):
        return True

    def private(self, *a):
        return True

    def p_any(self, eng, st, op, o, args, inst):
        return self.rep(eng, st, 'operates on an unusable lock', inst) or []

    def on_exit(self, eng, st, kind, v, inst):
        if v != (None, self.want):
            self.rep(eng, st, '%s: returns %s, not %s' % (self.case, nm(v), nm(self.want)), inst)


class RwInit(Comp):
    PROPS = ('R04',)
    magic = None

    def setup(self, eng, st, args):
        st.mon.update({'R': args[0], 'parts': (), 'perr': 0, 'attr': 0})
        if self.case == 'null pointer':
            eng.substitute(st, args[0][0], NULL)
            return
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        st.mem[args[0]] = (self.sym(eng, st, 'old'), 8)
        t, u = st.fork(), st.fork()
        eng.substitute(t, args[1][0], NULL)
        for s in (st, u):
            s.facts[args[1][0]] = (-INF, INF, frozenset([0]))
        u.mem[args[1]] = (NULL, 8)
        at = self.ptr(eng, st, 'attr')
        st.mem[args[1]] = (at, 8)
        v = self.sym(eng, st, 'ps', 0, 1)
        st.mem[field(eng, at, 'pthread_rwlockattr_t_', 'pshared')] = (v, 4)
        st.mon['ps'] = v
        return [st, t, u]

    def stable(self, *a):
        return True

    def p_mutex_init(self, eng, st, op, o, args, inst):
        t = st.fork()
        t.mon['perr'] = E['ENOMEM']
        x = ('P', eng.label(o)[1])
        if x in st.mon['parts']:
            return self.rep(eng, st, 'creates a part twice', inst) or []
        if args[1] != NULL:
            return self.rep(eng, st, 'creates a part with attributes', inst) or []
        st.mon['parts'] += (x,)
        return [(t, 'ENOMEM'), (st, 0)]
    p_cond_init = p_mutex_init

    def p_mutex_destroy(self, eng, st, op, o, args, inst):
        x = ('P', eng.label(o)[1])
        if x not in st.mon['parts']:
            return self.rep(eng, st, 'destroys a part that was not created', inst) or []
        st.mon['parts'] = tuple(y for y in st.mon['parts'] if y != x)
        return [(st, 0)]
    p_cond_destroy = p_mutex_destroy

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v) or kind != 'return':
            return self.rep(eng, st, 'returns an unspecified value', inst)
        r = v[1]
        if self.case == 'null pointer':
            if r != E['EINVAL']:
                self.rep(eng, st, 'a null pointer is not refused with EINVAL', inst)
            return
        live = [x[2] for x in self.live(st)]
        cur = peek(st, m['R'])
        if r == 0:
            if m.get('ps') is not None and eng.decide(st, 'eq', m['ps'], (None, K['PTHREAD_PROCESS_SHARED'])) is not False:
                return self.rep(eng, st, 'a process-shared lock is not refused', inst)
            if live != [cur] or {x[1] for x in m['parts']} != {'mtxExclusiveAccess', 'mtxSharedAccessCompleted', 'cndSharedAccessCompleted'}:
                return self.rep(eng, st, 'an incomplete lock is reported as created', inst)
            for f in ('nSharedAccessCount', 'nExclusiveAccessCount', 'nCompletedSharedAccessCount'):
                if self.val(eng, st, cur, RW, f, 4) != NULL:
                    return self.rep(eng, st, 'the new lock starts with %s not zero' % f, inst)
            mg = self.val(eng, st, cur, RW, 'nMagic', 4)
            if not const(mg) or mg == NULL:
                return self.rep(eng, st, 'the new lock is not marked valid', inst)
            if mg[1] != K.get('PTW32_RWLOCK_MAGIC', mg[1]):
                return self.rep(eng, st, 'the new lock does not carry the mark the operations ask for', inst)
            return
        if live or m['parts']:
            return self.rep(eng, st, 'fails (%s) and leaks a part' % nm(r), inst)
        if cur in m.get('gone', ()):
            return self.rep(eng, st, 'fails (%s) leaving a pointer to freed memory' % nm(r), inst)
        if r != E['EINVAL'] and not (r == E['ENOSYS'] and 'ps' in m) and not self.failed_any(st) and not m['perr']:
            return self.rep(eng, st, 'refuses with %s on a path with no such condition' % nm(r), inst)
        if r == E['EINVAL'] and 'ps' not in m:
            return self.rep(eng, st, 'refuses with EINVAL although no attributes were given', inst)


class RwDestroy(RwBase):
    PROPS = ('R04',)

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'dead': (), 'err': 0, 'idle': 0, 'inuse': 0, 'perr': 0, 'touched': 0})

    def p_mutex_lock(self, eng, st, op, o, args, inst):
        st.mon['touched'] = 1
        if self.which(eng, st, o, inst) is None:
            return []
        outs = []
        t = st.fork()
        t.mon['err'] = E['EBUSY'] if op == 'mutex_trylock' else E['EINVAL']
        outs.append((t, 'EBUSY' if op == 'mutex_trylock' else 'EINVAL'))
        return outs + [(s, 0) for s in self.enter(eng, st, o, inst)]
    p_mutex_trylock = p_mutex_lock

    def unlocking(self, eng, st, n, inst):
        m = st.mon
        if {'ex', 'sh'} <= set(self.subs(st)):
            sh, co, ex = [self.cnt(eng, st, a) for a in (self.A_sh, self.A_co, self.A_ex)]
            if sh != m['sh0'] or co != m['co0'] or ex != NULL:
                return self.rep(eng, st, 'destroy changes the counts', inst)
            m['idle'] = 1 if eng.decide(st, 'sle', m['L'], NULL) is True else 0
            m['inuse'] = 1 if eng.decide(st, 'sgt', m['L'], NULL) is True else 0
            m['mgend'] = self.cnt(eng, st, self.A_mg)

    def p_mutex_destroy(self, eng, st, op, o, args, inst):
        m = st.mon
        x = ('P', eng.label(o)[1])
        if x in m['dead']:
            return self.rep(eng, st, 'destroys a part twice', inst) or []
        if not m['idle']:
            return self.rep(eng, st, 'destroys a lock that readers may hold', inst) or []
        if self.subs(st) and op != 'cond_destroy':
            return self.rep(eng, st, 'destroys a mutex while %s is held' % ', '.join(self.subs(st)), inst) or []
        m['dead'] += (x,)
        t = st.fork()
        t.mon['perr'] = 1
        return [(t, 'EBUSY'), (st, 0)]
    p_cond_destroy = p_mutex_destroy

    def free_foreign(self, eng, st, v, inst):
        if v != self.rw or len(st.mon['dead']) != 3:
            return self.rep(eng, st, 'frees a lock some of whose parts are still alive', inst)
        super().free_foreign(eng, st, v, inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v) or kind != 'return':
            return self.rep(eng, st, 'does not return a status', inst)
        r = v[1]
        freed = self.rw in m.get('freed', ())
        cur = peek(st, self.R)
        if freed:
            if cur != NULL:
                return self.rep(eng, st, 'leaves the destroyed lock usable', inst)
            if r != 0 and not m['perr']:
                return self.rep(eng, st, 'a completed destroy returns %s' % nm(r), inst)
            return
        if not m['touched']:
            if r != E['EINVAL'] or not self.notvalid(eng, st):
                self.rep(eng, st, 'returns %s without trying' % nm(r), inst)
            return
        if r == 0:
            return self.rep(eng, st, 'reports success without destroying', inst)
        if m['dead'] or cur != self.rw or self.subs(st):
            return self.rep(eng, st, 'a refused destroy (%s) leaves the lock half destroyed or locked' % nm(r), inst)
        if m['err']:
            if r != m['err']:
                self.rep(eng, st, 'a failure is reported as %s' % nm(r), inst)
            return
        if r != E['EBUSY'] or not m.get('inuse'):
            return self.rep(eng, st, 'refuses with %s although the lock may be idle' % nm(r), inst)
        if m['mgend'] != m['mg'] and m.get('mgend') is not None:
            return self.rep(eng, st, 'a refused destroy invalidates the lock', inst)


def J(props, entry, case, make, n=1):
    return {'kind': 'engine', 'props': props, 'entry': 'pthread_rwlock_' + entry, 'case': case, 'make': make, 'min_sites': n, 'assumes': ASSUME}


JOBS = []
for _e, _m, _h in (('rdlock', 'read', 'plain'), ('tryrdlock', 'read', 'try'), ('timedrdlock', 'read', 'timed'),
                   ('wrlock', 'write', 'plain'), ('trywrlock', 'write', 'try'), ('timedwrlock', 'write', 'timed')):
    _c = RwLock if _m == 'read' else RwWrite
    JOBS.append(J((('R01', 'R02') if _m == 'read' else ('R01', 'R03')) + (('W01',) if _h == 'timed' else ()), _e, _h + ' ' + _m, (lambda c=_c, m=_m, h=_h: c(m, h)), 2))
JOBS.append(J(('R01', 'R02', 'R03'), 'unlock', '', lambda: RwUnlock(''), 4))
JOBS.append(J(('R04',), 'init', 'valid', lambda: RwInit('valid'), 3))
JOBS.append(J(('R04',), 'init', 'null pointer', lambda: RwInit('null pointer'), 0))
JOBS.append(J(('R04',), 'destroy', '', lambda: RwDestroy(''), 3))
for _e in ('rdlock', 'tryrdlock', 'timedrdlock', 'wrlock', 'trywrlock', 'timedwrlock', 'unlock', 'destroy'):
    for _c in ('null pointer', 'destroyed'):
        JOBS.append(J(('R04', 'R01'), _e, _c, lambda c=_c: RwArgs(c, E['EINVAL']), 0))
JOBS.append(J(('R04', 'R01'), 'unlock', 'static', lambda: RwArgs('static', 0), 0))
