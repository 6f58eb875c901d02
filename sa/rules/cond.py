"""Condition variables: waiter accounting, mutex hand-over, creation and destruction (properties C*)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..contract import nm
from ..comp import Comp
from ..common import E, K, const, field, peek

CV = 'pthread_cond_t_'
ASSUME = ('the gate semaphore holds one unit when nobody is inside, the queue semaphore none; sem_* and pthread_mutex_* meet their own properties (S*, M*)',
          'representation invariant: waiting >= gone >= 0; while a batch of wake-ups is in progress (toUnblock > 0) the gate is closed and gone is 0')


class CondBase(Comp):
    fail_first = True

    def newcv(self, eng, st):
        cv = self.ptr(eng, st, 'cv')
        self.cv = cv
        for n, f in (('blocked', 'nWaitersBlocked'), ('gone', 'nWaitersGone'), ('tou', 'nWaitersToUnblock'), ('queue', 'semBlockQueue'),
                     ('gate', 'semBlockLock'), ('mtx', 'mtxUnblockLock')):
            setattr(self, 'A_' + n, field(eng, cv, CV, f))
        return cv

    def setup(self, eng, st, args):
        st.mon.update({'sub': (), 'n': 0})
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        st.mem[args[0]] = (self.newcv(eng, st), 8)
        self.C = args[0]

    def stable(self, eng, st, addr, lab):
        return addr == self.C

    def private(self, eng, st, addr, lab):
        # counters stay known while the lock that guards them is held
        s = self.subs(st)
        if addr in (self.A_gone, self.A_tou):
            return 'mtx' in s
        if addr == self.A_blocked:
            return 'gate' in s or ('mtx' in s and st.mon.get('batch'))
        return False

    def guard(self, eng, st, addr, inst, how):
        s = self.subs(st)
        if addr in (self.A_gone, self.A_tou):
            if 'mtx' not in s:
                self.rep(eng, st, '%s of %s without holding the unblock lock' % (how, eng.label(addr)[1]), inst)
        elif addr == self.A_blocked:
            if not ('gate' in s or 'mtx' in s and (st.mon.get('batch') or how == 'load')):
                self.rep(eng, st, '%s of the number of waiters without holding the gate' % how, inst)

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if hasattr(self, 'cv') and addr in (self.A_gone, self.A_tou, self.A_blocked):
            self.guard(eng, st, addr, inst, how)
            if st.mon.get('!stop'):
                return STOP

    def fresh(self, eng, st, inst, addr, tag, lo=0, hi=1 << 30):
        v = eng.sitesym(st, inst, '%s%d' % (tag, st.mon['n']))
        st.mon['n'] += 1
        st.facts[v[0]] = (lo, hi, frozenset())
        st.mem[addr] = (v, 4)
        return v

    def enter_mtx(self, eng, st, inst):
        """-> states with the counters guarded by the unblock lock made known"""
        t = st.fork()
        for s, batch in ((st, 0), (t, 1)):
            self.take(s, 'mtx')
            s.mon['batch'] = batch
            if batch:
                s.mon['tou0'] = self.fresh(eng, s, inst, self.A_tou, 'tou', 1)
                s.mem[self.A_gone] = (NULL, 4)
                s.mon['gone0'] = NULL
                s.mon['blk0'] = self.fresh(eng, s, inst, self.A_blocked, 'blk', 0)
            else:
                s.mem[self.A_tou] = (NULL, 4)
                s.mon['tou0'] = NULL
                g = self.fresh(eng, s, inst, self.A_gone, 'gone', 0)
                s.mon['gone0'] = g
                b = self.fresh(eng, s, inst, self.A_blocked, 'blk', 0)
                s.rel = s.rel | {('sle', g, b)}
                s.mon['blk0'] = b
        return [st, t]

    def enter_gate(self, eng, st, inst):
        if 'gate' in self.subs(st):
            return self.rep(eng, st, 'waits for the gate it already holds (deadlock)', inst)
        self.take(st, 'gate')
        if 'mtx' in self.subs(st) and st.mon.get('batch') and self.val_is(eng, st, self.A_tou, 'sgt', NULL) is True:
            return self.rep(eng, st, 'waits for the gate while a batch keeps it closed (deadlock)', inst)
        if 'mtx' in self.subs(st):
            g = eng.load(st, self.A_gone, 4, inst)
            b0 = eng.load(st, self.A_blocked, 4, inst)
            b = self.fresh(eng, st, inst, self.A_blocked, 'blkg', 0)
            st.rel = st.rel | {('sle', b0, b)}
            if self.below(eng, st, g, b0):
                st.rel = st.rel | {('slt', g, b)}
            elif ('sle', g, b0) in st.rel or g == NULL:
                st.rel = st.rel | {('sle', g, b)}
            st.mon['blk0'] = b
        else:
            st.mon['blk0'] = self.fresh(eng, st, inst, self.A_blocked, 'blkw', 0)

    def below(self, eng, st, g, b):
        """have the tests on this path established g < b"""
        r = st.rel
        return (('slt', g, b) in r or ('ult', g, b) in r or ('sle', g, b) in r and (('ne', g, b) in r or ('ne', b, g) in r) or eng.decide(st, 'slt', g, b) is True
                or g == NULL and eng.decide(st, 'sgt', b, g) is True
                or eng.decide(st, 'sgt', eng.mkexpr('sub', b, g), NULL) is True or eng.decide(st, 'slt', eng.mkexpr('sub', g, b), NULL) is True)

    def val_is(self, eng, st, addr, pred, v):
        return eng.decide(st, pred, eng.load(st, addr, 4, {'id': 'peek', 'loc': None}), v)


class CondWait(CondBase):
    """pthread_cond_wait / timedwait on an initialised condition variable."""
    PROPS = ('C01', 'C04')
    ACC = ('C01', 'C02', 'C04')     # what upsets the accounts upsets the signallers as well

    def __init__(self, timed):
        super().__init__('timed' if timed else '')
        self.timed = timed

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'MX': args[1], 'reg': 0, 'dereg': 0, 'um': 0, 'lm': 0, 'opened': 0, 'mustopen': 0, 'q': '', 'abs': NULL, 'tocount': 0, 'mxerr': 0, 'early': 0})
        self.MX = args[1]       # not known to be a mutex before it is released
        if self.timed:
            st.facts[args[2][0]] = (-INF, INF, frozenset([0]))
            st.mon['abs'] = args[2]

    def p_sem_wait(self, eng, st, op, o, args, inst):
        if o == self.A_gate:
            outs = []
            if op == 'sem_wait' and not st.mon['reg']:
                t = st.fork()
                t.mon['early'] = 1
                t.note('%s: cancelled while waiting for the gate, perhaps after being granted it' % eng.where(inst))
                self.rep(eng, t, 'may be cancelled at the gate semaphore: a unit granted at that moment is lost and the gate stays closed for ever', inst, self.ACC)
            if not st.mon['reg']:
                t = st.fork()
                t.mon['early'] = 1
                outs.append((t, 'EINVAL'))
            self.enter_gate(eng, st, inst)
            outs.append((st, 0))
            return outs
        if o == self.A_queue:
            return self.queue(eng, st, NULL, inst, op)
        return self.p_any(eng, st, op, o, args, inst)
    p_semwait = p_sem_wait

    def p_sem_timedwait(self, eng, st, op, o, args, inst):
        if o != self.A_queue:
            return self.p_any(eng, st, op, o, args, inst)
        return self.queue(eng, st, args[1], inst, op)

    def queue(self, eng, st, abst, inst, op):
        m = st.mon
        if not m['reg']:
            return self.rep(eng, st, 'blocks before it has been counted as a waiter: a signal would miss it', inst, self.ACC) or []
        if m['um'] != 1:
            return self.rep(eng, st, 'blocks without having released the mutex', inst) or []
        if self.subs(st):
            return self.rep(eng, st, 'blocks while holding the internal lock %s' % ', '.join(self.subs(st)), inst) or []
        if m['q']:
            return self.rep(eng, st, 'blocks a second time', inst) or []
        if abst != m['abs']:
            return self.rep(eng, st, 'does not pass its time limit to the wait', inst, self.PROPS + ('W01',)) or []
        outs = []
        cases = [('granted', 0), ('cancelled', THROW), ('failed', 'EINVAL')]
        if op == 'semwait':
            return self.rep(eng, st, 'the wait is not a cancellation point', inst, self.PROPS + ('I03',)) or []
        if abst != NULL:
            cases.append(('expired', 'ETIMEDOUT'))
        for q, r in cases:
            t = st.fork()
            t.mon['q'] = q
            t.note('%s: the wait is %s' % (eng.where(inst), q))
            outs.append((t, r))
        return outs

    def p_sem_post(self, eng, st, op, o, args, inst):
        if o != self.A_gate:
            return self.rep(eng, st, 'a waiter posts the queue', inst) or []
        m = st.mon
        if 'gate' in self.subs(st):
            self.give(st, 'gate')
            return [(st, 0)]
        if not m['mustopen'] or m['opened']:
            return self.rep(eng, st, 'opens the gate although it is not the last waiter of a batch', inst, self.ACC) or []
        m['opened'] = 1
        return [(st, 0)]

    def p_mutex_lock(self, eng, st, op, o, args, inst):
        if o == self.A_mtx:
            if 'mtx' in self.subs(st):
                return self.rep(eng, st, 'relocks the unblock lock', inst) or []
            return [(s, 0) for s in self.enter_mtx(eng, st, inst)]
        if o == self.MX:
            m = st.mon
            if self.subs(st):
                return self.rep(eng, st, 'locks the user mutex while holding the internal lock %s' % ', '.join(self.subs(st)), inst) or []
            if m['um'] != 1 or m['lm']:
                return self.rep(eng, st, 'locks the mutex although it was not released' if m['um'] != 1 else 'locks the mutex twice', inst) or []
            if not m['dereg']:
                return self.rep(eng, st, 'waits for the mutex before leaving the condition variable\'s accounts', inst, self.ACC) or []
            if not m['opened'] and (m['mustopen'] == 1 or m['mustopen'] == 2 and eng.decide(st, 'ne', m['touend'], NULL) is not True):
                return self.rep(eng, st, 'the last waiter of a batch waits for the mutex with the gate still closed: a thread that waits at the gate with the mutex held never gives it up', inst, self.ACC + ('L01',)) or []
            m['lm'] = 1
            outs = []
            for e in ('EINVAL', 'EOWNERDEAD', 'ENOTRECOVERABLE'):
                t = st.fork()
                t.mon['mxerr'] = E[e]
                outs.append((t, e))
            return outs + [(st, 0)]
        return self.p_any(eng, st, op, o, args, inst)

    def p_mutex_unlock(self, eng, st, op, o, args, inst):
        m = st.mon
        if o == self.A_mtx:
            if not self.give(st, 'mtx'):
                return self.rep(eng, st, 'unlocks the unblock lock it does not hold', inst) or []
            return self.left(eng, st, inst) or ([] if m.get('!stop') else [(st, 0)])
        if o == self.MX:
            if m['um']:
                return self.rep(eng, st, 'releases the mutex twice', inst) or []
            if not m['reg'] or self.subs(st):
                return self.rep(eng, st, 'releases the mutex before it has been counted as a waiter: a signal sent in between would be lost', inst, self.ACC) or []
            st.facts[o[0]] = (-INF, INF, frozenset([0]))
            t = st.fork()
            t.mon['um'] = 2
            t.mon['umerr'] = E['EPERM']
            m['um'] = 1
            return [(t, 'EPERM'), (st, 0)]
        return self.p_any(eng, st, op, o, args, inst)

    def left(self, eng, st, inst):
        """the unblock lock is released: judge this waiter's departure"""
        m = st.mon
        tou, gone = eng.load(st, self.A_tou, 4, inst), eng.load(st, self.A_gone, 4, inst)
        dt, dg = eng.mkexpr('sub', tou, m['tou0']), eng.mkexpr('sub', gone, m['gone0'])
        if m.get('folded'):
            if gone != NULL:
                return self.rep(eng, st, 'does not reset the departed count after folding it in', inst, self.ACC)
            dg = m['folded']
        if not m['reg']:
            if dt != NULL or dg != NULL:
                return self.rep(eng, st, 'changes the waiter counts without being a waiter', inst, self.ACC)
            return
        if m['dereg']:
            if dt != NULL or dg != NULL:
                return self.rep(eng, st, 'leaves the accounts twice', inst, self.ACC)
            return
        if m['batch']:
            if dt != (None, -1) or dg != NULL:
                return self.rep(eng, st, 'a departing waiter does not take exactly one wake-up off the current batch (toUnblock %s, gone %s)' % (eng.show(dt), eng.show(dg)), inst, self.ACC)
            last = eng.decide(st, 'eq', tou, NULL)
            if last is None:
                m['mustopen'] = 2
                m['touend'] = tou
            else:
                m['mustopen'] = 1 if last else 0
        else:
            if dt != NULL or dg != (None, 1):
                return self.rep(eng, st, 'a departing waiter with no batch in progress is not recorded as gone (toUnblock %s, gone %s)' % (eng.show(dt), eng.show(dg)), inst, self.ACC)
        m['dereg'] = 1
        m['batch'] = 0

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if not hasattr(self, 'cv'):
            return
        if addr == self.A_blocked:
            d = eng.mkexpr('sub', v, eng.load(st, addr, 4, inst))
            if 'mtx' in self.subs(st):
                # folding the departed waiters in
                g = eng.load(st, self.A_gone, 4, inst)
                if eng.mkexpr('add', d, g) != NULL:
                    return self.rep(eng, st, 'folds the departed waiters into the count wrongly', inst, self.ACC)
                if 'gate' not in self.subs(st):
                    return self.rep(eng, st, 'folds the departed waiters into the count without the gate', inst, self.ACC)
                m['folded'] = eng.mkexpr('sub', g, m['gone0'])
            else:
                if d != (None, 1) or m['reg']:
                    return self.rep(eng, st, 'registers as %s waiters' % eng.show(d), inst, self.ACC)
                m['reg'] = 1
        elif addr == self.A_gone:
            if m.get('folded') and v != NULL:
                return self.rep(eng, st, 'does not reset the departed count after folding it in', inst, self.ACC)

    def on_throw(self, eng, st):
        pass

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if self.subs(st):
            return self.rep(eng, st, 'leaves with the internal lock %s held' % ', '.join(self.subs(st)), inst)
        if m['early']:
            if m['reg'] or m['um']:
                self.rep(eng, st, 'fails after registering without cleaning up', inst, self.ACC)
            elif kind == 'return' and v != (None, E['EINVAL']):
                self.rep(eng, st, 'a failure is reported as %s' % nm(v), inst)
            return
        if not m['reg']:
            if m['um']:
                return self.rep(eng, st, 'releases the mutex without waiting', inst)
            if kind == 'return' and v == NULL:
                return self.rep(eng, st, 'returns success without waiting', inst)
            return
        if not m['dereg']:
            return self.rep(eng, st, 'leaves without taking itself out of the waiter counts', inst, self.ACC)
        if m['mustopen'] == 1 and not m['opened']:
            return self.rep(eng, st, 'the last waiter of a batch leaves the gate closed: later waiters and signallers hang', inst, self.ACC)
        if m['mustopen'] == 2:
            z = eng.decide(st, 'eq', m['touend'], NULL)
            if z is None or bool(z) != bool(m['opened']):
                return self.rep(eng, st, 'whether the gate is opened does not depend on being the last waiter of the batch', inst, self.ACC)
        if m['um'] == 1 and not m['lm']:
            return self.rep(eng, st, 'leaves without having re-acquired the mutex', inst)
        if kind == 'unwind':
            if m['q'] != 'cancelled':
                return self.rep(eng, st, 'leaves by unwinding without a cancellation', inst)
            return
        if not const(v):
            return self.rep(eng, st, 'returns an unspecified value', inst)
        if m['q'] == 'cancelled':
            return self.rep(eng, st, 'a cancelled wait returns', inst)
        if m['um'] == 2:
            if v[1] != m['umerr']:
                self.rep(eng, st, 'a mutex that could not be released is reported as %s' % nm(v), inst)
            return
        want = {'granted': 0, 'failed': E['EINVAL'], 'expired': E['ETIMEDOUT']}.get(m['q'])
        if want is None:
            return self.rep(eng, st, 'returns %s without having waited' % nm(v), inst)
        if m['mxerr']:
            if v[1] != m['mxerr'] and v[1] != want or v[1] == 0:
                self.rep(eng, st, 'failing to re-acquire the mutex is reported as %s' % nm(v), inst)
            return
        if v[1] != want:
            self.rep(eng, st, 'a wait that was %s returns %s' % (m['q'], nm(v)), inst)


class CondSignal(CondBase):
    """pthread_cond_signal / broadcast on an initialised condition variable."""
    PROPS = ('C02',)

    def __init__(self, all_):
        super().__init__('broadcast' if all_ else 'signal')
        self.all = all_

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'posted': NULL, 'posts': 0, 'judged': 0, 'issue': NULL, 'err': 0, 'entered': 0, 'nowait': 0, 'gatein': 0})

    def p_mutex_lock(self, eng, st, op, o, args, inst):
        if o != self.A_mtx:
            return self.p_any(eng, st, op, o, args, inst)
        if 'mtx' in self.subs(st) or st.mon['entered']:
            return self.rep(eng, st, 'locks the unblock lock twice', inst) or []
        t = st.fork()
        t.mon['err'] = E['EINVAL']
        st.mon['entered'] = 1
        return [(t, 'EINVAL')] + [(s, 0) for s in self.enter_mtx(eng, st, inst)]

    def p_semwait(self, eng, st, op, o, args, inst):
        if o != self.A_gate:
            return self.p_any(eng, st, op, o, args, inst)
        t = st.fork()
        t.mon['err'] = E['EINVAL']
        self.enter_gate(eng, st, inst)
        st.mon['gatein'] = 1
        return [(t, 'EINVAL'), (st, 0)]

    def p_sem_wait(self, eng, st, op, o, args, inst):
        return self.rep(eng, st, 'uses a cancellable wait: signalling must not be a cancellation point', inst) or []

    def p_sem_post(self, eng, st, op, o, args, inst):
        if o == self.A_queue:
            return self.post(eng, st, (None, 1), inst)
        if o == self.A_gate and self.give(st, 'gate'):
            st.mon['gatein'] = 0
            return [(st, 0)]
        return self.rep(eng, st, 'opens the gate while a batch may be in progress', inst) or []

    def p_sem_post_multiple(self, eng, st, op, o, args, inst):
        if o != self.A_queue:
            return self.p_any(eng, st, op, o, args, inst)
        return self.post(eng, st, args[1], inst)

    def post(self, eng, st, n, inst):
        m = st.mon
        if eng.decide(st, 'sle', n, NULL) is True:
            return self.rep(eng, st, 'posts no wake-up', inst) or []
        m['posted'] = eng.mkexpr('add', m['posted'], n)
        m['posts'] = 1
        return [(st, 0)]

    def p_mutex_unlock(self, eng, st, op, o, args, inst):
        m = st.mon
        if o != self.A_mtx:
            return self.p_any(eng, st, op, o, args, inst)
        if 'mtx' not in self.subs(st):
            return self.rep(eng, st, 'unlocks the unblock lock it does not hold', inst) or []
        tou, gone, blk = [eng.load(st, a, 4, inst) for a in (self.A_tou, self.A_gone, self.A_blocked)]
        sub = lambda a, b: eng.mkexpr('sub', a, b)
        n = sub(tou, m['tou0'])
        w0 = sub(m['blk0'], m['gone0'])
        w1 = sub(blk, gone)
        if sub(sub(w0, w1), n) != NULL:
            return self.rep(eng, st, 'the waiters taken off the waiting count (%s) are not the wake-ups added to the batch (%s)' % (eng.show(sub(w0, w1)), eng.show(n)), inst) or []
        if n == NULL:
            if m['err']:
                pass
            elif m['gatein'] and 'gate' in self.subs(st):
                return self.rep(eng, st, 'keeps the gate closed without starting a batch', inst) or []
            else:
                # nobody may be waiting
                none = eng.decide(st, 'sle', m['blk0'], m['gone0'])
                if none is None:
                    none = eng.decide(st, 'eq', w0, NULL) or eng.decide(st, 'sge', m['gone0'], m['blk0'])
                if none is not True:
                    return self.rep(eng, st, 'wakes nobody although there may be a waiter', inst) or []
            m['nowait'] = 1
        else:
            if m['err']:
                return self.rep(eng, st, 'changes the accounts after a failure', inst) or []
            b, g = m['blk0'], m['gone0']
            if not self.below(eng, st, g, b):
                return self.rep(eng, st, 'takes a waiter off the waiting count although there may be none', inst) or []
            if self.all and w1 != NULL:
                return self.rep(eng, st, 'a broadcast leaves waiters behind', inst) or []
            if not self.all and n != (None, 1):
                return self.rep(eng, st, 'a signal adds %s wake-ups' % eng.show(n), inst) or []
            if m['batch'] and 'gate' in self.subs(st):
                return self.rep(eng, st, 'closes the gate twice', inst) or []
            if not m['batch']:
                if 'gate' not in self.subs(st):
                    return self.rep(eng, st, 'starts a batch without closing the gate', inst) or []
                self.give(st, 'gate')       # now owned by the batch
                if gone != NULL:
                    return self.rep(eng, st, 'starts a batch without folding in the waiters that have gone', inst) or []
        m['issue'] = n
        m['judged'] = 1
        self.give(st, 'mtx')
        m['batch'] = 0
        return [(st, 0)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if kind != 'return' or not const(v):
            return self.rep(eng, st, 'does not return a status', inst)
        if self.subs(st):
            return self.rep(eng, st, 'leaves with %s held' % ', '.join(self.subs(st)), inst)
        if m['err']:
            if v[1] != m['err']:
                self.rep(eng, st, 'a failure is reported as %s' % nm(v), inst)
            return
        if not m['judged']:
            # a statically initialised, never used condition variable has no waiters; other exits must have looked
            return self.rep(eng, st, 'returns %s without looking for waiters' % nm(v), inst)
        if eng.mkexpr('sub', m['posted'], m['issue']) != NULL:
            return self.rep(eng, st, 'posts %s wake-ups for %s waiters selected' % (eng.show(m['posted']), eng.show(m['issue'])), inst)
        if v[1] != 0:
            return self.rep(eng, st, 'returns %s on a path with no failure' % nm(v), inst)


class CondArgs(CondBase):
    """invalid arguments, and the never-used static initialiser"""
    PROPS = ('C01', 'C02', 'C03')

    def __init__(self, case, want):
        super().__init__(case)
        self.want = want

    def setup(self, eng, st, args):
        a = args[0]
        self.C = a
        if self.case == 'null pointer':
            eng.substitute(st, a[0], NULL)
        elif self.case == 'destroyed':
            st.facts[a[0]] = (-INF, INF, frozenset([0]))
            st.mem[a] = (NULL, 8)
        elif self.case == 'static':
            st.facts[a[0]] = (-INF, INF, frozenset([0]))
            st.mem[a] = ((None, -1), 8)
        elif self.case == 'no time':
            super().setup(eng, st, args)
            eng.substitute(st, args[2][0], NULL)

    def private(self, *a):
        return False

    def on_deref(self, eng, st, addr, lab, inst, how):
        from ..contract import Contract
        return Contract.on_deref(self, eng, st, addr, lab, inst, how)

    def p_any(self, eng, st, op, o, args, inst):
        return self.rep(eng, st, 'operates on an unusable condition variable or without its arguments', inst) or []

    def on_exit(self, eng, st, kind, v, inst):
        if v != (None, self.want):
            self.rep(eng, st, '%s: returns %s, not %s' % (self.case, nm(v), nm(self.want)), inst)


class CondInit(Comp):
    PROPS = ('C03',)
    KIND = {'sem_init': 'semaphore', 'mutex_init': 'mutex'}

    def setup(self, eng, st, args):
        st.mon.update({'C': args[0], 'parts': (), 'linked': 0, 'ps': NULL})
        self.C = args[0]
        if self.case == 'null pointer':
            eng.substitute(st, args[0][0], NULL)
            return
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        st.mem[args[0]] = (self.sym(eng, st, 'old'), 8)
        self.A_head, self.A_tail = ('g:ptw32_cond_list_head', 0), ('g:ptw32_cond_list_tail', 0)
        outs = []
        for s in self.attrs(eng, st, args[1]):
            t = s.fork()
            s.mem[self.A_head] = (NULL, 8)
            s.mem[self.A_tail] = (NULL, 8)
            s.mon['oldtail'] = NULL
            tl = self.ptr(eng, t, 'tail')
            t.mem[self.A_tail] = (tl, 8)
            t.mon['oldhead'] = self.ptr(eng, t, 'head')
            t.mem[self.A_head] = (t.mon['oldhead'], 8)
            t.mem[field(eng, tl, CV, 'next')] = (NULL, 8)
            t.mon['oldtail'] = tl
            outs += [s, t]
        return outs

    def attrs(self, eng, st, a):
        t, u = st.fork(), st.fork()
        eng.substitute(t, a[0], NULL)
        for s in (st, u):
            s.facts[a[0]] = (-INF, INF, frozenset([0]))
        u.mem[a] = (NULL, 8)
        at = self.ptr(eng, st, 'attr')
        st.mem[a] = (at, 8)
        v = self.sym(eng, st, 'ps', 0, 1)
        st.mem[field(eng, at, 'pthread_condattr_t_', 'pshared')] = (v, 4)
        st.mon['ps'] = v
        return [st, t, u]

    def stable(self, eng, st, addr, lab):
        return True

    def p_sem_init(self, eng, st, op, o, args, inst):
        t = st.fork()
        t.mon['perr'] = E['ENOSPC']
        l = eng.label(o)
        want = {'semBlockLock': 1, 'semBlockQueue': 0}.get(l[1] if l else None)
        if want is None or args[2] != (None, want) or args[1] != NULL:
            return self.rep(eng, st, 'the %s semaphore starts with %s units' % (l[1] if l else '?', eng.show(args[2])), inst) or []
        st.mon['parts'] += (('P', l[1]),)
        return [(t, 'ENOSPC'), (st, 0)]

    def p_mutex_init(self, eng, st, op, o, args, inst):
        t = st.fork()
        t.mon['perr'] = E['ENOMEM']
        st.mon['parts'] += (('P', eng.label(o)[1]),)
        return [(t, 'ENOMEM'), (st, 0)]

    def p_sem_destroy(self, eng, st, op, o, args, inst):
        x = ('P', eng.label(o)[1])
        if x not in st.mon['parts']:
            return self.rep(eng, st, 'destroys a part that was not created', inst) or []
        st.mon['parts'] = tuple(y for y in st.mon['parts'] if y != x)
        return [(st, 0)]
    p_mutex_destroy = p_sem_destroy

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr in (getattr(self, 'A_head', 0), getattr(self, 'A_tail', 0)) and not any(l == ('g:ptw32_cond_list_lock', 0) for _, l, n in self.mcs(st)):
            self.rep(eng, st, '%s of the list of condition variables without its lock' % how, inst)
            return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v) or kind != 'return':
            return self.rep(eng, st, 'returns an unspecified value', inst)
        r = v[1]
        if self.case == 'null pointer':
            if r != E['EINVAL']:
                self.rep(eng, st, 'a null pointer is not refused with EINVAL', inst)
            return
        live = [x[2] for x in self.live(st)]
        shared = eng.decide(st, 'eq', m['ps'], (None, K['PTHREAD_PROCESS_SHARED']))
        cur = peek(st, m['C'])
        if r == 0:
            if shared is not False:
                return self.rep(eng, st, 'a process-shared condition variable is not refused', inst)
            if live != [cur]:
                return self.rep(eng, st, 'reports success without storing the new condition variable (or leaks)', inst)
            if {x[1] for x in m['parts']} != {'semBlockLock', 'semBlockQueue', 'mtxUnblockLock'}:
                return self.rep(eng, st, 'an incomplete condition variable is reported as created', inst)
            for f in ('nWaitersBlocked', 'nWaitersGone', 'nWaitersToUnblock'):
                if self.val(eng, st, cur, CV, f, 4) != NULL:
                    return self.rep(eng, st, 'the new condition variable starts with %s not zero' % f, inst)
            if peek(st, self.A_tail) != cur or self.val(eng, st, cur, CV, 'prev', 8) != m['oldtail'] or self.val(eng, st, cur, CV, 'next', 8) != NULL \
                    or (self.val(eng, st, m['oldtail'], CV, 'next', 8) != cur or peek(st, self.A_head) != m['oldhead'] if m['oldtail'] != NULL else peek(st, self.A_head) != cur):
                return self.rep(eng, st, 'the new condition variable is not linked into the list properly', inst)
            return
        if live or m['parts']:
            return self.rep(eng, st, 'fails (%s) and leaks a part' % nm(r), inst)
        if cur in m.get('gone', ()):
            return self.rep(eng, st, 'fails (%s) leaving a pointer to freed memory' % nm(r), inst)
        ok = {E['ENOSYS']: shared, E['EINVAL']: shared, E['ENOMEM']: self.failed_any(st, 'mem') or m.get('perr') == E['ENOMEM'], E['ENOSPC']: m.get('perr') == E['ENOSPC'],
              E['EAGAIN']: self.failed_any(st) or m.get('perr')}.get(r)
        if not ok:
            return self.rep(eng, st, 'refuses with %s on a path with no such condition' % nm(r), inst)


class CondDestroy(CondBase):
    PROPS = ('C03',)

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        st.mon.update({'dead': (), 'err': 0, 'closed': 0, 'busy': 0, 'perr': 0})
        cv = self.cv
        self.A_head, self.A_tail = ('g:ptw32_cond_list_head', 0), ('g:ptw32_cond_list_tail', 0)
        self.A_next, self.A_prev = field(eng, cv, CV, 'next'), field(eng, cv, CV, 'prev')
        outs = []
        for first in (0, 1):
            for last in (0, 1):
                s = st.fork()
                p, n = self.ptr(eng, s, 'prev'), self.ptr(eng, s, 'next')
                s.mem[self.A_prev] = (NULL if first else p, 8)
                s.mem[self.A_next] = (NULL if last else n, 8)
                s.mem[self.A_head] = (cv if first else self.ptr(eng, s, 'head'), 8)
                s.mem[self.A_tail] = (cv if last else self.ptr(eng, s, 'tail'), 8)
                if not first:
                    s.mem[field(eng, p, CV, 'next')] = (cv, 8)
                    s.rel = s.rel | {('ne', self.ptr(eng, s, 'head'), cv)}
                if not last:
                    s.mem[field(eng, n, CV, 'prev')] = (cv, 8)
                    s.rel = s.rel | {('ne', self.ptr(eng, s, 'tail'), cv)}
                for x in ('p', 'n', 'h'):
                    pass
                s.rel = s.rel | {('ne', p, cv), ('ne', n, cv)}
                s.mon['lp'] = NULL if first else p
                s.mon['ln'] = NULL if last else n
                outs.append(s)
        return outs

    def stable(self, eng, st, addr, lab):
        return addr not in (self.A_gone, self.A_tou, self.A_blocked)

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr in (self.A_head, self.A_tail) and not any(l == ('g:ptw32_cond_list_lock', 0) for _, l, n in self.mcs(st)):
            self.rep(eng, st, '%s of the list of condition variables without its lock' % how, inst)
            return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def p_semwait(self, eng, st, op, o, args, inst):
        if o != self.A_gate:
            return self.p_any(eng, st, op, o, args, inst)
        t = st.fork()
        t.mon['err'] = E['EINVAL']
        self.enter_gate(eng, st, inst)
        return [(t, 'EINVAL'), (st, 0)]

    def p_sem_wait(self, eng, st, op, o, args, inst):
        return self.rep(eng, st, 'is a cancellation point while holding internal locks', inst) or []

    def p_mutex_trylock(self, eng, st, op, o, args, inst):
        if o != self.A_mtx:
            return self.p_any(eng, st, op, o, args, inst)
        t = st.fork()
        t.mon['err'] = E['EBUSY']
        gated = 'gate' in self.subs(st)
        outs = [(t, 'EBUSY')]
        for s in self.enter_mtx(eng, st, inst):
            if gated and s.mon['batch']:
                continue        # the gate is open, so no batch is in progress
            outs.append((s, 0))
        return outs

    def p_mutex_lock(self, eng, st, op, o, args, inst):
        if o != self.A_mtx:
            return self.p_any(eng, st, op, o, args, inst)
        if 'gate' in self.subs(st):
            return self.rep(eng, st, 'waits for the unblock lock while holding the gate (a signaller holds them in the other order: deadlock)', inst) or []
        return [(s, 0) for s in self.enter_mtx(eng, st, inst)]

    def p_sem_post(self, eng, st, op, o, args, inst):
        if not self.give(st, 'gate') or o != self.A_gate:
            return self.rep(eng, st, 'posts a semaphore it has not taken', inst) or []
        return [(st, 0)]

    def p_mutex_unlock(self, eng, st, op, o, args, inst):
        if o != self.A_mtx or not self.give(st, 'mtx'):
            return self.rep(eng, st, 'unlocks a mutex it does not hold', inst) or []
        return [(st, 0)]

    def idle(self, eng, st):
        b, g = st.mon.get('blk0'), st.mon.get('gone0')
        if b is None or g is None:
            return None
        return eng.decide(st, 'sle', b, g)

    def p_sem_destroy(self, eng, st, op, o, args, inst):
        m = st.mon
        n = {self.A_gate: 'gate', self.A_queue: 'queue', self.A_mtx: 'mtx'}.get(o)
        if n is None or ('P', n) in m['dead']:
            return self.rep(eng, st, 'destroys something else, or a part twice', inst) or []
        if not m['dead'] and not ({'gate', 'mtx'} <= set(self.subs(st)) and self.idle(eng, st) is True):
            return self.rep(eng, st, 'destroys a condition variable that may have waiters', inst) or []
        if n == 'mtx' and 'mtx' in self.subs(st):
            return self.rep(eng, st, 'destroys the unblock lock while holding it (always refused)', inst) or []
        m['dead'] += (('P', n),)
        t = st.fork()
        t.mon['perr'] = E['EBUSY']
        return [(t, 'EBUSY'), (st, 0)]
    p_mutex_destroy = p_sem_destroy

    def free_foreign(self, eng, st, v, inst):
        if v != self.cv:
            return self.rep(eng, st, 'frees something other than the condition variable', inst)
        if len(st.mon['dead']) != 3:
            return self.rep(eng, st, 'frees a condition variable some of whose parts are still alive', inst)
        super().free_foreign(eng, st, v, inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v) or kind != 'return':
            return self.rep(eng, st, 'does not return a status', inst)
        r = v[1]
        if self.mcs(st):
            return self.rep(eng, st, 'returns with an internal lock held', inst)
        freed = self.cv in m.get('freed', ())
        cur = peek(st, self.C)
        if freed:
            if cur != NULL:
                return self.rep(eng, st, 'leaves the destroyed condition variable usable', inst)
            lp, ln = m['lp'], m['ln']
            bad = (peek(st, self.A_head) == self.cv or peek(st, self.A_tail) == self.cv)
            if lp == NULL:
                bad = bad or peek(st, self.A_head) != ln
            else:
                bad = bad or self.val(eng, st, lp, CV, 'next', 8) != ln
            if ln == NULL:
                bad = bad or peek(st, self.A_tail) != lp
            else:
                bad = bad or self.val(eng, st, ln, CV, 'prev', 8) != lp
            if bad:
                return self.rep(eng, st, 'the freed condition variable is still reachable from the list of condition variables', inst)
            if r != 0 and not m['perr']:
                return self.rep(eng, st, 'a completed destroy returns %s' % nm(r), inst)
            return
        if r == 0:
            return self.rep(eng, st, 'reports success without destroying', inst)
        if m['dead'] or cur != self.cv:
            return self.rep(eng, st, 'reports %s after destroying parts' % nm(r), inst)
        if self.subs(st):
            return self.rep(eng, st, 'a refused destroy leaves %s held' % ', '.join(self.subs(st)), inst)
        if m['err']:
            if r != m['err']:
                self.rep(eng, st, 'a failure is reported as %s' % nm(r), inst)
            return
        b, g = m.get('blk0'), m.get('gone0')
        if r == E['EBUSY'] and m.get('gaveup'):
            return      # the gate is taken: somebody is registering or has yet to leave
        if r != E['EBUSY'] or b is None or g is None or not self.below(eng, st, g, b):
            return self.rep(eng, st, 'refuses with %s without having found a waiter' % nm(r), inst)


def J(props, entry, case, make, n=1):
    return {'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'make': make, 'min_sites': n, 'assumes': ASSUME}


JOBS = [
    J(('C01', 'C02', 'C04', 'I03'), 'pthread_cond_wait', '', lambda: CondWait(False), 8),
    J(('C01', 'C02', 'C04', 'W01', 'I03'), 'pthread_cond_timedwait', 'timed', lambda: CondWait(True), 8),
    J(('C02',), 'pthread_cond_signal', 'signal', lambda: CondSignal(False), 4),
    J(('C02',), 'pthread_cond_broadcast', 'broadcast', lambda: CondSignal(True), 4),
    J(('C03',), 'pthread_cond_init', 'valid', lambda: CondInit('valid'), 6),
    J(('C03',), 'pthread_cond_init', 'null pointer', lambda: CondInit('null pointer'), 0),
    J(('C03',), 'pthread_cond_destroy', '', lambda: CondDestroy(''), 6),
]
for _f in ('wait', 'timedwait', 'signal', 'broadcast', 'destroy'):
    for _c in ('null pointer', 'destroyed'):
        JOBS.append(J(('C03', 'C01' if 'wait' in _f else 'C02'), 'pthread_cond_' + _f, _c, lambda c=_c: CondArgs(c, E['EINVAL']), 0))
JOBS.append(J(('C01',), 'pthread_cond_timedwait', 'no time', lambda: CondArgs('no time', E['EINVAL']), 0))
for _f in ('signal', 'broadcast'):
    JOBS.append(J(('C02',), 'pthread_cond_' + _f, 'static', lambda: CondArgs('static', 0), 0))


class TimeChange(Comp):
    """Waking the waiters of every condition variable after a clock adjustment: the list is followed node by node, from either end."""
    PROPS = ('C05',)
    LOCK = ('g:ptw32_cond_list_lock', 0)

    def setup(self, eng, st, args):
        st.mon.update({'cur': '', 'done': 0, 'nxt': '', 'dir': '', 'failed1': 0, 'first': '', 'skipped': 0, 'whole': 0})
        self.ends = {('g:ptw32_cond_list_head', 0): 'next', ('g:ptw32_cond_list_tail', 0): 'prev'}

    def stable(self, eng, st, addr, lab):
        return addr not in self.ends

    def on_released(self, eng, st, lock, inst):
        m = st.mon
        if lock == self.LOCK:           # anything may happen to the list now
            m['whole'] = int(bool(m['first']) and not m['skipped'] and (m['first'][1] == NULL or bool(m['done'] and m['nxt'] and m['nxt'][1] == NULL)))
            m.update({'cur': '', 'done': 0, 'nxt': '', 'dir': '', 'first': '', 'skipped': 0})

    def guarded(self, st):
        return any(l == self.LOCK for _, l, n in self.mcs(st))

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr in self.ends or (lab and lab[0] == CV):
            if not self.guarded(st):
                self.rep(eng, st, '%s of the list of condition variables without its lock' % how, inst)
                return STOP
            if how != 'load':
                self.rep(eng, st, 'changes the list of condition variables', inst)
                return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if addr in self.ends:
            if m['cur'] and m['dir'] != self.ends[addr]:
                return [(st, self.ptr(eng, st, 'otherend'))]
            if m['first']:
                return [(st, m['first'][1])]
            self.sites.add((eng.where(inst), 'list'))
            m['dir'] = self.ends[addr]
            key, tag = 'first', 'node'
        elif m['cur'] and m['cur'][1] != NULL and addr == eng.addoff(m['cur'][1], eng.p.field_off(CV, m['dir'])):
            if m['nxt']:
                return [(st, m['nxt'][1])]
            key, tag = 'nxt', 'link'
        elif m['nxt'] and m['nxt'][1] != NULL and addr == eng.addoff(m['nxt'][1], eng.p.field_off(CV, m['dir'])):
            if not m['done']:
                return self.rep(eng, st, 'goes on in the list without having woken the waiters of the condition variable before', inst) or []
            m['cur'], m['done'], m['nxt'] = m['nxt'], 0, ''
            m['skipped'] = 1
            key, tag = 'nxt', 'link'
        else:
            return None
        v = eng.sitesym(st, inst, tag)
        t = st.fork()
        st.facts[v[0]] = (-INF, INF, frozenset(BADP))
        t.facts.pop(v[0], None)
        res = []
        for s, w in ((st, v), (t, NULL)):
            s.mon[key] = ('K', w)
            if key == 'first':
                s.mon['cur'] = ('K', w)
            s.note('%s: %s' % (eng.where(inst), 'the list ends' if w == NULL else 'a condition variable on the list'))
            res.append((s, w))
        return res

    def p_cond_broadcast(self, eng, st, op, o, args, inst):
        m = st.mon
        self.sites.add((eng.where(inst), 'broadcast'))
        if not self.guarded(st):
            return self.rep(eng, st, 'wakes the waiters without holding the list: the condition variable may be destroyed meanwhile', inst) or []
        x = peek(st, o)
        if m['done'] and m['nxt'] and x == m['nxt'][1] and x != NULL:
            m['cur'], m['nxt'] = m['nxt'], ''
        elif not m['cur'] or x != m['cur'][1] or m['done']:
            return self.rep(eng, st, 'wakes the waiters of something other than the next condition variable on the list', inst) or []
        m['done'] = 1
        m['skipped'] = 0
        t = st.fork()
        t.mon['failed1'] = 1
        return [(t, 'EINVAL'), (st, 0)]

    def p_any(self, eng, st, op, o, args, inst):
        return self.rep(eng, st, 'does not wake the waiters', inst) or []

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with the list locked')
        if kind != 'return' or not const(v):
            return R('returns an unspecified value')
        if v[1] != (E['EAGAIN'] if m['failed1'] else 0):
            return R('reports %s although waking %s' % (nm(v), 'failed' if m['failed1'] else 'succeeded'))
        if m['failed1']:
            return
        if not m['whole']:
            return R('ends without having woken the waiters of every condition variable')


BADP = (0, -1, -2, -3)
JOBS.append({'kind': 'engine', 'props': ('C05',), 'entry': 'pthread_timechange_handler_np', 'case': '', 'min_sites': 2, 'assumes': ASSUME, 'make': lambda: TimeChange('')})
