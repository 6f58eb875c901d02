"""Semaphores: unit conservation, lock discipline, outcome reporting (properties S*)."""
from ..engine import NULL, INF, THROW, AnalysisBroken
from ..common import Base, E, K, const, field, peek, ename, WAIT_TIMEOUT
from ..num import Num

SM = 'sem_t_'


def nm(r):
    return 'success' if r == 0 else ename((None, r))


class SemOp(Base):
    fail_setevent = True

    def __init__(self, fn, op, case='valid', fail_wait=True):
        super().__init__()
        self.fn = fn
        self.op = op            # wait | timedwait | trywait | post | post_multiple | getvalue | destroy
        self.case = case
        self.fail_wait = fail_wait
        self.sites = set()

    def models(self):
        m = super().models()
        m['pthreadCancelableWait'] = self.m_cwait
        m['pthreadCancelableTimedWait'] = self.m_cwait
        m['pthread_testcancel'] = self.m_testcancel
        m['ptw32_relmillisecs'] = self.m_rel
        return m

    def m_rel(self, eng, st, inst, args, name, cv):
        if self.op != 'timedwait' or args[0] != st.mon['abs'][1]:
            return self.late(eng, st, 'computes the timeout from something other than the given time', inst) or []
        v = eng.sitesym(st, inst, 'ms')
        st.mon['ms'] = ('K', v)
        st.facts[v[0]] = (0, INF, frozenset())
        return [(st, v)]

    def m_testcancel(self, eng, st, inst, args, name, cv):
        t = st.fork()
        t.note('%s: a pending cancellation is acted on' % eng.where(inst))
        st.mon['tc'] = 1
        return [(t, THROW), (st, None)]

    def point(self, eng, st, msg, inst):
        self.report(eng, st, msg, inst)
        self.reports[-1]['prop'], self.reports[-1]['case'] = ('I03',), self.case
        st.mon['!stop'] = 1

    def m_cwait(self, eng, st, inst, args, name, cv):
        self.before_wait(eng, st, args[0], args[1] if len(args) > 1 else (None, -1), inst, True)
        if st.mon.get('!stop'):
            return []
        outs = []
        cases = [(0, 'is granted'), (E['EINVAL'], 'fails'), (THROW, 'is cancelled')]
        if name == 'pthreadCancelableTimedWait' and args[1] != (None, -1):
            cases.append((E['ETIMEDOUT'], 'times out'))
        for r, txt in cases:
            s = st.fork()
            s.note('%s: cancelable wait %s' % (eng.where(inst), txt))
            eng.invalidate(s)
            if r == 0:
                s.mon['got'] += 1
                s.mon['tc'] = 1
            elif r is THROW:
                s.mon['canc'] = 1
            else:
                s.mon['werr'] = r
            outs.append((s, THROW if r is THROW else (None, r)))
        return outs

    def late(self, eng, st, msg, inst):
        self.rep(eng, st, 'W01', msg, inst)
        self.reports[-1]['prop'] = ('W01',)

    def rep(self, eng, st, prop, msg, inst=None):
        self.report(eng, st, msg, inst)
        ps = {prop}
        if self.op in ('wait', 'timedwait', 'trywait', 'post', 'post_multiple', 'getvalue', 'iwait'):
            ps.add('S01')
        if self.op in ('wait', 'timedwait', 'iwait') and (st.mon['canc'] or st.mon['werr']):
            ps.add('S02')
        if self.op in ('trywait', 'post', 'post_multiple'):
            ps.add('S04')
        if self.op in ('destroy',):
            ps.add('S03')
        self.reports[-1]['prop'] = tuple(ps)
        self.reports[-1]['case'] = self.case
        st.mon['!stop'] = 1

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'net': 0, 'got': 0, 'rel': 0, 'werr': 0, 'canc': 0, 'sections': 0, 'relfail': 0, 'tries': 0, 'tc': 0, 'freed': 0, 'closed': 0, 'closefail': 0, 'busy': 0,
                  'waits': 0, 'ms': '', 'abs': ('K', args[1] if len(args) > 1 else NULL)})
        if self.op == 'getvalue':
            m['sv'] = args[1]
            st.facts[args[1][0]] = (-INF, INF, frozenset([0]))
        if self.op == 'post_multiple':
            m['cnt'] = args[1]
        self.S = args[0]
        st.facts[self.S[0]] = (-INF, INF, frozenset([0]))
        if self.case == 'null':
            eng.substitute(st, self.S[0], NULL)
            return None
        if self.case == 'nullobj':
            st.mem[self.S] = (NULL, 8)
            return None
        s = (eng.sym('arg', 'sm', 's'), 0)
        st.facts[s[0]] = (-INF, INF, frozenset([0]))
        st.mem[self.S] = (s, 8)
        self.s = s
        self.A_val = field(eng, s, SM, 'value')
        self.A_lock = field(eng, s, SM, 'lock')
        self.A_sem = field(eng, s, SM, 'sem')
        h = (eng.sym('arg', 'sh', 's->sem'), 0)
        st.facts[h[0]] = (-INF, INF, frozenset([0]))
        st.mem[self.A_sem] = (h, 8)
        self.h = h
        return None

    def stable(self, eng, st, addr, lab):
        return addr == self.S or addr == getattr(self, 'A_sem', None)

    def private(self, eng, st, addr, lab):
        sv = st.mon.get('sv')       # the caller's result variable
        return sv is not None and addr == sv

    def locked(self, st):
        return any(l == self.A_lock for _, l, n in self.mcs(st))

    def obj(self):
        return hasattr(self, 's')

    def on_deref(self, eng, st, addr, lab, inst, how):
        if self.obj() and addr == self.A_val and not self.locked(st):
            self.rep(eng, st, 'S01', '%s of the semaphore value without holding its lock' % how, inst)
            if how == 'load':
                st.mon.pop('!stop', None)       # what is read may be outdated: go on with any value
            return

    def on_acquired(self, eng, st, lock, inst):
        if self.obj() and lock == self.A_lock:
            st.mon['sections'] += 1
            self.sites.add((eng.where(inst), 'critical section'))
            v = eng.sitesym(st, inst, 'value%d' % st.mon['sections'])
            # representation invariant: the value never exceeds the maximum
            eng._mergefact(st.facts, v[0], (-INF, K['SEM_VALUE_MAX'], frozenset()))
            st.mem[self.A_val] = (v, 4)
            st.mon['v0'] = v
            st.mon['ktok'] = 0

    def on_release(self, eng, st, lock, inst):
        if self.obj() and lock == self.A_lock:
            if st.mon['freed']:
                return self.rep(eng, st, 'S03', 'the semaphore is freed while its lock is held', inst)
            v = eng.load(st, self.A_val, 4, inst)
            v0 = st.mon['v0']
            d = eng.mkexpr('sub', v, v0)
            if not const(d):
                if self.op == 'post_multiple':
                    st.mon['delta'] = d
                    st.mon['after'] = v
                    st.mon['before'] = v0
                    return
                return self.rep(eng, st, 'S01', 'leaves the semaphore value changed by an unknown amount', inst)
            st.mon['net'] += d[1]
            st.mon['after'] = v
            st.mon['before'] = v0
            st.mon['delta'] = d
            if st.mon['sections'] == 1:
                st.mon['after1'] = v

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        if not self.obj():
            return
        if name == 'ReleaseSemaphore' and args[0] == self.h:
            self.sites.add((eng.where(inst), 'wake-up'))
            if ret == NULL:
                m['relfail'] = 1
                return
            if not self.locked(st):
                return self.rep(eng, st, 'S01', 'hands a unit to a waiter without holding the semaphore lock', inst)
            if const(args[1]):
                m['rel'] += args[1][1]
            else:
                m['relsym'] = args[1]
        if name == 'CloseHandle' and args[0] == self.h:
            if ret == NULL:
                m['closefail'] = 1
            elif m['closed']:
                return self.rep(eng, st, 'S03', 'closes the kernel semaphore twice', inst)
            else:
                m['closed'] = 1
                if self.op != 'destroy':
                    return self.rep(eng, st, 'S03', 'closes the kernel semaphore', inst)
                if self.locked(st):
                    v = eng.load(st, self.A_val, 4, inst)
                    if eng.decide(st, 'sge', v, NULL) is not True:
                        return self.rep(eng, st, 'S03', 'destroys the semaphore although threads may be waiting on it', inst)
                else:
                    return self.rep(eng, st, 'S03', 'closes the kernel semaphore without holding the lock', inst)

    def on_free(self, eng, st, v, inst):
        if self.obj() and v == self.s:
            if st.mon['freed']:
                return self.rep(eng, st, 'S03', 'frees the semaphore twice', inst)
            if self.op != 'destroy' or not st.mon['closed']:
                return self.rep(eng, st, 'S03', 'frees a semaphore that was not shut down', inst)
            st.mon['freed'] = 1

    def before_wait(self, eng, st, h, ms, inst, through=False):
        m = st.mon
        if not self.obj():
            return
        if h != self.h:
            return self.rep(eng, st, 'S01', 'waits on something other than the semaphore', inst)
        self.sites.add((eng.where(inst), 'wait'))
        if ms == (None, 0) and not through:
            return                       # poll
        m['waits'] += 1
        if self.locked(st) or self.mcs(st):
            return self.rep(eng, st, 'S01', 'blocks while holding the semaphore lock', inst)
        if self.op not in ('wait', 'timedwait', 'iwait'):
            return self.rep(eng, st, 'S01', 'blocks', inst)
        if m['net'] != -1 or eng.decide(st, 'slt', m['after1'], NULL) is not True:
            return self.rep(eng, st, 'S01', 'blocks although a unit may be available or none was claimed', inst)
        want = m['ms'][1] if m['ms'] else (None, -1) if m['abs'][1] == NULL else None
        if self.op == 'timedwait' and (want is None or ms != want and eng.decide(st, 'eq', ms, want) is not True):
            return self.late(eng, st, 'waits with a timeout other than that of the given time', inst)
        if self.op != 'timedwait' and ms != (None, -1):
            return self.rep(eng, st, 'S01', 'an untimed wait has a time limit', inst)

    def after_wait(self, eng, st, h, ms, r, inst):
        if self.obj() and h == self.h:
            if r == 0:
                st.mon['got'] += 1
            elif ms == (None, -1):
                st.mon['werr'] = E['EINVAL']

    # keep the value readable inside a critical section across a poll
    def invalidate_keep(self, a, lab):
        return self.obj() and a == self.A_val

    def m_wait(self, eng, st, inst, args, name, cv):
        if self.op in ('wait', 'timedwait') and args[1] != NULL and self.obj() and args[0] == self.h:
            return self.point(eng, st, 'waits without listening for cancellation requests', inst) or []
        val = peek(st, self.A_val) if self.obj() and self.locked(st) else None
        outs = Base.m_wait(self, eng, st, inst, args, name, cv)
        if val is not None:
            for s, _ in outs:
                v2 = s.mon.get('cur')
                s.mem.setdefault(self.A_val, (val, 4))
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if self.mcs(st):
            return self.rep(eng, st, 'S01', 'leaves (%s) with the semaphore lock held' % kind, inst)
        if not self.obj():
            if kind == 'return' and (not const(v) or v[1] != -1 or self.errno(st) != (None, E['EINVAL'])):
                if self.op in ('timedwait', 'destroy'):
                    return self.rep(eng, st, 'S04', 'an invalid semaphore is not refused with -1/EINVAL', inst)
            return
        if kind == 'unwind':
            if m['sections'] == 0:
                return
            m['canc'] = 1
            return self.failed(eng, st, 'a cancelled wait', inst)
        if not const(v) or v[1] not in (0, -1):
            return self.rep(eng, st, 'S04', 'returns %s instead of 0 or -1' % eng.show(v), inst)
        r = v[1]
        er = self.errno(st)
        if r == -1:
            if er is None or not const(er) or er[1] == 0:
                return self.rep(eng, st, 'S04', 'returns -1 without setting errno', inst)
            er = er[1]
        getattr(self, 'exit_' + self.op)(eng, st, r, er, inst)

    def failed(self, eng, st, what, inst):
        m = st.mon
        timedout = m['werr'] == E['ETIMEDOUT'] and not m['canc']
        if m['got'] and not timedout and m['net'] == -1 and m['rel'] == 0:
            return      # the library's documented choice: cancelled just after the unit was taken
        if m['net'] != 0:
            return self.rep(eng, st, 'S01', '%s leaves the semaphore value changed by %+d' % (what, m['net']), inst)
        if m['got'] == 0:
            if m['rel'] != 0:
                return self.rep(eng, st, 'S01', '%s hands out a unit it never had' % what, inst)
            return
        # it was granted a unit by a post: the unit has to go to the next waiter or back to the value
        pos = eng.decide(st, 'sgt', m['after'], NULL)
        if m['got'] - m['rel'] != (0 if pos is False else 1 if pos is True else None):
            return self.rep(eng, st, 'S01', '%s swallows a unit that a post had granted to it' % what, inst)

    def exit_wait(self, eng, st, r, er, inst):
        m = st.mon
        if r == 0:
            if self.op in ('wait', 'timedwait') and not m['tc']:
                return self.point(eng, st, 'succeeds without having looked for a pending cancellation request', inst)
            if m['net'] != -1:
                return self.rep(eng, st, 'S01', 'a successful wait changes the value by %+d' % m['net'], inst)
            neg = eng.decide(st, 'slt', m['after1'], NULL)
            if m['rel']:
                return self.rep(eng, st, 'S01', 'a successful wait hands out a unit', inst)
            if neg is False:
                if m['got'] != 0:
                    return self.rep(eng, st, 'S01', 'a wait that found a unit also consumes a grant', inst)
            elif neg is True:
                if m['got'] != 1:
                    return self.rep(eng, st, 'S01', 'returns success without having been granted a unit', inst)
            else:
                return self.rep(eng, st, 'S01', 'returns success without checking whether a unit was available', inst)
            return
        if self.op == 'timedwait' and m['werr'] and er != m['werr']:
            return self.rep(eng, st, 'S04', 'a wait that ended with %s reports %s' % (nm(m['werr']), nm(er)), inst)
        if self.op == 'wait' and m['werr'] and er != m['werr']:
            return self.rep(eng, st, 'S04', 'a wait that ended with %s reports %s' % (nm(m['werr']), nm(er)), inst)
        if not m['werr']:
            return self.rep(eng, st, 'S04', 'reports %s on a path with no such condition' % nm(er), inst)
        self.failed(eng, st, 'a failed wait', inst)

    exit_timedwait = exit_wait
    exit_iwait = exit_wait

    def exit_trywait(self, eng, st, r, er, inst):
        m = st.mon
        if m['sections'] != 1:
            return self.rep(eng, st, 'S01', 'trywait is not one atomic step', inst)
        pos = eng.decide(st, 'sgt', m['before'], NULL)
        if r == 0:
            if m['net'] != -1 or m['got'] or m['rel'] or pos is not True:
                return self.rep(eng, st, 'S01', 'trywait succeeds without taking an available unit', inst)
        else:
            if er != E['EAGAIN']:
                return self.rep(eng, st, 'S04', 'trywait reports %s' % nm(er), inst)
            if m['net'] or pos is not False:
                return self.rep(eng, st, 'S01', 'trywait fails although a unit is available, or changes the value', inst)

    def exit_post(self, eng, st, r, er, inst):
        m = st.mon
        if m['sections'] != 1:
            return self.rep(eng, st, 'S01', 'post is not one atomic step', inst)
        if r == 0:
            if m['net'] != 1:
                return self.rep(eng, st, 'S01', 'a successful post changes the value by %+d' % m['net'], inst)
            waiters = eng.decide(st, 'sle', m['after'], NULL)
            if waiters is None or m['rel'] != (1 if waiters else 0):
                return self.rep(eng, st, 'S01', 'a post hands out %d unit(s) to waiters when %s' % (m['rel'], {True: 'one is waiting', False: 'none is waiting', None: 'waiters were not looked for'}[waiters]), inst)
            if eng.decide(st, 'sle', m['after'], (None, K['SEM_VALUE_MAX'])) is not True:
                return self.rep(eng, st, 'S01', 'a post may exceed the maximum value', inst)
            return
        if m['net'] or m['rel']:
            return self.rep(eng, st, 'S01', 'a failed post leaves the value changed', inst)
        if m['relfail']:
            return
        if er != E['ERANGE'] or eng.decide(st, 'slt', m['before'], (None, K['SEM_VALUE_MAX'])) is not False:
            return self.rep(eng, st, 'S04', 'post reports %s on a path with no such condition' % nm(er), inst)

    def exit_post_multiple(self, eng, st, r, er, inst):
        m = st.mon
        cnt = m['cnt']
        if m['sections'] != 1:
            return self.rep(eng, st, 'S01', 'post is not one atomic step', inst)
        relv = m.get('relsym')
        d = m['delta']
        if r == 0:
            if d != cnt:
                return self.rep(eng, st, 'S01', 'a successful multiple post changes the value by %s' % eng.show(d), inst)
            w = eng.mkexpr('neg', m['before'])
            haswait = eng.decide(st, 'sgt', w, NULL)
            if haswait is None:
                return self.rep(eng, st, 'S01', 'a multiple post does not look for waiters', inst)
            if haswait is False:
                if relv or m['rel']:
                    return self.rep(eng, st, 'S01', 'a multiple post hands out units when none is waiting', inst)
                return
            right = relv is not None and (relv == w and eng.decide(st, 'sle', w, cnt) is True or relv == cnt and eng.decide(st, 'sge', w, cnt) is True)
            if not right:
                return self.rep(eng, st, 'S01', 'a multiple post hands out %s units to waiters' % (eng.show(relv) if relv else m['rel']), inst)
            return
        if const(d) is False or d[1] != 0:
            return self.rep(eng, st, 'S01', 'a failed multiple post leaves the value changed by %s' % eng.show(d), inst)
        if not m['relfail'] and er != E['ERANGE']:
            return self.rep(eng, st, 'S04', 'multiple post reports %s' % nm(er), inst)

    def exit_getvalue(self, eng, st, r, er, inst):
        m = st.mon
        if m['net'] or m['rel'] or m['got']:
            return self.rep(eng, st, 'S01', 'getvalue changes the semaphore', inst)
        sv = m['sv']
        if r == 0 and (m['sections'] != 1 or peek(st, sv) != m['before']):
            return self.rep(eng, st, 'S01', 'getvalue reports something other than the value read under the lock', inst)

    def exit_destroy(self, eng, st, r, er, inst):
        m = st.mon
        if m['net'] or m['rel']:
            return self.rep(eng, st, 'S03', 'destroy changes the value', inst)
        if r == 0:
            if not (m['freed'] and m['closed']):
                return self.rep(eng, st, 'S03', 'destroy reports success without releasing the kernel object and the memory', inst)
            return
        if m['freed'] or m['closed']:
            return self.rep(eng, st, 'S03', 'destroy reports %s after destroying the semaphore' % nm(er), inst)
        want = E['EINVAL'] if m['closefail'] else E['EBUSY']
        if er != want:
            return self.rep(eng, st, 'S03', 'destroy of a semaphore in use reports %s' % nm(er), inst)


class PostExact(SemOp):
    """sem_post / sem_post_multiple in exact integer arithmetic: refused exactly when the count would exceed the maximum"""

    def __init__(self, fn, op):
        super().__init__(fn, op)
        self.num = Num()

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        N = self.num
        self.count = N.lin(eng, (None, 1))
        if self.op == 'post_multiple':
            c = N.atom(eng, st, 'count', 1, K['SEM_VALUE_MAX'])
            eng.substitute(st, args[1][0], c)
            self.count = N.lin(eng, c)
        self.value = N.atom(eng, st, 'value', -(1 << 31) + 1, K['SEM_VALUE_MAX'])
        st.mon['given'] = ('K', NULL)

    def on_acquired(self, eng, st, lock, inst):
        if self.obj() and lock == self.A_lock:
            st.mon['sections'] += 1
            st.mem[self.A_val] = (self.value, 4)

    def on_release(self, eng, st, lock, inst):
        if self.obj() and lock == self.A_lock:
            st.mon['end'] = ('K', eng.load(st, self.A_val, 4, inst))

    def on_api(self, eng, st, name, args, ret, inst):
        if name == 'ReleaseSemaphore' and args[0] == self.h:
            self.sites.add((eng.where(inst), 'wake-up'))
            if ret == NULL:
                st.mon['relfail'] = 1
            elif st.mon['given'][1] != NULL:
                return self.rep(eng, st, 'S01', 'hands out units twice', inst)
            else:
                st.mon['given'] = ('K', args[1])

    def split(self, st, L):
        t = st.fork()
        return ([(st, True)] if self.num.add(st, L) else []) + ([(t, False)] if self.num.add(t, self.num.comb(L, ({}, 1), -1, -1)) else [])

    def same(self, st, L, M):
        D = self.num.comb(L, M, 1, -1)
        return self.num.entails(st, D) and self.num.entails(st, self.num.comb(D, ({}, 0), -1))

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        N = self.num
        if m['relfail'] or kind != 'return' or not const(v):
            return
        if m['sections'] != 1:
            return self.rep(eng, st, 'S01', 'post is not one atomic step', inst)
        what = 'a post' if self.op == 'post' else 'a multiple post'
        before, end = N.lin(eng, self.value), N.lin(eng, m['end'][1])
        total = N.comb(before, self.count)
        room = N.comb(({}, K['SEM_VALUE_MAX']), total, 1, -1)
        if v[1] != 0:
            if not N.entails(st, N.comb(room, ({}, 1), -1, -1)):
                return self.rep(eng, st, 'S04', '%s is refused although the count stays within the maximum' % what, inst)
            if not self.same(st, end, before) or m['given'][1] != NULL:
                return self.rep(eng, st, 'S01', '%s that fails changes the count or hands out units' % what, inst)
            return
        if not N.entails(st, room):
            return self.rep(eng, st, 'S04', '%s beyond the maximum value succeeds' % what, inst)
        if not self.same(st, end, total):
            return self.rep(eng, st, 'S01', '%s does not add exactly the posted number of units' % what, inst)
        given = N.lin(eng, m['given'][1])
        for t, free in self.split(st, before):
            if free:
                if not self.same(t, given, ({}, 0)):
                    return self.rep(eng, t, 'S01', '%s hands out units when none is waiting' % what, inst)
                continue
            for u, few in self.split(t, total):
                if not self.same(u, given, N.comb(before, ({}, 0), -1) if few else self.count):
                    return self.rep(eng, u, 'S01', '%s hands out more or fewer units than there are waiters and units for' % what, inst)


class SemInit(Base):
    """sem_init: refusals, rollback on failure, publication only when complete."""
    def __init__(self):
        super().__init__()
        self.sites = set()

    def rep(self, eng, st, msg, inst=None):
        self.report(eng, st, msg, inst)
        self.reports[-1]['prop'] = 'S03'
        st.mon['!stop'] = 1

    def setup(self, eng, st, args):
        self.S = args[0]
        st.mon['psh'], st.mon['val'] = args[1:3]
        st.mon.update({'alloc': 0, 'obj': NULL, 'h': NULL, 'freed': 0, 'pub': 0, 'hfail': 0})
        t = st.fork()
        v = args[2][0]
        mx = K['SEM_VALUE_MAX']
        st.facts[v] = (0, mx, frozenset())
        if mx != 2 ** 31 - 1:
            t.facts[v] = (mx + 1, 2 ** 31 - 1, frozenset())
            u = st.fork()
            u.facts[v] = (-2 ** 31, -1, frozenset())
            return [st, t, u]
        t.facts[v] = (-2 ** 31, -1, frozenset())      # 2^31 and above as an unsigned number
        return [st, t]

    def on_alloc(self, eng, st, v, inst, args):
        st.mon['alloc'] = 2 if v == NULL else 1
        st.mon['obj'] = v
        self.sites.add((eng.where(inst), 'allocation'))

    def on_free(self, eng, st, v, inst):
        if v == st.mon['obj'] and v != NULL:
            if st.mon['pub'] and peek(st, self.S) == v:
                return self.rep(eng, st, 'frees the semaphore it has published', inst)
            if st.mon['freed']:
                return self.rep(eng, st, 'frees the new semaphore twice', inst)
            st.mon['freed'] = 1

    def on_api(self, eng, st, name, args, ret, inst):
        if name.startswith('CreateSemaphore'):
            if ret == NULL:
                st.mon['hfail'] = 1
            else:
                st.mon['h'] = ret
                if not const(args[1]) or args[1][1] != 0:
                    return self.rep(eng, st, 'the kernel semaphore starts with units of its own', inst)

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr == self.S:
            st.mon['pub'] = 1

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v) or v[1] not in (0, -1):
            return self.rep(eng, st, 'returns %s' % eng.show(v), inst)
        if v[1] == 0:
            o = m['obj']
            if o == NULL or m['h'] == NULL or m['freed'] or peek(st, self.S) != o:
                return self.rep(eng, st, 'reports success without a complete semaphore', inst)
            if eng.load(st, field(eng, o, SM, 'value'), 4, {'id': 'v'}) != m['val']:
                return self.rep(eng, st, 'the new semaphore does not start with the requested value', inst)
            if eng.load(st, field(eng, o, SM, 'sem'), 8, {'id': 'v'}) != m['h']:
                return self.rep(eng, st, 'the new semaphore is not linked to its kernel object', inst)
            if eng.load(st, field(eng, o, SM, 'lock'), 8, {'id': 'v'}) != NULL:
                return self.rep(eng, st, 'the new semaphore starts locked', inst)
            if eng.decide(st, 'eq', m['psh'], NULL) is not True:
                return self.rep(eng, st, 'a process-shared semaphore is not refused', inst)
            if eng.decide(st, 'ule', m['val'], (None, K['SEM_VALUE_MAX'])) is not True:
                return self.rep(eng, st, 'a value above the maximum is accepted', inst)
            return
        er = self.errno(st)
        if er is None or not const(er):
            return self.rep(eng, st, 'returns -1 without setting errno', inst)
        if m['pub']:
            return self.rep(eng, st, 'fails but has overwritten the caller\'s semaphore', inst)
        if m['alloc'] == 1 and not m['freed']:
            return self.rep(eng, st, 'fails (%s) and leaks the new semaphore' % nm(er[1]), inst)
        want = E['ENOSPC'] if m['hfail'] else E['ENOMEM'] if m['alloc'] == 2 else None
        if want is None:
            if eng.decide(st, 'ne', m['psh'], NULL) is True:
                want = E['EPERM']
            else:
                want = E['EINVAL']
                if eng.decide(st, 'ugt', m['val'], (None, K['SEM_VALUE_MAX'])) is not True:
                    return self.rep(eng, st, 'refuses a valid initial value', inst)
        if er[1] != want:
            return self.rep(eng, st, 'reports %s where %s is due' % (nm(er[1]), nm(want)), inst)


ASSUME = ('internal queue locks give mutual exclusion (property P01)', 'the kernel semaphore grants each released unit once',
          'untimed kernel waits on a live semaphore do not fail inside the library\'s own barriers')
JOBS = []
for _fn, _op in (('sem_wait', 'wait'), ('sem_timedwait', 'timedwait'), ('sem_trywait', 'trywait'), ('sem_post', 'post'),
                 ('sem_post_multiple', 'post_multiple'), ('sem_getvalue', 'getvalue'), ('sem_destroy', 'destroy')):
    JOBS.append({'kind': 'engine', 'props': ('S01', 'S02', 'S03', 'S04') + (('I03',) if _op in ('wait', 'timedwait') else ()) + (('W01',) if _op == 'timedwait' else ()), 'entry': _fn, 'case': 'valid', 'min_sites': 1, 'assumes': ASSUME,
                 'make': (lambda f=_fn, o=_op: SemOp(f, o))})
for _fn, _op in (('sem_post', 'post'), ('sem_post_multiple', 'post_multiple')):
    JOBS.append({'kind': 'engine', 'props': ('S01', 'S04'), 'entry': _fn, 'case': 'exact', 'min_sites': 1, 'assumes': ASSUME + ('a multiple post is given at least one unit',),
                 'make': (lambda f=_fn, o=_op: PostExact(f, o))})
JOBS.append({'kind': 'engine', 'props': ('S01', 'S02'), 'entry': 'ptw32_semwait', 'case': 'internal', 'min_sites': 1, 'assumes': ASSUME,
             'make': lambda: SemOp('ptw32_semwait', 'iwait', fail_wait=False)})
JOBS.append({'kind': 'engine', 'props': ('S03',), 'entry': 'sem_init', 'case': '', 'min_sites': 1, 'assumes': ASSUME, 'make': SemInit})
