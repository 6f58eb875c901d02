"""Times: conversion of absolute times to timeouts, absolute times from intervals (W01), delays (D01)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken, wrap
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from ..num import Num
from .cancel import Own, TH, ASSUME

EPOCH = (27111902 << 32) + 3577643008       # 1 January 1970, in units of 100 ns since 1601
NS, MS = 10**9, 10**6
FOREVER = 2**32 - 1
TS = 'timespec'


class Clock(Contract):
    """exact arithmetic, and a system clock that shows any time between 1970 and 2262 (what 63 bits of nanoseconds can count, less the longest timeout)"""
    PROPS = ('W01',)

    def __init__(self, case=''):
        super().__init__(case)
        self.num = Num()

    def R(self, eng, st, msg, inst):
        return self.rep(eng, st, msg, inst) or []

    def models(self):
        m = super().models()
        m['GetSystemTimeAsFileTime'] = m['GetSystemTimePreciseAsFileTime'] = self.m_now
        return m

    def m_now(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        st.mem[args[0]] = (self.now(eng, st), 8)
        st.mon['ft'] = ('K', args[0])
        return [(st, None)]

    def now(self, eng, st):
        return self.num.atom(eng, st, 'now', EPOCH, EPOCH + (2**63 - 2**53) // 100)

    def load_forks(self, eng, st, addr, lab, inst):
        ft = st.mon.get('ft')
        if ft and inst.get('ty') == 'i32' and addr[0] == ft[1][0] and addr[1] - ft[1][1] in (0, 4):
            q, r = self.num.div(eng, st, self.num.lin(eng, self.now(eng, st)), 1 << 32)
            return [(st, self.num.val(eng, *(q if addr[1] != ft[1][1] else r)))]
        return None

    def timespec(self, eng, st, q, what, sec, nsec):
        s = self.num.atom(eng, st, what + ' seconds', *sec)
        n = self.num.atom(eng, st, what + ' nanoseconds', *nsec)
        st.mem[field(eng, q, TS, 'tv_sec')] = (s, 8)
        st.mem[field(eng, q, TS, 'tv_nsec')] = (n, 4)
        return self.ns(eng, s, n)

    def ns(self, eng, s, n):
        return self.num.comb(self.num.lin(eng, s), self.num.lin(eng, n), NS, 1)

    def now_ns(self, eng, st):
        return self.num.comb(self.num.lin(eng, self.now(eng, st)), ({}, EPOCH), 100, -100)

    def split(self, st, L):
        """-> [(state, is L >= 0)]"""
        t = st.fork()
        outs = []
        if self.num.add(st, L):
            outs.append((st, True))
        if self.num.add(t, self.num.comb(L, ({}, 1), -1, -1)):
            outs.append((t, False))
        return outs

    def between(self, st, L, lo=None, hi=None):
        c = self.num.comb
        return (lo is None or self.num.entails(st, c(L, lo if isinstance(lo, tuple) else ({}, lo), 1, -1))) and \
               (hi is None or self.num.entails(st, c(L, hi if isinstance(hi, tuple) else ({}, hi), -1, 1)))

    def stable(self, eng, st, addr, lab):
        return True

    private = stable


class RelMs(Clock):
    """ptw32_relmillisecs"""

    def setup(self, eng, st, args):
        q = args[0]
        st.facts[q[0]] = (65536, INF, frozenset())
        self.abs = self.timespec(eng, st, q, 'given', (-2**63, 2**63 - 1), (0, NS - 1))

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is None and how == 'store' and not (isinstance(addr[0], str) and addr[0].startswith('a:')):
            self.rep(eng, st, 'changes something', inst)
            return STOP
        return r

    def on_exit(self, eng, st, kind, v, inst):
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return':
            return R('does not return')
        N = self.num
        late = N.comb(self.abs, self.now_ns(eng, st), 1, -1)        # how far the given time lies ahead
        for s, r in N.interp(eng, st, v, 32, False):
            for t, ahead in self.split(s, N.comb(late, ({}, 1), 1, -1)):
                if not ahead:
                    if not self.between(t, r, 0, 0):
                        return self.rep(eng, t, 'a time that has been reached does not time out at once', inst)
                    continue
                if not self.between(t, r, 1, None):
                    return self.rep(eng, t, 'a time that lies ahead may time out at once', inst)
                if not self.between(t, r, None, FOREVER - 1):
                    return self.rep(eng, t, 'a time that lies ahead may never time out', inst)
                for u, far in self.split(t, N.comb(late, ({}, (FOREVER - 1) * MS), 1, -1)):
                    if far:
                        if not self.between(u, r, FOREVER - 1, None):
                            return self.rep(eng, u, 'times out before the given time', inst)
                    elif not self.between(u, N.comb(r, late, MS, -1), 0, None):
                        return self.rep(eng, u, 'times out before the given time', inst)
                    elif not self.between(u, N.comb(r, late, MS, -1), None, 2 * MS):
                        return self.rep(eng, u, 'times out more than two milliseconds after the given time', inst)


class AbsTime(Clock):
    """pthread_win32_getabstime_np.  case: now, relative"""

    def setup(self, eng, st, args):
        a, r = args[:2]
        st.facts[a[0]] = (65536, INF, frozenset())
        self.a = a
        self.rel = ({}, 0)
        if self.case == 'now':
            eng.substitute(st, r[0], NULL)
        else:
            st.facts[r[0]] = (65536, INF, frozenset())
            self.rel = self.timespec(eng, st, r, 'interval', (-2**31, 2**40), (0, NS - 1))
        self.timespec(eng, st, a, 'old', (-2**63, 2**63 - 1), (-2**31, 2**31 - 1))

    def on_exit(self, eng, st, kind, v, inst):
        R = lambda msg: self.rep(eng, st, msg, inst)
        N = self.num
        if kind != 'return' or v != self.a:
            return R('does not return its argument')
        s, n = peek(st, field(eng, self.a, TS, 'tv_sec')), peek(st, field(eng, self.a, TS, 'tv_nsec'))
        for t, S in N.interp(eng, st, s, 64, True):
            for u, n_ in N.interp(eng, t, n, 32, True):
                if not self.between(u, n_, 0, NS - 1):
                    return self.rep(eng, u, 'gives a time with more (or less) than a second of nanoseconds', inst)
                want = N.comb(self.now_ns(eng, u), self.rel)
                if not self.between(u, N.comb(N.comb(S, n_, NS, 1), want, 1, -1), 0, 0):
                    return self.rep(eng, u, 'gives a time other than now plus the interval', inst)



class Delay(Own, Clock):
    """pthread_delay_np.  case: <state>/<enabled>/deferred[/null, zero]"""
    PROPS = ('D01',)
    SURE = 2147482          # an interval of so many seconds (24 days) is certainly not too long

    def __init__(self, case):
        Clock.__init__(self, case)

    def models(self):
        m = super().models()
        m['Sleep'] = self.m_sleep
        m['SleepEx'] = self.m_sleep
        m['SwitchToThread'] = self.m_yield
        m['pthread_testcancel'] = self.m_test
        return m

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        m = st.mon
        m.update({'res': '', 'wfail': 0, 'cp': 0})
        x = self.parse()[3]
        q = args[0]
        if x == 'null':
            eng.substitute(st, q[0], NULL)
            return
        st.facts[q[0]] = (65536, INF, frozenset())
        self.iv = self.timespec(eng, st, q, 'interval', *(((0, 0), (0, 0)) if x == 'zero' else ((-2**63, 2**63 - 1), (0, NS - 1))))
        self.sec = self.num.lin(eng, peek(st, field(eng, q, TS, 'tv_sec')))

    def stable(self, eng, st, addr, lab):
        return addr != self.F['state'] and Own.stable(self, eng, st, addr, lab) or st.mon['res'] == 'cancel'

    private = stable

    def listens(self):
        return self.c0 == K['PTHREAD_CANCEL_ENABLE']

    def m_test(self, eng, st, inst, args, name, cv):
        m = st.mon
        m['cp'] = 1
        if m['pend'] and self.listens() and not m['selfnull']:
            m['reset'] = m['thr'] = 1
            m['tc'] = 1
            return [(st, THROW)]
        return [(st, None)]

    def long_enough(self, eng, st, ms, inst):
        """the time to wait is as long as the interval, and not much longer"""
        N = self.num
        for s, w in N.interp(eng, st, ms, 32, False):
            if not self.between(s, N.comb(w, self.iv, MS, -1), 0, None):
                return self.rep(eng, s, 'waits less than the interval', inst)
            if not self.between(s, N.comb(w, self.iv, MS, -1), None, 2 * MS):
                return self.rep(eng, s, 'waits more than two milliseconds longer than the interval', inst)
        return True

    def pre(self, eng, st, ms, inst):
        m = st.mon
        self.sites.add((eng.where(inst), 'wait'))
        if self.mcs(st):
            return self.rep(eng, st, 'blocks with an internal lock held', inst)
        if m['res']:
            return self.rep(eng, st, 'waits twice', inst)
        if self.parse()[3] == 'null':
            return self.rep(eng, st, 'waits although no interval is given', inst)
        return self.long_enough(eng, st, ms, inst)

    def m_sleep(self, eng, st, inst, args, name, cv):
        if not self.pre(eng, st, args[0], inst):
            return []
        m = st.mon
        if self.listens() and not (m['cp'] and all(self.between(s, w, 0, 0) for s, w in self.num.interp(eng, st, args[0], 32, False))):
            return self.rep(eng, st, 'waits without listening for cancellation requests', inst, ('D01', 'I03')) or []
        m['res'] = 'timeout'
        return [(st, NULL if name == 'SleepEx' else None)]

    def m_yield(self, eng, st, inst, args, name, cv):
        """like Sleep (0)"""
        return [(s, NULL) for s, _ in self.m_sleep(eng, st, inst, [NULL], 'Sleep', cv)]

    def m_wait(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[1] == NULL and not self.listens():
            return super().m_wait(eng, st, inst, args, name, cv)
        if args[0] != self.ev_:
            return self.R(eng, st, 'waits for %s' % eng.show(args[0]), inst)
        if not self.pre(eng, st, args[1], inst):
            return []
        if not self.listens():
            return self.R(eng, st, 'listens for cancellation requests although cancellation is disabled', inst)
        outs = []
        for n, r in (('cancel', 0), ('timeout', 0x102), ('failed', -1)):
            if n == 'timeout' and self.parse()[0] == 'pending':
                continue
            s = st.fork()
            s.mon['res'] = n
            s.note('%s: the wait ends: %s' % (eng.where(inst), n))
            if n == 'cancel':
                s.mon['pend'] = 1
                if self.parse()[0] == 'running':
                    s.mem[self.F['state']] = ((None, K['PThreadStateCancelPending']), 4)
            outs.append((s, (None, r)))
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        s, c, t, x = self.parse()
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if kind == 'return' and not const(v):
            return R('returns %s' % eng.show(v))
        r = m['res']
        if m['thr']:
            if r != 'cancel' and not m['pend'] or not self.listens():
                return R('cancels the thread although no request is to be acted on')
            if self.s0 >= K['PThreadStateCanceling']:
                return R('a thread that is already being cancelled is cancelled again')
            return
        must = m['pend'] and self.listens() and s in ('running', 'pending') and x != 'null' and not m['selfnull']
        if x == 'null':
            return v[1] == E['EINVAL'] or R('a missing interval is not refused')
        if m['selfnull']:
            if v[1] == 0 and r != 'timeout':
                return R('reports success without having waited')
            return
        if v[1] == 0:
            if r != 'timeout':
                return R('reports success without having waited')
            if must:
                return R('a pending request is not acted on')
            return
        if r == 'timeout':
            return R('reports %s although the time has passed' % nm(v))
        if r == 'cancel':
            if must:
                return R('a request arrived while waiting and is not acted on')
            return
        if r == 'failed':
            return
        if v[1] != E['EINVAL']:
            return R('reports %s without having waited' % nm(v))
        for u, neg in self.split(st, self.num.comb(self.sec, ({}, 1), -1, -1)):
            if neg:
                continue
            if not self.num.entails(u, self.num.comb(self.sec, ({}, self.SURE), 1, -1)):
                return self.rep(eng, u, 'refuses an interval that is neither negative nor too long', inst)


JOBS = []


def job(props, entry, case, make, n=1, assumes=()):
    JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'min_sites': n, 'assumes': assumes, 'make': make})


CLK = ('the system clock shows a time between 1970 and 2262', 'the nanoseconds of a given time lie between 0 and 999999999')
job(('W01',), 'ptw32_relmillisecs', '', (lambda: RelMs('')), 1, CLK)
for _c in ('now', 'relative'):
    job(('W01',), 'pthread_win32_getabstime_np', _c, (lambda c=_c: AbsTime(c)), 1, CLK)

for _s, _e in (('running', 'enabled'), ('running', 'disabled'), ('pending', 'enabled'), ('pending', 'disabled'), ('canceling', 'enabled'), ('canceling', 'disabled')):
    for _x in ('', '/zero') + (('/null',) if _s == 'running' else ()):
        _c = '%s/%s/deferred%s' % (_s, _e, _x)
        job(('D01', 'I03'), 'pthread_delay_np', _c, (lambda c=_c: Delay(c)), 1 if _x == '' and _s != 'pending' else 0, ASSUME + CLK[1:])
