"""Scheduling parameters (V01), processor affinity (U01), comparing handles (H01), unsupported policies (Y01)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken, wrap
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from .cancel import Thr, TH, ASSUME
from .names import Handle

BAD = (0, -1, -2, -3)
POL = ('OTHER', 'FIFO', 'RR')


def out(addr):
    """is this address something the caller can see?"""
    return not (isinstance(addr[0], str) and addr[0].startswith('a:')) and addr[0] != 'g:errno'


def limits():
    a, b = K['THREAD_PRIORITY_IDLE'], K['THREAD_PRIORITY_TIME_CRITICAL']
    return min(a, b), max(a, b)


def windows_priority(p):
    """the nearest level Windows has (towards normal)"""
    if K['THREAD_PRIORITY_IDLE'] < p < K['THREAD_PRIORITY_LOWEST']:
        return K['THREAD_PRIORITY_LOWEST']
    if K['THREAD_PRIORITY_HIGHEST'] < p < K['THREAD_PRIORITY_TIME_CRITICAL']:
        return K['THREAD_PRIORITY_HIGHEST']
    return p


def m_count(eng, st, inst, args, name, cv):
    """the number of processors in a set (decided on its own below)"""
    v = peek(st, args[0])
    if v is None:
        return [(st, eng.sitesym(st, inst, 'count'))]
    t = st.fork()
    outs = []
    if eng.assume(t, 'eq', v, NULL):
        outs.append((t, NULL))
    if eng.assume(st, 'ne', v, NULL):
        n = eng.sym('cpucount', v)
        eng._mergefact(st.facts, n, (1, 64, frozenset()))
        outs.append((st, (n, 0)))
    return outs


class SetSched(Handle):
    PROPS = ('V01',)
    exact_cast = True

    def on_cast(self, eng, st, op, sb, db, v, inst):
        return v

    def models(self):
        m = super().models()
        m['SetThreadPriority'] = self.m_prio
        return m

    def more(self, eng, st, args):
        pol, q = args[1], args[2]
        st.facts[q[0]] = (65536, INF, frozenset())
        lo, hi = limits()
        outs = []
        pols = [('unsup', K['SCHED_FIFO']), ('unsup', K['SCHED_RR']), ('bad', (-2**31, K['SCHED_MIN'] - 1)), ('bad', (K['SCHED_MAX'] + 1, 2**31 - 1)), ('ok', K['SCHED_OTHER'])]
        for pn, pv in pols:
            prios = [('low', (-2**31, lo - 1)), ('high', (hi + 1, 2**31 - 1))] + [('in', p) for p in range(lo, hi + 1)]
            for rn, rv in prios if pn == 'ok' and self.good else [('in', lo)]:
                s = st.fork()
                if isinstance(pv, tuple):
                    s.facts[pol[0]] = (pv[0], pv[1], frozenset())
                else:
                    eng.substitute(s, pol[0], (None, pv))
                v = (None, rv) if not isinstance(rv, tuple) else self.sym(eng, s, 'priority', rv[0], rv[1])
                s.mem[q] = (v, 4)
                old = self.sym(eng, s, 'old priority')
                if self.good:
                    s.mem[field(eng, s.mon['p'], TH, 'sched_priority')] = (old, 4)
                s.mon.update({'pol': pn, 'pr': rn, 'v': v, 'old': old, 'set': 0, 'sec': 0, 'q': q})
                outs.append(s)
        return outs

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if how == 'store' and self.good and out(addr):
            if addr != field(eng, st.mon['p'], TH, 'sched_priority'):
                self.rep(eng, st, 'writes to something other than the priority of the thread', inst)
                return STOP
            if not self.held(st, self.F['threadLock']):
                self.rep(eng, st, 'records the priority without holding the lock of the thread', inst)
                return STOP

    def on_acquired(self, eng, st, lock, inst):
        st.mon['sec'] = st.mon.get('sec', 0) + 1

    def m_prio(self, eng, st, inst, args, name, cv):
        m = st.mon
        if not self.act(eng, st, 'sets the priority', inst):
            return []
        if args[0] != self.h:
            return self.R(eng, st, 'sets the priority of something other than the thread', inst)
        if not self.held(st, self.F['threadLock']):
            return self.R(eng, st, 'sets the priority without holding the lock of the thread (it may differ from the recorded one)', inst)
        if m['pol'] != 'ok' or m['pr'] != 'in':
            return self.rep(eng, st, 'sets the priority although the request is not valid', inst, ('V01', 'Y01') if m['pol'] == 'unsup' else ('V01',)) or []
        if args[1] != (None, windows_priority(m['v'][1])):
            return self.R(eng, st, 'sets a priority other than the requested one (or the nearest there is)', inst)
        if m['set']:
            return self.R(eng, st, 'sets the priority twice', inst)
        t = st.fork()
        t.mon['set'], m['set'] = ('K', NULL, (None, t.mon['sec'])), ('K', (None, 1), (None, m['sec']))
        return [(t, NULL), (st, (None, 1))]

    def verdict(self, eng, st, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        now = peek(st, field(eng, m['p'], TH, 'sched_priority'))
        done = m['set'] and m['set'][1] != NULL
        if now != (m['v'] if done else m['old']) and not (done and now == m['old']  and False):
            return R('the recorded priority is not the one the thread has')
        want = E['ENOTSUP'] if m['pol'] == 'unsup' else E['EINVAL'] if m['pol'] == 'bad' or m['pr'] != 'in' else 0
        if want:
            if v[1] != want:
                return self.rep(eng, st, 'returns %s where %s is due' % (nm(v), nm((None, want))), inst, ('V01', 'Y01') if m['pol'] == 'unsup' else ('V01',))
            return
        if not m['set']:
            return R('returns %s without setting the priority' % nm(v))
        if (v[1] == 0) != bool(done):
            return R('returns %s when setting the priority %s' % (nm(v), 'works' if done else 'fails'))


class GetSched(Handle):
    PROPS = ('V01',)

    def more(self, eng, st, args):
        a, b = args[1], args[2]
        st.facts[b[0]] = (65536, INF, frozenset())
        outs = []
        for z in (0, 1):
            s = st.fork()
            if z:
                eng.substitute(s, a[0], NULL)
            else:
                s.facts[a[0]] = (65536, INF, frozenset())
            pr = self.sym(eng, s, 'priority')
            if self.good:
                s.mem[field(eng, s.mon['p'], TH, 'sched_priority')] = (pr, 4)
            g = self.sym(eng, s, 'before')
            s.mem[b] = (g, 4)
            s.mon.update({'a': NULL if z else a, 'b': b, 'pr': pr, 'g': g})
            outs.append(s)
        return outs

    def refused(self, eng, st, v):
        return st.mon['a'] != NULL or v[1] == 0

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if how == 'store' and self.good and out(addr) and addr[0] not in (st.mon['a'][0], st.mon['b'][0]):
            self.rep(eng, st, 'writes to something other than its results', inst)
            return STOP

    def verdict(self, eng, st, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if m['a'] == NULL:
            if v[1] != E['EINVAL'] or peek(st, m['b']) != m['g']:
                return R('a missing place for the policy is not refused')
            return
        if v[1] != 0:
            return R('returns %s for a valid thread' % nm(v))
        if peek(st, m['a']) != (None, K['SCHED_OTHER']) or peek(st, m['b']) != m['pr']:
            return R('does not give the policy and the priority that was set')


class PrioRange(Contract):
    PROPS = ('V01',)

    def __init__(self, which):
        super().__init__(which)
        self.which = which

    def setup(self, eng, st, args):
        outs = []
        for n, r in (('ok', (K['SCHED_MIN'], K['SCHED_MAX'])), ('bad', (-2**31, K['SCHED_MIN'] - 1)), ('bad', (K['SCHED_MAX'] + 1, 2**31 - 1))):
            s = st.fork()
            s.facts[args[0][0]] = (r[0], r[1], frozenset())
            s.mon['pol'] = n
            outs.append(s)
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return':
            return R('does not return')
        if st.mon['pol'] == 'bad':
            if v != (None, -1) or self.errno(st) != (None, E['EINVAL']):
                return R('an unknown policy is not refused')
        elif v != (None, limits()[self.which == 'max']):
            return R('does not give the %simum priority' % self.which)


class Proc(Contract):
    """calls on a process by its number: setscheduler, getscheduler"""
    PROPS = ('V01',)

    def __init__(self, case, op):
        super().__init__(case)
        self.op = op

    def R(self, eng, st, msg, inst):
        return self.rep(eng, st, msg, inst) or []

    def models(self):
        m = super().models()
        m['OpenProcess'] = self.m_open
        m['_sched_affinitycpucount'] = m_count
        m['GetCurrentProcessId'] = lambda eng, st, inst, args, name, cv: [(st, self.own_pid(eng, st))]
        m['GetCurrentProcess'] = lambda eng, st, inst, args, name, cv: [(st, (None, -1))]
        m['GetLastError'] = self.m_err
        m['SetPriorityClass'] = m['NtSetInformationProcess'] = self.m_no
        m['GetProcessAffinityMask'] = self.m_getmask
        m['SetProcessAffinityMask'] = self.m_setmask
        m['SetThreadAffinityMask'] = self.m_no
        return m

    def m_no(self, eng, st, inst, args, name, cv):
        return self.R(eng, st, '%s on a process' % name, inst)

    m_getmask = m_setmask = m_no

    def own_pid(self, eng, st):
        s = eng.sym('arg', 's', 'own pid')
        eng._mergefact(st.facts, s, (1, 2**31 - 1, frozenset()))
        return (s, 0)

    def setup(self, eng, st, args):
        m = st.mon
        own = self.own_pid(eng, st)
        outs = []
        # one's own process by 0 or by number, or another one
        for who in ('zero', 'own', 'other'):
            s = st.fork()
            p = args[0]
            if who == 'zero':
                eng.substitute(s, p[0], NULL)
                p = NULL
            elif who == 'own':
                eng.substitute(s, p[0], own)
                p = own
            else:
                s.facts[p[0]] = (-2**31, 2**31 - 1, frozenset([0]))
                s.rel = s.rel | {('ne', p, own), ('ne', own, p)}
            s.mon.update({'who': who, 'pid': p, 'own': own, 'open': '', 'err': '', 'gone': ()})
            outs += self.more(eng, s, args) or [s]
        return outs

    def more(self, eng, s, args):
        if self.op == 'set':
            outs = []
            for n in ('ok', 'bad'):
                t = s.fork()
                if n == 'ok':
                    eng.substitute(t, args[1][0], (None, K['SCHED_OTHER']))
                else:
                    t.facts[args[1][0]] = (-2**31, 2**31 - 1, frozenset([K['SCHED_OTHER']]))
                t.mon['pol'] = n
                outs.append(t)
            return outs
        s.mon['pol'] = 'ok'

    def m_open(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        own = m['pid'] if m['pid'] != NULL else m['own']
        if args[2] not in (own, eng.low(own)):
            return self.R(eng, st, 'looks at a process other than the one asked for', inst)
        t = st.fork()
        t.mon['open'] = ('K', NULL)
        v = self.heap(eng, st, inst, 'handle')
        self.own(st, 'handle', v)
        m['open'] = ('K', v)
        return [(t, NULL), (st, v)]

    def m_err(self, eng, st, inst, args, name, cv):
        m = st.mon
        if not m['open'] and not m.get('setfail'):
            return [(st, eng.sitesym(st, inst, 'lasterror'))]
        if m['err']:
            return [(st, m['err'][1])]
        outs = []
        for v in (5, 87, None):             # access denied, invalid parameter, anything else
            s = st.fork()
            x = (None, v) if v else self.sym(eng, s, 'last error', 0, 2**31 - 1, (5, 87))
            s.mon['err'] = ('K', x)
            s.mon['errn'] = v or 0
            outs.append((s, x))
        return outs

    def failed_open(self, eng, st, v, inst):
        m = st.mon
        want = E['EPERM'] if m.get('errn') == 5 else E['ESRCH']
        if v != (None, -1) or self.errno(st) != (None, want) or 'errn' not in m:
            return self.rep(eng, st, 'a process that cannot be reached is reported wrongly', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg, *p: self.rep(eng, st, msg, inst, *p)
        if kind != 'return':
            return R('does not return')
        if self.live(st):
            return R('leaks a process handle')
        if m['open'] and m['open'][1] == NULL:
            return self.failed_open(eng, st, v, inst)
        if m['who'] == 'other' and not m['open']:
            if m['pol'] == 'ok' or v != (None, -1):
                return R('succeeds without having looked for the process')
        if m['pol'] == 'bad':
            if v != (None, -1) or self.errno(st) != (None, E['ENOSYS']):
                return R('a policy that is not supported is not refused', ('V01', 'Y01'))
        elif v != (None, K['SCHED_OTHER']):
            return R('does not report the one policy there is')


class ProcAff(Proc):
    """sched_setaffinity, sched_getaffinity"""
    PROPS = ('U01',)

    def more(self, eng, s, args):
        q = args[2]
        outs = []
        z = s.fork()
        eng.substitute(z, q[0], NULL)
        z.mon.update({'q': NULL, 'mask': '', 'setfail': 0, 'did': '', 'want': NULL})
        s.facts[q[0]] = (65536, INF, frozenset())
        w = self.sym(eng, s, 'set')
        s.mem[q] = (w, 8)
        s.mon.update({'q': q, 'mask': '', 'setfail': 0, 'did': '', 'want': w})
        return [z, s]

    def m_getmask(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        ok = m['open'] and args[0] == m['open'][1] and args[0] != NULL and any(r[2] == args[0] for r in self.live(st)) or args[0] == (None, -1) and m['who'] != 'other'
        if not ok:
            return self.R(eng, st, 'asks about a process other than the one asked for', inst)
        t = st.fork()
        t.mon['mask'] = ('K', NULL, NULL)
        a, b = self.sym(eng, st, 'process mask', ex=(0,)), self.sym(eng, st, 'system mask', ex=(0,))
        st.mem[args[1]] = (a, 8)
        st.mem[args[2]] = (b, 8)
        m['mask'] = ('K', a, b, eng.mkexpr('and', b, m['want']))
        return [(t, NULL), (st, (None, 1))]

    def m_setmask(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.op != 'set' or m['did']:
            return self.R(eng, st, 'changes the processors of a process (again)', inst)
        if not (m['open'] and args[0] == m['open'][1] and args[0] != NULL and any(r[2] == args[0] for r in self.live(st)) or args[0] == (None, -1) and m['who'] != 'other'):
            return self.R(eng, st, 'changes the processors of a process other than the one asked for', inst)
        if not m['mask'] or args[1] != m['mask'][3]:
            return self.R(eng, st, 'does not use exactly those requested processors that the system has', inst)
        if eng.decide(st, 'eq', args[1], NULL) is not False:
            return self.R(eng, st, 'takes all processors away from a process', inst)
        t = st.fork()
        t.mon['setfail'] = 1
        t.mon['did'] = ('K', NULL)
        m['did'] = ('K', (None, 1))
        return [(t, NULL), (st, (None, 1))]

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if how == 'store' and out(addr) and (self.op == 'set' or addr[0] != st.mon['q'][0] or st.mon['q'] == NULL):
            self.rep(eng, st, 'writes to something other than the result', inst)
            return STOP

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        er = self.errno(st)
        if kind != 'return':
            return R('does not return')
        if self.live(st):
            return R('leaks a process handle')
        if m['q'] == NULL:
            if v != (None, -1) or er != (None, E['EFAULT']) or m['did']:
                return R('a missing set is not refused')
            return
        if m['open'] and m['open'][1] == NULL:
            return self.failed_open(eng, st, v, inst)
        if not m['mask'] or m['mask'][1] == NULL:
            if v != (None, -1) or er != (None, E['EAGAIN']) or not m['mask']:
                return R('reports %s although the processors are not known' % nm(v))
            return
        if self.op == 'get':
            if v != NULL:
                return R('fails although the processors are known')
            if peek(st, m['q']) != m['mask'][1]:
                return R('does not give the processors of the process')
            return
        if m['did']:
            if m['did'][1] != NULL:
                return None if v == NULL else R('reports failure although the processors are set')
            want = {5: E['EPERM'], 87: E['EINVAL']}.get(m.get('errn'), E['EAGAIN'])
            if v != (None, -1) or er != (None, want):
                return R('reports the wrong reason for a failure')
            return
        if v != (None, -1) or er != (None, E['EINVAL']) or eng.decide(st, 'eq', m['mask'][3], NULL) is not True:
            return R('does not set the processors')


class ThreadAff(Handle):
    """pthread_setaffinity_np, pthread_getaffinity_np"""
    PROPS = ('U01',)

    def __init__(self, case, op):
        super().__init__(case)
        self.op = op

    def models(self):
        m = super().models()
        m['sched_getaffinity'] = self.m_proc
        m['_sched_affinitycpucount'] = m_count
        m['SetThreadAffinityMask'] = self.m_set
        m['SetProcessAffinityMask'] = self.m_suspend
        return m

    def more(self, eng, st, args):
        q = args[2]
        z = st.fork()
        eng.substitute(z, q[0], NULL)
        st.facts[q[0]] = (65536, INF, frozenset())
        outs = []
        for s, a in ((z, NULL), (st, q)):
            for none in (0, 1):
                t = s.fork()
                w = self.sym(eng, t, 'set')
                if a != NULL:
                    t.mem[q] = (w, 8)
                old = NULL if none else self.sym(eng, t, 'recorded set', ex=(0,))
                if self.good:
                    t.mem[field(eng, t.mon['p'], TH, 'cpuset')] = (old, 8)
                act = self.sym(eng, t, 'set the thread has', ex=(0,))
                t.mon.update({'q': a, 'want': w, 'old': old, 'act': act, 'act0': act, 'proc': '', 'did': 0, 'fail': 0, 'lost': 0})
                outs.append(t)
        return outs

    def refused(self, eng, st, v):
        return st.mon['q'] != NULL or v[1] == 0

    def needs_check(self, eng, st, v):
        return v[1] == 0

    def m_proc(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != NULL:
            return self.R(eng, st, 'asks about another process', inst)
        t = st.fork()
        e = (None, 12345)       # whatever it is: to be handed on
        t.mon['proc'] = ('K', NULL, e)
        t.mem[('g:errno', 0)] = (e, 4)
        v = self.sym(eng, st, 'process set', ex=(0,))
        m['proc'] = ('K', v, eng.mkexpr('and', v, m['want']))
        st.mem[args[2]] = (v, 8)
        return [(t, (None, -1)), (st, NULL)]

    def m_set(self, eng, st, inst, args, name, cv):
        m = st.mon
        if not self.act(eng, st, 'sets the processors of a thread', inst):
            return []
        if not self.rlock(st):
            return self.R(eng, st, 'sets the processors of the thread without holding a lock (they may differ from the recorded ones)', inst)
        if args[0] != self.h:
            return self.R(eng, st, 'sets the processors of something other than the thread', inst)
        if m['q'] == NULL:
            return self.R(eng, st, 'sets the processors although no set is given', inst)
        if eng.decide(st, 'eq', args[1], NULL) is not False:
            return self.R(eng, st, 'may set no processors at all', inst)
        if self.op == 'set':
            if m['did']:
                return self.R(eng, st, 'sets the processors twice', inst)
            if not m['proc'] or m['proc'][1] == NULL or args[1] != m['proc'][2]:
                return self.R(eng, st, 'does not use exactly those requested processors that the process may use', inst)
        m['did'] = min(m['did'] + 1, 3)
        t = st.fork()
        t.mon['fail'] = 1
        if m['did'] > 1:
            t.mon['lost'] = 1
        was = m['act']
        m['act'] = args[1]
        return [(t, NULL), (st, was)]

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        m = st.mon
        if self.good and how == 'store' and out(addr):
            if addr == field(eng, m['p'], TH, 'cpuset'):
                if not self.rlock(st):
                    self.rep(eng, st, 'records the processors without holding the lock', inst)
                    return STOP
            elif self.op == 'set' or m['q'] == NULL or addr[0] != m['q'][0]:
                self.rep(eng, st, 'writes to something other than the record and the result', inst)
                return STOP

    def verdict(self, eng, st, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        now = peek(st, field(eng, m['p'], TH, 'cpuset'))
        if m['q'] == NULL:
            return None if v[1] == E['EFAULT'] and now == m['old'] else R('a missing set is not refused')
        if self.op == 'get':
            if v[1] != 0:
                return R('returns %s for a valid thread' % nm(v))
            if m['lost']:
                return
            same = lambda a, b: a == b or eng.decide(st, 'eq', a, b) is True
            if not same(m['act'], m['act0']):
                return R('changes the processors of the thread')
            if peek(st, m['q']) != now:
                return R('gives something other than the recorded processors')
            if m['fail'] and now != m['old']:
                return R('a query that fails changes the recorded processors')
            if m['did'] and not m['fail'] and not same(now, m['act0']):
                return R('does not give the processors the thread has')
            if not m['did'] and m['old'] != NULL:
                return R('does not look which processors the thread has')
            return
        done = m['did'] and not m['fail']
        if now != (m['act'] if done else m['old']):
            return R('the recorded processors are not those the thread has')
        if m['proc'] and m['proc'][1] == NULL:
            return None if v == m['proc'][2] else R('returns %s when the query for the processors fails' % nm(v))
        if done != (v[1] == 0):
            return R('returns %s when setting the processors %s' % (nm(v), 'works' if done else 'was not done'))
        if not m['did'] and m['proc'] and m['proc'][1] != NULL and eng.decide(st, 'eq', m['proc'][2], NULL) is not True:
            return R('does not set the processors')
        if v[1] and m['proc'] and m['proc'][1] != NULL and not m['did'] and v[1] != E['EINVAL']:
            return R('reports %s for processors the process may not use' % nm(v))


class Equal(Contract):
    """pthread_equal"""
    PROPS = ('H01',)

    def setup(self, eng, st, args):
        outs = []
        for case in ('same', 'other record', 'other generation', 'both'):
            s = st.fork()
            p, x, q, y = (self.sym(eng, s, n) for n in ('p', 'x', 'q', 'y'))
            if case in ('same', 'other generation'):
                q = p
            else:
                s.rel = s.rel | {('ne', p, q), ('ne', q, p)}
            if case in ('same', 'other record'):
                y = x
            else:
                s.rel = s.rel | {('ne', x, y), ('ne', y, x)}
            for a, n, (u, w) in ((args[0], 'a:arg:t1', (p, x)), (args[1], 'a:arg:t2', (q, y))):
                eng.substitute(s, a[0], (n, 0))
                s.mem[(n, 0)] = (u, 8)
                s.mem[(n, 8)] = (w, 8)
            s.mon['same'] = case == 'same'
            s.mon['keep'] = ('K', p, x, q, y)
            outs.append(s)
        return outs

    def on_deref(self, eng, st, addr, lab, inst, how):
        if not (isinstance(addr[0], str) and addr[0].startswith('a:')):
            self.rep(eng, st, 'looks at the threads themselves', inst)
            return STOP

    def on_exit(self, eng, st, kind, v, inst):
        z = eng.decide(st, 'eq', v, NULL) if kind == 'return' else None
        if z is not (not st.mon['same']):
            return self.rep(eng, st, 'takes %s handles for %s' % (('equal', 'different') if st.mon['same'] else ('different', 'equal')), inst)


def bitwise(eng, v, env):
    """the value of an expression of word-wide bit operations, for given values of its symbols"""
    b, o = v
    if b is None:
        return o
    if b in env:
        return env[b] + o
    d = eng.syms[b]
    if d[0] != 'e':
        raise KeyError(b)
    f = lambda x: bitwise(eng, x, env)
    op = d[1]
    M = (1 << 64) - 1
    if op == 'neg':
        r = -f(d[2])
    elif op in ('and', 'or', 'xor'):
        x, y = f(d[2]), f(d[3])
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
    elif op in ('shl', 'lshr', 'ashr') and d[3][0] is None:
        x, k = f(d[2]), d[3][1]
        r = x << k if op == 'shl' else (x & M) >> k if op == 'lshr' else wrap(x, 64) >> k
    else:
        raise AnalysisBroken('a set is computed by %s' % op)
    return wrap(r + o, 64)


class CpuSet(Contract):
    """operations on sets of processors, for every processor number there is room for; decided bit by bit (every operator involved acts on
    each bit alone, so the words of all zeros and all ones, and the one-bit words, determine it)"""
    PROPS = ('U01',)

    def __init__(self, op):
        super().__init__(op)
        self.op = op
        self.nowiden = op == 'count'

    def setup(self, eng, st, args):
        outs = []
        B = [1 << i for i in range(64)]
        some = [0, -1, 0x3333333333333333, 0x5555555555555555]
        for cpu in range(K['CPU_SETSIZE']) if self.op in ('set', 'clr', 'isset') else (-1,):
            bit = 1 << cpu if cpu >= 0 else 0
            words = {'isset': [(w,) for w in some + [bit, ~bit]], 'count': [(w,) for w in some + B + [~b for b in B]],
                     'equal': [(w, w) for w in some + B] + [(w, w ^ b) for w in some for b in B]}.get(self.op, ((),))
            for ws in words:
                s = st.fork()
                vs = []
                sets = args[1:2] if cpu >= 0 else args
                if cpu >= 0:
                    eng.substitute(s, args[0][0], (None, cpu))
                for i, a in enumerate(sets):
                    s.facts[a[0]] = (65536, INF, frozenset())
                    v = (None, wrap(ws[i], 64)) if ws else self.sym(eng, s, 'set%d' % i)
                    s.mem[a] = (v, 8)
                    vs.append(v)
                s.mon.update({'cpu': ('K', (None, cpu)), 'vs': ('K',) + tuple(vs), 'at': ('K',) + tuple(sets)})
                outs.append(s)
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return':
            return R('does not return')
        vs, at, cpu = m['vs'][1:], m['at'][1:], m['cpu'][1][1]
        now = [peek(st, a) for a in at]
        bit = 1 << cpu if cpu >= 0 else 0
        words = [0, -1] + [wrap(1 << i, 64) for i in range(64)]
        wr = {'zero': lambda a: 0, 'set': lambda a: a | bit, 'clr': lambda a: a & ~bit, 'and': lambda d, a, b: a & b, 'or': lambda d, a, b: a | b, 'xor': lambda d, a, b: a ^ b}.get(self.op)
        for i, a in enumerate(at):
            if (i or not wr) and now[i] != vs[i]:
                return R('changes a set it only looks at')
        if wr:
            ws = [words] if len(vs) == 1 else [[0, -1, 0x0f0f], words, [0, -1, 1, 1 << 40]]
            import itertools
            for c in itertools.product(*ws):
                if bitwise(eng, now[0], {x[0]: w for x, w in zip(vs, c)}) != wrap(wr(*c), 64):
                    return R('the resulting set is wrong')
            return
        if self.op == 'count':
            if v != (None, bin(vs[0][1] & (1 << 64) - 1).count('1')):
                return R('the number of processors is wrong for the set %x' % (vs[0][1] & (1 << 64) - 1))
            return
        z = eng.decide(st, 'ne', v, NULL)
        if z is None or z != (bool(vs[0][1] & bit) if self.op == 'isset' else vs[0] == vs[1]):
            return R('the answer is wrong')


class Count(Contract):
    """pthread_num_processors_np"""
    PROPS = ('U01',)
    nowiden = True

    def models(self):
        m = super().models()
        m['GetProcessAffinityMask'] = self.m_get
        return m

    def setup(self, eng, st, args):
        st.mon['n'] = 1

    def m_get(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        outs = []
        f = st.fork()
        f.mon['n'] = -1
        outs.append((f, NULL))
        for w in [-1, 0x3333333333333333, 0x5555555555555555] + [1 << i for i in range(64)] + [-1 ^ 1 << i for i in range(64)]:
            t = st.fork()
            t.mem[args[1]] = ((None, wrap(w, 64)), 8)
            t.mem[args[2]] = ((None, -1), 8)
            t.mon['n'] = bin(w & (1 << 64) - 1).count('1')
            outs.append((t, (None, 1)))
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        n = st.mon['n']
        if kind != 'return' or v != (None, max(n, 1)):
            return self.rep(eng, st, 'does not give the number of processors the process may use (or one, if it is not known)', inst)


class GetConc(Contract):
    PROPS = ('V01',)

    def setup(self, eng, st, args):
        st.mon['v'] = self.sym(eng, st, 'level')
        st.mem[('g:ptw32_concurrency', 0)] = (st.mon['v'], 4)

    def on_exit(self, eng, st, kind, v, inst):
        if v != st.mon['v'] or peek(st, ('g:ptw32_concurrency', 0)) != v:
            return self.rep(eng, st, 'does not give the concurrency level last set', inst)


class Conc(Contract):
    PROPS = ('V01',)

    def setup(self, eng, st, args):
        outs = []
        for n, r in (('ok', (0, 2**31 - 1)), ('bad', (-2**31, -1))):
            s = st.fork()
            s.facts[args[0][0]] = (r[0], r[1], frozenset())
            s.mon.update({'case': n, 'v': args[0]})
            s.mem[('g:ptw32_concurrency', 0)] = (self.sym(eng, s, 'old'), 4)
            s.mon['old'] = s.mem[('g:ptw32_concurrency', 0)][0]
            outs.append(s)
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        now = peek(st, ('g:ptw32_concurrency', 0))
        if m['case'] == 'ok' and (v != NULL or now != m['v']) or m['case'] == 'bad' and (v != (None, E['EINVAL']) or now != m['old']):
            return self.rep(eng, st, 'the concurrency level is not stored, or a negative one is not refused', inst)


JOBS = []


def job(props, entry, case, make, n=1, assumes=()):
    JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'min_sites': n, 'assumes': assumes, 'make': make})


for _c in ('ok', 'stale', 'null', 'gone'):
    _n = 0 if _c == 'null' else 1
    job(('V01', 'H01', 'Y01'), 'pthread_setschedparam', _c, (lambda c=_c: SetSched(c)), _n, ASSUME)
    job(('V01', 'H01'), 'pthread_getschedparam', _c, (lambda c=_c: GetSched(c)), _n, ASSUME)
    job(('U01', 'H01'), 'pthread_setaffinity_np', _c, (lambda c=_c: ThreadAff(c, 'set')), _n, ASSUME)
    job(('U01', 'H01'), 'pthread_getaffinity_np', _c, (lambda c=_c: ThreadAff(c, 'get')), _n, ASSUME)
for _w in ('min', 'max'):
    job(('V01',), 'sched_get_priority_' + _w, '', (lambda w=_w: PrioRange(w)), 0)
job(('V01', 'Y01'), 'sched_setscheduler', '', (lambda: Proc('', 'set')))
job(('V01',), 'sched_getscheduler', '', (lambda: Proc('', 'get')))
job(('V01',), 'pthread_setconcurrency', '', (lambda: Conc('')), 0)
job(('V01',), 'pthread_getconcurrency', '', (lambda: GetConc('')), 0)
job(('U01',), 'sched_setaffinity', '', (lambda: ProcAff('', 'set')))
job(('U01',), 'sched_getaffinity', '', (lambda: ProcAff('', 'get')))
job(('U01',), 'pthread_num_processors_np', '', (lambda: Count('')))
job(('H01',), 'pthread_equal', '', (lambda: Equal('')), 0)
for _o in ('zero', 'set', 'clr', 'isset', 'and', 'or', 'xor', 'equal', 'count'):
    job(('U01',), '_sched_affinitycpu' + _o, '', (lambda o=_o: CpuSet(o)), 0)
