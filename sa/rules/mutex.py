"""Mutexes: lock word protocol, ownership, recursion, robustness (properties M*)."""
from ..engine import Engine, NULL, INF, AnalysisBroken, STOP
from ..contract import Contract, nm
from ..common import Base, E, K, const, field, peek, ename, WAIT_TIMEOUT

MX = 'pthread_mutex_t_'
RN = 'ptw32_robust_node_t_'
FREE, HELD, WAITERS = 0, 1, -1


def robust_states(p):
    en = p.enums
    try:
        return en['PTW32_ROBUST_CONSISTENT'], en['PTW32_ROBUST_INCONSISTENT'], en['PTW32_ROBUST_NOTRECOVERABLE']
    except KeyError:
        return 0, 1, 2


class MutexOp(Base):
    """One of lock/trylock/timedlock/unlock/consistent on a valid mutex of a given kind."""

    def __init__(self, fn, kind, case='valid'):
        super().__init__()
        self.fn = fn
        self.kind0 = kind
        self.case = case
        self.robust = kind < 0
        self.kind = -kind - 1 if kind < 0 else kind
        self.sites = set()

    def models(self):
        m = super().models()
        m['ptw32_mutex_check_need_init'] = self.m_need_init
        m['ptw32_relmillisecs'] = self.m_rel
        return m

    def m_rel(self, eng, st, inst, args, name, cv):
        if self.fn == 'timedlock' and args[0] != st.mon['abs'][1]:
            return self.late(eng, st, 'computes the timeout from something other than the given time', inst) or []
        v = eng.sitesym(st, inst, 'ms')
        st.facts[v[0]] = (0, INF, frozenset())
        st.mon['ms'] = ('K', v)
        return [(st, v)]

    def late(self, eng, st, msg, inst):
        self.rep(eng, st, 'W01', msg, inst)
        self.reports[-1]['prop'] = ('W01',)

    def time_limit(self, eng, st, ms, inst):
        """a timed lock waits no longer than until the given time, computed anew before each wait"""
        m = st.mon
        if self.fn != 'timedlock':
            if self.fn == 'lock' and ms != (None, -1):
                self.late(eng, st, 'an untimed lock has a time limit', inst)
        elif m['abs'][1] == NULL and not m['ms'] and ms == (None, -1):
            pass
        elif not m['ms']:
            self.late(eng, st, 'waits with a timeout that is not computed from the given time, or not anew for this wait', inst)
        elif ms != m['ms'][1]:
            self.late(eng, st, 'waits with a timeout other than that of the given time', inst)
        m['ms'] = ''

    def m_need_init(self, eng, st, inst, args, name, cv):
        outs = []
        for code in ('ENOMEM', 'EINVAL', 'ENOSPC'):
            t = st.fork()
            t.mon['initerr'] = E[code]
            eng.store(t, args[0], NULL, 8)
            outs.append((t, (None, E[code])))
        for k in sorted({K['PTHREAD_MUTEX_NORMAL'], K['PTHREAD_MUTEX_RECURSIVE'], K['PTHREAD_MUTEX_ERRORCHECK']}):
            t = st.fork()
            mx = self.newmx(eng, t, k)
            eng.store(t, args[0], mx, 8)
            t.mon['kind'] = k
            outs.append((t, NULL))
        return outs

    def newmx(self, eng, st, kind):
        mx = (eng.sym('arg', 'mx', 'mx'), 0)
        st.facts[mx[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        st.mem[field(eng, mx, MX, 'kind')] = ((None, kind), 4)
        rn = field(eng, mx, MX, 'robustNode')
        if kind < 0:
            r = (eng.sym('arg', 'rn', 'robust'), 0)
            st.facts[r[0]] = (-INF, INF, frozenset([0]))
            st.mem[rn] = (r, 8)
            self.A_state = field(eng, r, RN, 'stateInconsistent')
            self.rn = r
        else:
            st.mem[rn] = (NULL, 8)
            self.A_state = None
        self.A_lock = field(eng, mx, MX, 'lock_idx')
        self.A_count = field(eng, mx, MX, 'recursive_count')
        self.A_owner = field(eng, mx, MX, 'ownerThread')
        self.A_event = field(eng, mx, MX, 'event')
        evs = (eng.sym('arg', 'ev', 'mx->event'), 0)
        st.facts[evs[0]] = (-INF, INF, frozenset([0]))
        st.mem[self.A_event] = (evs, 8)
        self.mx = mx
        return mx

    def setup(self, eng, st, args):
        self.M = args[0]
        st.mon.update({'acq': 0, 'inh': 0, 'rec': 0, 'waited': 0, 'lastw': 0, 'rel': 0, 'setev': 0, 'relold': 9, 'kind': self.kind0, 'to': 0, 'wf': 0,
                       'nr': 0, 'cnt0': 0, 'ms': '', 'abs': ('K', args[1] if len(args) > 1 else NULL)})
        st.facts[self.M[0]] = (-INF, INF, frozenset([0]))
        eng.p_self = self.self_p(eng)
        if self.case == 'valid':
            mx = self.newmx(eng, st, self.kind0)
            st.mem[self.M] = (mx, 8)
        elif self.case == 'null':
            st.mem[self.M] = (NULL, 8)
        else:
            st.mem[self.M] = ((None, int(self.case)), 8)
        if self.case == 'valid' and self.robust and self.fn in ('lock', 'trylock', 'timedlock', 'unlock'):
            return self.lists(eng, st)
        return None

    def lists(self, eng, st):
        """the caller's list of held robust mutexes: empty or not (lock), the mutex at each kind of place on it (unlock)"""
        L = field(eng, self.self_p(eng), 'ptw32_thread_t_', 'robustMxList')
        nx, pv = field(eng, self.rn, RN, 'next'), field(eng, self.rn, RN, 'prev')

        def node(t, n):
            v = (eng.sym('arg', 'rn', n), 0)
            t.facts[v[0]] = (-INF, INF, frozenset([0]))
            self.nodes = getattr(self, 'nodes', frozenset()) | {v[0]}
            return v
        out = []
        for after in (0, 1):
            for before in (0, 1) if self.fn == 'unlock' else (0,):
                t = st.fork()
                N = node(t, 'following robust mutex') if after else NULL
                P = node(t, 'preceding robust mutex') if before else NULL
                if after:
                    t.mem[field(eng, N, RN, 'prev')] = (self.rn if self.fn == 'unlock' else NULL, 8)
                if self.fn == 'unlock':
                    t.mem[nx], t.mem[pv] = (N, 8), (P, 8)
                    t.mem[L] = (self.rn, 8)
                    if before:
                        t.mem[field(eng, P, RN, 'next')] = (self.rn, 8)
                        t.mem[field(eng, P, RN, 'prev')] = (NULL, 8)
                        t.mem[L] = (P, 8)
                else:
                    t.mem[L] = (N, 8)
                t.mon['list'] = ('L', N, P)
                for a, b in ((N, P), (N, self.rn), (P, self.rn)):
                    if a != NULL and b != NULL:
                        t.rel = t.rel | {('ne', a, b), ('ne', b, a)}
                t.note('on the caller\'s list of robust mutexes there %s' % ('is another' if after or before else 'is no other'))
                out.append(t)
        return out

    def linked(self, eng, st):
        """is the caller's list intact, with the mutex at its head (after a lock) or off it (after an unlock)"""
        _, N, P = st.mon['list']
        g = lambda a: eng.load(st, a, 8, {'id': 'l', 'loc': None})
        L = field(eng, self.self_p(eng), 'ptw32_thread_t_', 'robustMxList')
        nx = lambda r: field(eng, r, RN, 'next')
        pv = lambda r: field(eng, r, RN, 'prev')
        if self.fn == 'unlock':
            if P == NULL:
                ok = g(L) == N
            else:
                ok = g(L) == P and g(nx(P)) == N and g(pv(P)) == NULL
            return ok and (N == NULL or g(pv(N)) == P)
        return g(L) == self.rn and g(nx(self.rn)) == N and g(pv(self.rn)) == NULL and (N == NULL or g(pv(N)) == self.rn)

    def stable(self, eng, st, addr, lab):
        if addr == self.M or not getattr(self, 'mx', None):
            return True
        return addr[0] == self.mx[0] or (self.robust and addr[0] == getattr(self, 'rn', (None,))[0]) or addr[0] == self.self_p(eng)[0] or addr[0] in getattr(self, 'nodes', ())

    # ---- lock word
    def owner_is_self(self, eng, st):
        p = eng.load(st, self.A_owner, 8, {'id': 'own', 'loc': None})
        return p == self.self_p(eng)

    def owner_state(self, eng, st):
        """True/False/None: is the recorded owner the caller (decided by the tests made so far)"""
        p = eng.load(st, self.A_owner, 8, {'id': 'own'})
        x = eng.load(st, eng.addoff(self.A_owner, 8), 8, {'id': 'own'})
        if p == NULL:
            return False
        d1 = eng.decide(st, 'eq', p, self.self_p(eng))
        d2 = eng.decide(st, 'eq', x, self.self_x(eng))
        if d1 is False or d2 is False:
            return False
        if d1 and d2:
            return True
        return None

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        if not getattr(self, 'mx', None):
            return None
        if addr == self.A_lock:
            self.sites.add((eng.where(inst), 'lock word ' + kind))
            if st.mon['acq'] and not st.mon['rel']:
                return [HELD, WAITERS]
            if st.mon['ownok'] and not st.mon['rel']:
                return [HELD, WAITERS]
            if self.tracks_owner() and self.owner_state(eng, st) is True and not st.mon['rel']:
                return [HELD, WAITERS]
            return [FREE, HELD, WAITERS]
        if self.A_state and addr == self.A_state:
            self.sites.add((eng.where(inst), 'robust state ' + kind))
            c, i, n = robust_states(eng.p)
            if st.mon['nr']:
                return [n]
            if st.mon['inh']:
                return [i]
            return [-1, c, i, n]
        return None

    def tracks_owner(self):
        return self.robust or self.kind != K['PTHREAD_MUTEX_NORMAL']

    def rep(self, eng, st, prop, msg, inst=None):
        self.report(eng, st, msg, inst)
        ps = {prop, 'M02' if self.fn == 'unlock' else 'M01' if self.fn in ('lock', 'trylock', 'timedlock') else prop}
        if self.robust or self.fn == 'consistent':
            ps.add('M04')
        if self.kind != K['PTHREAD_MUTEX_NORMAL'] and self.fn != 'consistent':
            ps.add('M03')
        self.reports[-1]['prop'] = tuple(ps)
        self.reports[-1]['case'] = 'kind=%s%s' % ('robust ' if self.robust else '', {0: 'normal', 1: 'recursive', 2: 'errorcheck'}.get(self.kind, self.kind))
        st.mon['!stop'] = 1

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        if not getattr(self, 'mx', None):
            return
        m = st.mon
        if addr == self.A_lock:
            o = old[1]
            if kind in ('cas-fail', 'aload'):
                return
            if not const(val):
                return self.rep(eng, st, 'M01', 'writes a value to the lock word that is none of free/held/held-with-waiters', inst)
            v = val[1]
            if v not in (FREE, HELD, WAITERS):
                return self.rep(eng, st, 'M01', 'writes %d to the lock word' % v, inst)
            if v == FREE:
                if self.fn == 'unlock':
                    if m['rel']:
                        return self.rep(eng, st, 'M02', 'releases the lock word twice', inst)
                    m['rel'] = 1
                    m['relold'] = o
                    if self.tracks_owner():
                        ow = self.owner_state(eng, st)
                        if ow is not False:
                            return self.rep(eng, st, 'M02', 'frees the lock word while the owner field still names the caller (or an unchecked thread)', inst)
                        if not m['ownok']:
                            return self.rep(eng, st, 'M02', 'frees the lock word although the caller was not established to be the owner', inst)
                elif m['acq']:
                    m['acq'] = 0
                    m['rel'] = 1
                    m['relold'] = o
                elif o != FREE:
                    return self.rep(eng, st, 'M01', 'frees a lock word this call has not acquired', inst)
                return
            if o == FREE:
                if self.fn == 'unlock':
                    return self.rep(eng, st, 'M02', 'takes the lock word during unlock', inst)
                if m['acq']:
                    return self.rep(eng, st, 'M01', 'acquires the lock word twice', inst)
                m['acq'] = 1
                m['rel'] = 0
                if m['waited'] and v != WAITERS:
                    return self.rep(eng, st, 'M01', 'acquires after a wait without leaving the waiters mark: another blocked thread would never be woken', inst)
            else:
                m['spin'] = m.get('spin', 0) + 1
                if m['spin'] > 20 and self.fn != 'unlock':
                    return self.rep(eng, st, 'M01', 'spins for a mutex that is taken instead of waiting for its release', inst)
                if m['acq'] and o == WAITERS and v != WAITERS:
                    return self.rep(eng, st, 'M01', 'overwrites the waiters mark while holding the lock', inst)
                if o == WAITERS and v == HELD:
                    m['lastw'] = 2      # wiped the waiters mark
                elif v == WAITERS:
                    m['lastw'] = -1
                elif m['lastw'] != 2:
                    m['lastw'] = 1
            return
        if self.A_state and addr == self.A_state:
            c, i, n = robust_states(eng.p)
            o = old[1]
            m['robchk'] = 1
            if o == n and kind != 'cas-fail' and kind != 'aload' and (not const(val) or val[1] != n):
                return self.rep(eng, st, 'M04', 'makes a not-recoverable mutex usable again', inst)
            if o == n:
                m['nr'] = 1
            if kind in ('cas-fail', 'aload'):
                return
            if not const(val):
                return self.rep(eng, st, 'M04', 'unknown robust state written', inst)
            v = val[1]
            if self.fn in ('lock', 'trylock', 'timedlock'):
                if o == -1 and v == i:
                    if m['inh'] or m['acq']:
                        return self.rep(eng, st, 'M04', 'inherits a mutex it already holds', inst)
                    m['inh'] = 1
                elif v != o:
                    return self.rep(eng, st, 'M04', 'changes robust state %d to %d while locking' % (o, v), inst)
            elif self.fn == 'unlock':
                if o == i and v == n:
                    if self.owner_state(eng, st) is not True:
                        return self.rep(eng, st, 'M04', 'marks the mutex not-recoverable although the caller is not its owner', inst)
                    m['nr'] = 1
                    m['made_nr'] = 1
                elif v != o:
                    return self.rep(eng, st, 'M04', 'changes robust state %d to %d while unlocking' % (o, v), inst)
                if o == i:
                    m['was_inc'] = 1
            elif self.fn == 'consistent':
                if o == i and v == c:
                    m['made_c'] = 1
                elif v != o:
                    return self.rep(eng, st, 'M04', 'consistent() changes robust state %d to %d' % (o, v), inst)

    def init_mon(self):
        return {'ownok': 0, 'made_nr': 0, 'made_c': 0, 'was_inc': 0, 'robchk': 0}

    def on_load(self, eng, st, addr, lab, v, inst):
        pass

    def held(self, eng, st):
        m = st.mon
        if (m['acq'] or m['inh']) and not m['rel']:
            return True
        return False

    def on_store(self, eng, st, addr, lab, v, inst):
        if not getattr(self, 'mx', None):
            return
        m = st.mon
        own = [self.A_owner, eng.addoff(self.A_owner, 8)]
        if addr == self.A_lock:
            return self.rep(eng, st, 'M01' if self.fn != 'unlock' else 'M02', 'plain (non-atomic) store to the lock word', inst)
        if self.A_state and addr == self.A_state:
            return self.rep(eng, st, 'M04', 'plain (non-atomic) store to the robust state', inst)
        if addr == field(eng, self.mx, MX, 'kind'):
            return self.rep(eng, st, 'M03', 'changes the kind of a live mutex', inst)
        if addr == self.A_count or addr in own:
            if self.fn == 'unlock':
                if m['rel']:
                    return self.rep(eng, st, 'M02', 'writes mutex state after releasing it', inst)
                if addr == self.A_owner:
                    if self.owner_state(eng, st) is True:
                        m['ownok'] = 1
                    elif self.tracks_owner() and not m['ownok']:
                        return self.rep(eng, st, 'M02', 'clears the owner although the caller was not established to be the owner', inst)
                    if v != NULL:
                        return self.rep(eng, st, 'M02', 'records another owner during unlock', inst)
                if addr == self.A_count:
                    if self.owner_state(eng, st) is not True:
                        return self.rep(eng, st, 'M02', 'changes the recursion count although the caller is not established to be the owner', inst)
                    old = eng.load(st, self.A_count, 4, inst)
                    if v == eng.addoff(old, -1):
                        m['rec'] -= 1
                    elif v == old:
                        pass
                    else:
                        return self.rep(eng, st, 'M03', 'unlock sets the recursion count to %s' % eng.show(v), inst)
                return
            if not self.held(eng, st):
                if addr == self.A_count and self.tracks_owner() and self.owner_state(eng, st) is True:
                    old = eng.load(st, self.A_count, 4, inst)
                    if v == eng.addoff(old, 1):
                        m['rec'] += 1
                        return
                    return self.rep(eng, st, 'M03', 'relock sets the recursion count to %s' % eng.show(v), inst)
                return self.rep(eng, st, 'M01', 'writes the owner or recursion count of a mutex this call does not hold', inst)

    def on_memcpy(self, eng, st, dst, src, n, inst):
        if getattr(self, 'mx', None) and dst == self.A_owner:
            v = eng.load(st, src, 8, dict(inst, id=(inst['id'], 'o')))
            self.on_store(eng, st, self.A_owner, None, v, inst)

    def before_wait(self, eng, st, h, ms, inst):
        self.sites.add((eng.where(inst), 'blocking wait'))
        m = st.mon
        if self.fn in ('trylock', 'unlock', 'consistent'):
            return self.rep(eng, st, 'M01' if self.fn == 'trylock' else 'M02', '%s blocks' % self.fn, inst)
        if getattr(self, 'mx', None) and h != eng.load(st, self.A_event, 8, inst):
            return self.rep(eng, st, 'M01', 'waits on something other than the mutex event', inst)
        if m['acq'] or m['inh']:
            return self.rep(eng, st, 'M01', 'blocks although the mutex has been acquired', inst)
        self.time_limit(eng, st, ms, inst)
        if m['to']:
            return self.rep(eng, st, 'W01', 'waits again after its time limit has passed', inst)
        if m['lastw'] != -1:
            return self.rep(eng, st, 'M01', 'blocks without having marked the mutex as contended: the release would not wake it', inst)
        if self.tracks_owner() and self.kind != K['PTHREAD_MUTEX_NORMAL'] and self.owner_state(eng, st) is not False:
            return self.rep(eng, st, 'M03', 'relocking a mutex the caller may own blocks instead of returning', inst)
        if self.fn == 'lock' and ms != (None, -1):
            return self.rep(eng, st, 'M01', 'lock waits with a time limit', inst)

    def after_wait(self, eng, st, h, ms, r, inst):
        m = st.mon
        m['lastw'] = 0
        m['spin'] = 0
        if r == 0:
            m['waited'] = 1
        elif r == WAIT_TIMEOUT:
            m['to'] = 1
        else:
            m['wf'] = 1

    def on_api(self, eng, st, name, args, ret, inst):
        if name == 'SetEvent' and getattr(self, 'mx', None):
            if args[0] == eng.load(st, self.A_event, 8, inst):
                self.sites.add((eng.where(inst), 'wake-up'))
                if self.fn == 'unlock' and not st.mon['rel']:
                    return self.rep(eng, st, 'M02', 'wakes a waiter before the lock word is freed', inst)
                st.mon['setev'] = 1
                if ret == NULL:
                    st.mon['setfail'] = 1

    # ---- outcome
    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if kind != 'return':
            return self.rep(eng, st, 'M01', 'leaves by unwinding', inst)
        if not const(v):
            return self.rep(eng, st, 'M01', 'returns %s' % eng.show(v), inst)
        r = v[1]
        getattr(self, 'exit_' + ('lock' if self.fn in ('lock', 'trylock', 'timedlock') else self.fn))(eng, st, r, inst)

    def exit_lock(self, eng, st, r, inst):
        m = st.mon
        if self.case == 'null':
            if r != E['EINVAL']:
                self.rep(eng, st, 'M01', 'a null mutex is not refused with EINVAL', inst)
            return
        if m.get('initerr'):
            if r != m['initerr']:
                self.rep(eng, st, 'M01', 'failure to initialise a static mutex (%s) is reported as %s' % (ENAMES(m['initerr']), ENAMES(r)), inst)
            return
        holds = (m['acq'] or m['inh']) and not m['rel']
        if self.robust and m['nr'] and r == E['ENOTRECOVERABLE']:
            holds = False       # nobody can ever hold it again; its lock word no longer matters
        ok = r == 0 or r == E['EOWNERDEAD']
        if ok and not holds and not m['rec']:
            return self.rep(eng, st, 'M01', 'returns %s without having acquired the mutex' % ENAMES(r), inst)
        if not ok and holds:
            return self.rep(eng, st, 'M01', 'returns %s but keeps the mutex locked' % ENAMES(r), inst)
        if not ok and m['rec']:
            return self.rep(eng, st, 'M03', 'returns %s but has counted a recursive lock' % ENAMES(r), inst)
        if holds and m['rec']:
            return self.rep(eng, st, 'M03', 'counts a recursion on a fresh acquisition', inst)
        if m['rec'] and (m['rec'] != 1 or self.kindof(m) != K['PTHREAD_MUTEX_RECURSIVE']):
            return self.rep(eng, st, 'M03', 'recursion counted %d times on a %s mutex' % (m['rec'], self.kindof(m)), inst)
        if m['lastw'] == 2 and not holds and not m['inh'] and not (self.robust and m['nr']):
            return self.rep(eng, st, 'M01', 'erases the waiters mark and returns without the lock', inst)
        if r == E['EOWNERDEAD'] and not m['inh']:
            return self.rep(eng, st, 'M04', 'returns EOWNERDEAD although no dead owner was inherited from', inst)
        if m['inh'] and r != E['EOWNERDEAD']:
            return self.rep(eng, st, 'M04', 'inherits from a dead owner but returns %s' % ENAMES(r), inst)
        if holds and (self.robust or self.kindof(m) != K['PTHREAD_MUTEX_NORMAL']):
            if self.owner_state(eng, st) is not True:
                return self.rep(eng, st, 'M04' if self.robust else 'M01', 'returns holding the mutex without recording the caller as owner', inst)
        if holds and self.kindof(m) == K['PTHREAD_MUTEX_RECURSIVE']:
            if eng.load(st, self.A_count, 4, {'id': 'c'}) != (None, 1):
                return self.rep(eng, st, 'M03', 'a fresh acquisition does not set the recursion count to one', inst)
        if holds and self.robust:
            tp = self.self_p(eng)
            lst = field(eng, tp, 'ptw32_thread_t_', 'robustMxList')
            if eng.load(st, lst, 8, {'id': 'l'}) != self.rn:
                return self.rep(eng, st, 'M04', 'a robust mutex is held without being on its owner\'s list: the owner\'s death would go unnoticed', inst)
            if m.get('list') and not self.linked(eng, st):
                return self.rep(eng, st, 'M04', 'the list of the robust mutexes the caller holds is broken by adding one', inst)
        if not ok:
            allowed = {E['EINVAL']: m['wf'], E['ETIMEDOUT']: m['to'], E['ENOTRECOVERABLE']: m['nr'],
                       E['EBUSY']: self.fn == 'trylock', E['EDEADLK']: self.fn != 'trylock'}
            if not allowed.get(r):
                return self.rep(eng, st, 'M01', 'returns %s on a path with no such condition' % ENAMES(r), inst)
            if r == E['EDEADLK'] and (self.kindof(m) == K['PTHREAD_MUTEX_RECURSIVE'] or self.owner_state(eng, st) is not True):
                return self.rep(eng, st, 'M03', 'EDEADLK for a mutex the caller does not own or may relock', inst)
            if r == E['EBUSY'] and self.kindof(m) == K['PTHREAD_MUTEX_RECURSIVE'] and self.owner_state(eng, st) is not False:
                return self.rep(eng, st, 'M03', 'trylock of a recursive mutex by its owner is refused', inst)
            if m['nr'] and m['waited'] and not m['setev'] and r == E['ENOTRECOVERABLE']:
                return self.rep(eng, st, 'M04', 'gives up on a not-recoverable mutex after consuming a wake-up without passing it on', inst)
            if m['to'] and r != E['ETIMEDOUT'] and not m['nr'] :
                return self.rep(eng, st, 'M01', 'a timeout is reported as %s' % ENAMES(r), inst)

    def kindof(self, m):
        k = m['kind']
        return -k - 1 if k < 0 else k

    def exit_unlock(self, eng, st, r, inst):
        m = st.mon
        if self.case == 'null':
            if r != E['EINVAL']:
                self.rep(eng, st, 'M02', 'unlock of a null mutex returns %s' % ENAMES(r), inst)
            return
        if self.case != 'valid':
            return
        if m['rel']:
            if m['relold'] == WAITERS and not m['setev']:
                return self.rep(eng, st, 'M02', 'frees a mutex that has waiters without waking one', inst)
            if m['relold'] == FREE:
                if r != E['EPERM']:
                    return self.rep(eng, st, 'M02', 'unlocking an unlocked mutex returns %s' % ENAMES(r), inst)
                return
            if r != 0 and not m.get('setfail'):
                return self.rep(eng, st, 'M02', 'a successful release returns %s' % ENAMES(r), inst)
            if self.kind == K['PTHREAD_MUTEX_RECURSIVE']:
                c = eng.load(st, self.A_count, 4, {'id': 'c'})
                if c != NULL:
                    return self.rep(eng, st, 'M03', 'a recursive mutex is released while its count is %s' % eng.show(c), inst)
            if self.robust:
                lst = field(eng, self.self_p(eng), 'ptw32_thread_t_', 'robustMxList')
                if eng.load(st, lst, 8, {'id': 'l'}) == self.rn:
                    return self.rep(eng, st, 'M04', 'a released robust mutex stays on its former owner\'s list', inst)
                if m.get('list') and not self.linked(eng, st):
                    return self.rep(eng, st, 'M04', 'the list of the robust mutexes the caller holds is broken by removing one', inst)
                if m['was_inc'] and not m['made_nr']:
                    return self.rep(eng, st, 'M04', 'an inconsistent mutex is released without becoming not-recoverable', inst)
                if not m['robchk']:
                    return self.rep(eng, st, 'M04', 'a robust mutex is released without examining its consistency state', inst)
            return
        if m['made_nr']:
            return self.rep(eng, st, 'M04', 'makes the mutex not-recoverable although its owner keeps it locked', inst)
        if r == 0:
            if self.kind == K['PTHREAD_MUTEX_RECURSIVE'] and m['rec'] == -1:
                c = eng.load(st, self.A_count, 4, {'id': 'c'})
                if eng.decide(st, 'ne', c, NULL) is not True:
                    return self.rep(eng, st, 'M03', 'keeps a recursive mutex locked after its count may have reached zero', inst)
                return
            return self.rep(eng, st, 'M02', 'returns success without releasing the mutex', inst)
        if m['rec']:
            return self.rep(eng, st, 'M02', 'returns %s after changing the recursion count' % ENAMES(r), inst)
        if r == E['EPERM']:
            if self.tracks_owner() and self.owner_state(eng, st) is True:
                return self.rep(eng, st, 'M02', 'the owner is refused with EPERM', inst)
            return
        return self.rep(eng, st, 'M02', 'returns %s on a path with no such condition' % ENAMES(r), inst)

    def exit_consistent(self, eng, st, r, inst):
        m = st.mon
        if self.case == 'null':
            if r != E['EINVAL']:
                self.rep(eng, st, 'M04', 'consistent() of a null mutex returns %s' % ENAMES(r), inst)
            return
        if r == 0 and not m['made_c']:
            return self.rep(eng, st, 'M04', 'consistent() reports success without restoring consistency', inst)
        if r != 0 and (m['made_c'] or r != E['EINVAL']):
            return self.rep(eng, st, 'M04', 'consistent() returns %s' % ENAMES(r), inst)


def ENAMES(r):
    return 'success' if r == 0 else ename((None, r))


class MutexUnused(Contract):
    """unlocking a statically initialised mutex that was never locked (or something destroyed)"""
    PROPS = ('M02',)

    def setup(self, eng, st, args):
        self.M = args[0]
        st.facts[args[0][0]] = (65536, INF, frozenset())
        v = NULL if self.case == 'destroyed' else (None, K['PTHREAD_%sMUTEX_INITIALIZER' % self.case])
        st.mem[args[0]] = (v, 8)
        st.mon['was'] = v

    def stable(self, eng, st, addr, lab):
        return addr == self.M

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        if addr[0] is None or how != 'load' and addr == self.M:
            self.rep(eng, st, '%s something that is not a mutex yet' % ('unlocking changes' if addr == self.M else 'unlocking uses'), inst)
            return STOP

    def on_exit(self, eng, st, kind, v, inst):
        if kind != 'return' or not const(v):
            return self.rep(eng, st, 'does not return a status', inst)
        if v[1] == 0:
            self.rep(eng, st, 'unlocking %s is reported as done' % ('a destroyed mutex' if self.case == 'destroyed' else 'a mutex the caller does not own'), inst)


class MutexInit(Contract):
    """pthread_mutex_init: a complete, free mutex of the requested type, or a refusal without residue."""
    PROPS = ('M05',)

    def setup(self, eng, st, args):
        self.M = args[0]
        st.mon['M'] = args[0]
        st.mon['null'] = 0
        a = args[1]
        if self.case == 'null mutex':
            eng.substitute(st, args[0][0], NULL)
            return
        st.facts[args[0][0]] = (-INF, INF, frozenset([0]))
        at = self.ptr(eng, st, 'attr')
        if self.case == 'no attributes':
            eng.substitute(st, a[0], NULL)
            return
        st.facts[a[0]] = (-INF, INF, frozenset([0]))
        if self.case == 'null attributes':
            st.mem[a] = (NULL, 8)
            return
        st.mem[a] = (at, 8)
        for f, n, hi in (('pshared', 'ps', 1), ('kind', 'kd', 2), ('robustness', 'rb', 1)):
            v = self.sym(eng, st, n, 0, hi)
            st.mem[field(eng, at, 'pthread_mutexattr_t_', f)] = (v, 4)
            st.mon[n] = v

    def on_created(self, eng, st, name, args, ret, inst):
        if name.startswith('CreateEvent') and (args[1] != NULL or args[2] != NULL):
            self.rep(eng, st, 'the wake-up event is not auto-reset and initially clear', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v):
            return self.rep(eng, st, 'returns an unspecified value', inst)
        r = v[1]
        if self.case == 'null mutex':
            if r != E['EINVAL']:
                self.rep(eng, st, 'a null mutex pointer is not refused with EINVAL', inst)
            return
        live = {x[2]: x[1] for x in self.live(st)}
        cur = peek(st, m['M'])
        shared = eng.decide(st, 'eq', m['ps'], (None, K['PTHREAD_PROCESS_SHARED'])) if 'ps' in m else False
        if r == 0:
            if shared is not False:
                return self.rep(eng, st, 'a process-shared mutex is not refused', inst)
            mx = cur
            if mx not in live:
                return self.rep(eng, st, 'reports success without storing the new mutex', inst)
            if self.val(eng, st, mx, MX, 'lock_idx', 4) != NULL or self.val(eng, st, mx, MX, 'ownerThread', 8) != NULL:
                return self.rep(eng, st, 'the new mutex is not free', inst)
            ev = self.val(eng, st, mx, MX, 'event', 8)
            if live.get(ev) != 'handle':
                return self.rep(eng, st, 'the new mutex has no wake-up event', inst)
            k = self.val(eng, st, mx, MX, 'kind', 4)
            rn = self.val(eng, st, mx, MX, 'robustNode', 8)
            want, rob = (None, K['PTHREAD_MUTEX_DEFAULT']), False
            if 'kd' in m:
                rob = eng.decide(st, 'eq', m['rb'], (None, K['PTHREAD_MUTEX_ROBUST']))
                if rob is None:
                    return self.rep(eng, st, 'the robustness attribute is ignored', inst)
                want = m['kd']
                if rob:
                    want = eng.addoff(eng.mkexpr('neg', want), -1)
            if k != want:
                return self.rep(eng, st, 'the new mutex has type %s where %s was requested' % (eng.show(k), eng.show(want)), inst)
            if rob:
                if live.get(rn) != 'mem' or self.val(eng, st, rn, RN, 'stateInconsistent', 4) != (None, robust_states(eng.p)[0]) \
                        or self.val(eng, st, rn, RN, 'mx', 8) != mx:
                    return self.rep(eng, st, 'a robust mutex starts without a consistent robust record', inst)
            elif rn != NULL:
                return self.rep(eng, st, 'a stalled mutex has a robust record', inst)
            if len(live) != (3 if rob else 2):
                return self.rep(eng, st, 'leaves a resource unowned', inst)
            return
        if live:
            return self.rep(eng, st, 'fails (%s) and leaks a %s' % (nm(r), sorted(set(live.values()))[0]), inst)
        if cur is not None and cur != NULL and cur in m.get('gone', ()):
            return self.rep(eng, st, 'fails (%s) leaving the mutex pointing to freed memory' % nm(r), inst)
        mem, han = self.failed_any(st, 'mem'), self.failed_any(st, 'handle')
        ok = {E['ENOMEM']: mem, E['ENOSPC']: han, E['EAGAIN']: mem or han, E['ENOSYS']: shared, E['ENOTSUP']: shared, E['EINVAL']: shared}.get(r)
        if not ok:
            return self.rep(eng, st, 'refuses with %s on a path with no such condition' % nm(r), inst)


class MutexDestroy(MutexOp):
    """pthread_mutex_destroy on a live mutex: gone iff it was free (or unrecoverable), otherwise untouched."""

    def __init__(self, kind):
        super().__init__('destroy', kind)

    def rep(self, eng, st, prop, msg, inst=None):
        self.report(eng, st, msg, inst)
        self.reports[-1]['prop'] = ('M05', 'M04') if self.robust else ('M05',)
        self.reports[-1]['case'] = 'kind=%s%s' % ('robust ' if self.robust else '', {0: 'normal', 1: 'recursive', 2: 'errorcheck'}.get(self.kind, self.kind))
        st.mon['!stop'] = 1

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        c = (eng.sym('arg', 'x', 'count'), 0)
        st.facts[c[0]] = (1, 1 << 30, frozenset())
        st.mem[self.A_count] = (c, 4)
        st.mon.update({'cnt': c, 'count0': c, 'took': 0, 'free_mx': 0, 'free_rn': 0, 'closed': 0, 'closefail': 0, 'busyseen': 0})
        self.evh = peek(st, self.A_event)

    fail_setevent = True

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        m = st.mon
        if m['free_mx'] and addr[0] == self.mx[0]:
            return self.rep(eng, st, 'M05', 'uses the mutex after freeing it', inst)
        if self.A_state and addr == self.A_state:
            c, i, n = robust_states(eng.p)
            o = old[1]
            if o == n:
                m['nr'] = 1
            if kind not in ('cas-fail', 'aload'):
                if o == -1 and val == (None, i):
                    m['inh'] = 1
                if val == (None, n):
                    m['nr2'] = 1
            return
        if addr != self.A_lock:
            return
        o = old[1]
        if o != FREE and not m['acq'] and not m['inh']:
            m['busyseen'] = 1
        if kind in ('cas-fail', 'aload'):
            return
        v = val[1] if const(val) else None
        if v == FREE:
            if m['acq'] or m['inh'] or o == FREE:
                m['acq'] = 0
                m['rel'] = 1
            elif self.tracks_owner() and self.owner0(st) is True:
                m['stolen'] = 1
            else:
                m['stolen'] = 1
        elif o == FREE:
            m['acq'] = 1
            m['took'] = 1
            m['rel'] = 0
            if self.tracks_owner():
                m['fresh'] = 1
        else:
            if o != v and not m['acq']:
                m['smashed'] = (None, o)

    def owner0(self, st):
        return None

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if m['free_mx'] and addr[0] == self.mx[0]:
            return self.rep(eng, st, 'M05', 'uses the mutex after freeing it', inst)
        if addr == self.A_count:
            m['cnt'] = v

    def on_memcpy(self, eng, st, dst, src, n, inst):
        pass

    def before_wait(self, eng, st, h, ms, inst):
        self.rep(eng, st, 'M05', 'destroy blocks', inst)

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        if name == 'CloseHandle':
            self.sites.add((eng.where(inst), 'close'))
            if ret == NULL:
                m['closefail'] = 1
            elif args[0] != self.evh or m['closed']:
                return self.rep(eng, st, 'M05', 'closes something other than the mutex event, or closes it twice', inst)
            else:
                m['closed'] = 1
        elif name == 'SetEvent' and ret == NULL:
            m['setfail'] = 1

    def on_free(self, eng, st, v, inst):
        m = st.mon
        if v == NULL:
            return
        self.sites.add((eng.where(inst), 'free'))
        k = 'free_mx' if v == self.mx else 'free_rn' if self.robust and v == self.rn else None
        if k is None or m[k]:
            return self.rep(eng, st, 'M05', 'frees something other than the mutex, or frees it twice', inst)
        m[k] = 1

    def on_deref(self, eng, st, addr, lab, inst, how):
        if st.mon['free_mx'] and addr[0] == self.mx[0] or self.robust and st.mon['free_rn'] and addr[0] == self.rn[0]:
            self.rep(eng, st, 'M05', 'uses the mutex after freeing it', inst)
            return STOP

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if not const(v):
            return self.rep(eng, st, 'M05', 'returns an unspecified value', inst)
        r = v[1]
        cur = peek(st, self.M)
        holds = (m['acq'] or m['inh']) and not m['rel']
        if r == 0:
            if not (m['free_mx'] and m['closed']) or (self.robust and not m['free_rn']):
                return self.rep(eng, st, 'M05', 'reports success without releasing everything the mutex owned', inst)
            if cur != NULL:
                return self.rep(eng, st, 'M05', 'leaves the destroyed mutex usable', inst)
            if not (m['took'] or m['inh'] or m['nr']):
                return self.rep(eng, st, 'M05', 'destroys a mutex without establishing that it was unlocked', inst)
            return
        if m['closefail'] or m.get('setfail'):
            return
        if m['free_mx'] or m['free_rn'] or m['closed']:
            return self.rep(eng, st, 'M05', 'reports %s after releasing parts of the mutex' % nm(r), inst)
        if cur != self.mx:
            return self.rep(eng, st, 'M05', 'reports %s but has discarded the mutex' % nm(r), inst)
        if holds or m.get('smashed') or m.get('stolen'):
            return self.rep(eng, st, 'M05', 'a refused destroy (%s) changes the lock' % nm(r), inst)
        if m['cnt'] != m['count0'] and not m['took'] and not m['inh']:
            return self.rep(eng, st, 'M05', 'a refused destroy (%s) changes the recursion count' % nm(r), inst)
        if r != E['EBUSY']:
            return self.rep(eng, st, 'M05', 'destroying a locked mutex reports %s' % nm(r), inst)
        if not m['busyseen']:
            return self.rep(eng, st, 'M05', 'reports EBUSY for a mutex that is not locked', inst)


def _jobs():
    out = []
    for fn in ('lock', 'trylock', 'timedlock', 'unlock', 'consistent'):
        for kind, kn in ((0, 'normal'), (1, 'recursive'), (2, 'errorcheck'), (-1, 'robust normal'), (-2, 'robust recursive'), (-3, 'robust errorcheck')):
            out.append({'kind': 'engine', 'props': ('M01', 'M02', 'M03', 'M04') + (('W01',) if fn in ('lock', 'timedlock') else ()), 'entry': 'pthread_mutex_' + fn, 'case': kn,
                        'make': (lambda fn=fn, kind=kind: MutexOp(fn, kind)), 'min_sites': 0 if fn == 'consistent' and kind >= 0 else 1,
                        'assumes': ASSUME})
    return out


ASSUME = ('Interlocked operations are atomic and sequentially consistent', 'the kernel event is auto-reset and starts clear',
          'the mutex argument is a live mutex (or null / a static initialiser where the case says so)',
          'the representation invariant: the lock word is free, held, or held-with-waiters')
JOBS = _jobs()
for _c in ('destroyed', 'RECURSIVE_', 'ERRORCHECK_'):
    JOBS.append({'kind': 'engine', 'props': ('M02',), 'entry': 'pthread_mutex_unlock', 'case': _c, 'min_sites': 0, 'assumes': ASSUME, 'make': (lambda c=_c: MutexUnused(c))})
for _c in ('null mutex', 'no attributes', 'null attributes', 'attributes'):
    JOBS.append({'kind': 'engine', 'props': ('M05',), 'entry': 'pthread_mutex_init', 'case': _c, 'min_sites': 0 if _c == 'null mutex' else 3, 'assumes': ASSUME,
                 'make': (lambda c=_c: MutexInit(c))})
for _k in (0, 1, 2, -1, -2, -3):
    JOBS.append({'kind': 'engine', 'props': ('M05', 'M04') if _k < 0 else ('M05',), 'entry': 'pthread_mutex_destroy', 'case': 'kind %d' % _k, 'min_sites': 3, 'assumes': ASSUME,
                 'make': (lambda k=_k: MutexDestroy(k))})
