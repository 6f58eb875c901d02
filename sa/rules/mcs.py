"""P01: the internal queue locks.  Each operation is analysed at the level of its atomic steps against every legal
behaviour of the other queue members: a successor goes through absent -> entered -> linked -> flagged, a predecessor
sets our ready flag only after we have flagged it, a flag cell holds 0, -1 or the event of its one waiter."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field
from ..contract import Contract, nm

ND = 'ptw32_mcs_node_t_'
SET = (None, -1)


class Mcs(Contract):
    PROPS = ('P01',)
    fail_wait = False

    def __init__(self, op):
        super().__init__()
        self.op = op

    def models(self):
        m = super().models()
        for n in ('ptw32_mcs_lock_acquire', 'ptw32_mcs_lock_try_acquire', 'ptw32_mcs_lock_release', 'ptw32_mcs_node_transfer'):
            m.pop(n)
        m['sched_yield'] = m['Sleep'] = m['SwitchToThread'] = self.m_yield
        return m

    def m_yield(self, eng, st, inst, args, name, cv):
        if self.op in ('release', 'transfer') and not st.mon['stage']:
            return self.rep(eng, st, 'waits for a successor without knowing that there is one', inst) or []
        return [(st, NULL)]

    def setup(self, eng, st, args):
        m = st.mon
        # stage of our successor: 0 absent, 1 entered, 2 linked, 3 flagged
        m.update({'stage': 0, 'pub': 0, 'pred': 0, 'freed': 0, 'handed': 0, 'ready': 0, 'lnk': 0, 'flg': 0, 'inst': 0, 'tok': ()})
        P = lambda n: self.ptr(eng, st, n)
        f = lambda o: {x: field(eng, o, ND, x) for x in ('lock', 'next', 'readyFlag', 'nextFlag')}
        self.succ, self.predn, self.other = P('successor'), P('predecessor'), P('other')
        self.sw, self.pw, self.ow = (P(x) for x in ('event of the successor', 'event of the predecessor', 'event of the old node'))
        m['keep'] = ('K', self.succ, self.predn, self.other, self.sw, self.pw, self.ow)
        self.S, self.Pn = f(self.succ), f(self.predn)
        for a in args:
            st.facts[a[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        if self.op in ('acquire', 'try'):
            self.lock, self.node = args[0], args[1]
            self.N = f(self.node)
            for x in self.N.values():
                st.mem[x] = (eng.sitesym(st, {'id': 'junk%s' % (x,), 'ty': 'ptr'}, 'junk'), 8)
            self.O = None
        elif self.op == 'release':
            self.node = args[0]
            self.N = f(self.node)
            self.lock = P('lock')
            st.mem[self.N['lock']] = (self.lock, 8)
            self.O = self.N
        else:
            self.node, self.old = args[0], args[1]
            self.N, self.O = f(self.node), f(self.old)
            self.lock = P('lock')
            st.mem[self.O['lock']] = (self.lock, 8)
            for x in self.N.values():
                st.mem[x] = (eng.sitesym(st, {'id': 'junk%s' % (x,), 'ty': 'ptr'}, 'junk'), 8)
        return None

    # our own cells change only as enumerated below
    def stable(self, eng, st, addr, lab):
        return True

    def name(self, addr):
        for o, d in (('node', self.N), ('old', self.O), ('succ', self.S), ('pred', self.Pn)):
            if d:
                for f, a in d.items():
                    if a == addr:
                        return o if o != 'old' or self.op == 'transfer' else 'node', f
        if addr == self.lock:
            return 'lock', ''
        return None, None

    def linkcells(self):
        """cells our successor writes: (next, nextFlag) of the node that is in the queue"""
        if self.op == 'transfer':
            return self.O
        return self.N

    def values(self, eng, st, addr):
        """possible current values of a shared cell"""
        m = st.mon
        L = self.linkcells()
        if self.op in ('release', 'transfer'):
            if addr == L['next']:
                if m['freed'] and self.op == 'release':
                    return [NULL]
                if m['pub'] and self.op == 'transfer':
                    return None
                return [self.succ] if m['stage'] >= 2 else [NULL, self.succ]
            if addr == L['nextFlag']:
                if m['freed']:
                    return [NULL]
                ev = m.get('ownev')
                if m['stage'] >= 3:
                    return [ev] if ev is not None else [SET]
                return [ev] if ev is not None else [NULL, SET]
        if self.op in ('acquire', 'try'):
            if m['pub'] and addr == self.N['readyFlag']:
                ev = m.get('ownev')
                if ev is not None:
                    return [ev]
                if m['ready']:
                    return [SET]
                return [NULL, SET] if m['flg'] else [NULL]
            if addr == self.Pn['nextFlag']:
                return [NULL, self.pw] if not m['flg'] else [SET]
        if addr == self.S['readyFlag']:
            return [NULL, self.sw] if not m['handed'] else [SET]
        if addr == self.lock:
            if self.op in ('acquire', 'try'):
                return [NULL, self.predn] if not m['pub'] else [self.node, self.other]
            mine = self.old if self.op == 'transfer' else self.node
            if m['pub'] or m['freed']:
                return [self.other]
            return [mine, self.succ] if m['stage'] == 0 else [self.succ]
        return None

    def load_forks(self, eng, st, addr, lab, inst):
        vs = self.values(eng, st, addr)
        if vs is None:
            return None
        out = []
        for i, v in enumerate(vs):
            t = st if i == len(vs) - 1 else st.fork()
            self.observe(eng, t, addr, v, inst)
            t.note('%s: %s reads %s' % (eng.where(inst), eng.showaddr(addr), eng.show(v)))
            out.append((t, v))
        return out

    def atomic_olds(self, eng, st, addr, lab, inst, kind):
        return self.values(eng, st, addr)

    def observe(self, eng, st, addr, v, inst):
        m = st.mon
        L = self.linkcells()
        if self.op in ('release', 'transfer'):
            if addr == L['next'] and v == self.succ:
                m['stage'] = max(m['stage'], 2)
            elif addr == L['next'] and not m['stage'] and not m['pub'] and not m['freed']:
                m['polls'] = m.get('polls', 0) + 1
                if m['polls'] > 8:
                    self.rep(eng, st, 'polls for a successor without knowing that there is one', inst)
                    m['!stop'] = 1
            if addr == L['nextFlag'] and v == SET:
                m['stage'] = 3
            if addr == self.lock and v == self.succ:
                m['stage'] = max(m['stage'], 1)
        elif addr == self.N['readyFlag'] and v == SET and m['pub']:
            m['ready'] = 1

    def dead(self, st, addr):
        o, f = self.name(addr)
        m = st.mon
        if o == 'succ' and m['handed']:
            return 'touches the successor after handing the lock over'
        if o == 'pred' and m['flg']:
            return 'touches the predecessor\'s node after telling it about its successor'
        if o == 'lock' and (m['freed'] or m['handed']):
            return 'touches the lock after giving it up'
        return None

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        d = self.dead(st, addr)
        if d:
            self.rep(eng, st, d, inst)
            return STOP
        o, f = self.name(addr)
        if o is None and addr[0] is not None and not (isinstance(addr[0], str) and addr[0][:2] in ('a:', 'g:')) and how != 'load':
            self.rep(eng, st, '%s of something that is not part of the queue' % how, inst)
            return STOP

    def on_store(self, eng, st, addr, lab, v, inst):
        self.sites.add((eng.where(inst), 'store'))
        self.write(eng, st, addr, None, v, inst, False)

    def on_atomic(self, eng, st, kind, addr, lab, old, val, comp, inst):
        self.observe(eng, st, addr, old, inst)
        self.sites.add((eng.where(inst), kind))
        if kind in ('cas-fail', 'aload'):
            # a waiter registered its event first: the flag stays as it is and the event is to be signalled
            m = st.mon
            o, f = self.name(addr)
            if kind == 'cas-fail' and o == 'pred' and f == 'nextFlag' and old == self.pw:
                if not m['lnk']:
                    return self.rep(eng, st, 'tells the predecessor about its successor before the link is in place', inst)
                m['tok'] = (self.pw,)
            if kind == 'cas-fail' and o == 'succ' and f == 'readyFlag' and old == self.sw:
                if m['stage'] < 3:
                    return self.rep(eng, st, 'hands the lock over before the successor has finished linking itself', inst)
                m['tok'] = (self.sw,)
            return
        self.write(eng, st, addr, old, val, inst, True)

    def zeroed(self, eng, st):
        for f in ('next', 'readyFlag', 'nextFlag'):
            m = st.mem.get(self.N[f])
            if m is None or m[0] != NULL:
                return f
        m = st.mem.get(self.N['lock'])
        if m is None or m[0] != self.lock:
            return 'lock'
        return None

    def write(self, eng, st, addr, old, val, inst, atomic):
        m = st.mon
        o, f = self.name(addr)
        if o is None:
            return
        R = lambda msg: self.rep(eng, st, msg, inst)
        if o == 'lock':
            if not atomic:
                return R('changes the queue tail without an atomic exchange')
            if self.op in ('acquire', 'try'):
                if val != self.node:
                    return R('puts something other than its node at the tail of the queue')
                if m['pub']:
                    return R('enters the queue twice')
                z = self.zeroed(eng, st)
                if z:
                    return R('enters the queue before its node\'s %s is initialised' % z)
                m['pub'] = 1
                m['pred'] = 1 if old != NULL else 0
                if old != NULL and self.op == 'try':
                    return R('a try-acquire joins the queue of an occupied lock')
            elif self.op == 'release':
                if val != NULL:
                    return R('leaves something in the tail of a queue that has no successor')
                if old != self.node or m['stage'] > 0:
                    return R('empties a queue that has a successor in it')
                m['freed'] = 1
            else:
                if val != self.node:
                    return R('puts something other than the new node at the tail of the queue')
                if old != self.old:
                    return R('replaces the tail of a queue that has a successor in it')
                z = self.zeroed(eng, st)
                if z:
                    return R('publishes the new node before its %s is initialised' % z)
                m['pub'] = 1
            return
        if o == 'pred':
            if f == 'next':
                if val != self.node:
                    return R('links the wrong node behind the predecessor')
                if not m['pub']:
                    return R('links before it is in the queue')
                m['lnk'] = 1
            elif f == 'nextFlag':
                if not atomic:
                    return R('sets a flag without an atomic exchange, losing the event of a waiter')
                if val != SET and not (old == self.pw and val == old):
                    return R('sets a flag to an undefined state')
                if not m['lnk']:
                    return R('tells the predecessor about its successor before the link is in place')
                if old == self.pw:
                    m['tok'] = (self.pw,)
                else:
                    m['flg'] = 1
            else:
                return R('changes the predecessor\'s %s' % f)
            return
        if o == 'succ':
            if f != 'readyFlag':
                return R('changes the successor\'s %s' % f)
            if not atomic:
                return R('sets a flag without an atomic exchange, losing the event of a waiter')
            if val != SET:
                return R('sets a flag to an undefined state')
            if self.op != 'release':
                return R('lets the successor in while the lock is still held')
            if m['stage'] < 3:
                return R('hands the lock over before the successor has finished linking itself')
            if old == self.sw:
                m['tok'] = (self.sw,)
            else:
                m['handed'] = 1
            return
        # own nodes
        wait = 'readyFlag' if self.op in ('acquire', 'try') else 'nextFlag'
        inq = (o == 'node' and (m['pub'] or self.op == 'release')) or o == 'old'
        if o == 'old' and self.op == 'transfer' and m['pub']:
            inq = False
        if inq:
            if f == wait and atomic and (old == NULL and self.live_handle(st, val)):
                m['ownev'] = val
                return
            if atomic and old is not None and old == val:
                return
            return R('overwrites %s of a node that is in the queue' % f)

    def live_handle(self, st, v):
        return any(r[1] == 'handle' and r[2] == v for r in self.live(st))

    def on_cas_note(self, *a):
        pass

    def on_created(self, eng, st, name, args, ret, inst):
        if len(args) > 2 and args[2] != NULL:
            self.rep(eng, st, 'the event is created already signalled', inst)

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        if name == 'SetEvent':
            if args[0] in m['tok']:
                m['tok'] = tuple(x for x in m['tok'] if x != args[0])
                if args[0] == self.pw:
                    m['flg'] = 1
                else:
                    m['handed'] = 1
                return
            return self.rep(eng, st, 'signals an event nobody waits on here', inst)
        if name == 'CloseHandle' and m.get('ownev') == args[0] and not m.get('waited'):
            return self.rep(eng, st, 'closes its event while it is still to be signalled', inst)
        super().on_api(eng, st, name, args, ret, inst)

    def m_wait(self, eng, st, inst, args, name, cv):
        m = st.mon
        h = args[0]
        self.sites.add((eng.where(inst), 'wait'))
        if m.get('ownev') != h:
            self.rep(eng, st, 'waits on an event nobody will signal', inst)
            return []
        if not self.live_handle(st, h):
            self.rep(eng, st, 'waits on a closed event', inst)
            return []
        if m.get('waited'):
            self.rep(eng, st, 'waits again for a flag that was set', inst)
            return []
        if self.op in ('acquire', 'try'):
            if not m['pred']:
                self.rep(eng, st, 'waits although the lock was free', inst)
                return []
            if not m['flg']:
                self.rep(eng, st, 'waits before telling the predecessor that it is there', inst)
                return []
        elif m['freed'] or m['stage'] == 0:
            self.rep(eng, st, 'waits for a successor that does not exist' if m['freed'] or m['pub'] else 'waits for a successor without knowing that there is one', inst)
            return []
        outs = []
        if args[1] != (None, -1):
            t = st.fork()
            t.note('%s: wait times out' % eng.where(inst))
            outs.append((t, (None, 258)))
        m['waited'] = 1
        if self.op in ('acquire', 'try'):
            m['ready'] = 1
        else:
            m['stage'] = 3
        st.note('%s: wait is signalled' % eng.where(inst))
        outs.append((st, NULL))
        return outs

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if m['tok']:
            return self.rep(eng, st, 'a waiter that registered its event is not signalled', inst)
        if self.live(st):
            return self.rep(eng, st, 'leaks an event', inst)
        op = self.op
        if op == 'acquire':
            if not m['pub']:
                return self.rep(eng, st, 'returns without having entered the queue', inst)
            if m['pred'] and not m['ready']:
                return self.rep(eng, st, 'enters without waiting for the holder to hand over', inst)
        elif op == 'try':
            if not const(v):
                return self.rep(eng, st, 'returns %s' % eng.show(v), inst)
            if (v[1] == 0) != bool(m['pub']):
                return self.rep(eng, st, 'returns %s although the lock was %s' % (nm(v), 'acquired' if m['pub'] else 'not acquired'), inst)
            if v[1] not in (0, E['EBUSY']):
                return self.rep(eng, st, 'returns %s for an occupied lock' % nm(v), inst)
        elif op == 'release':
            if not (m['freed'] or m['handed']):
                return self.rep(eng, st, 'neither frees the lock nor hands it over', inst)
            if m['freed'] and m['handed']:
                return self.rep(eng, st, 'hands a lock over that it has freed', inst)
        else:
            if m['pub']:
                z = self.zeroed(eng, st)
                if z:
                    return self.rep(eng, st, 'the new node\'s %s is overwritten after it was published' % z, inst)
                return
            if m['stage'] < 3:
                return self.rep(eng, st, 'abandons the old node while a successor may still write to it', inst)
            x = {f: eng.load(st, self.N[f], 8, {'id': 'peek', 'loc': None}) for f in self.N}
            if x['lock'] != self.lock:
                return self.rep(eng, st, 'the new node does not know its lock', inst)
            if x['next'] != self.succ:
                return self.rep(eng, st, 'the successor is not passed on to the new node', inst)
            if eng.decide(st, 'ne', x['nextFlag'], NULL) is not True:
                return self.rep(eng, st, 'the new node does not know that its successor is linked', inst)


ASSUME = ('a flag cell is waited on by one thread only', 'kernel waits on a private event do not fail', 'sequentially consistent interlocked operations')
JOBS = []
for _f, _o in (('ptw32_mcs_lock_acquire', 'acquire'), ('ptw32_mcs_lock_try_acquire', 'try'), ('ptw32_mcs_lock_release', 'release'), ('ptw32_mcs_node_transfer', 'transfer')):
    JOBS.append({'kind': 'engine', 'props': ('P01',), 'entry': _f, 'case': _o, 'min_sites': 1, 'assumes': ASSUME, 'make': (lambda o=_o: Mcs(o))})
