"""Thread-specific data: keys, values, destructors, association lists (T*)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm

KT, AS, TH = 'pthread_key_t_', 'ThreadKeyAssoc', 'ptw32_thread_t_'
SLOTBAD = (None, -1)


class Tsd(Contract):
    fail_setevent = False

    def models(self):
        m = super().models()
        m['TlsAlloc'] = self.m_tlsalloc
        m['TlsFree'] = self.m_tlsfree
        m['TlsGetValue'] = self.m_tlsget
        m['TlsSetValue'] = self.m_tlsset
        m['ptw32_processInitialize'] = lambda eng, st, inst, args, name, cv: [(st, (None, 1))]
        return m

    def R(self, eng, st, msg, inst):
        return self.rep(eng, st, msg, inst) or []

    def held(self, st, cell):
        return any(l == cell for _, l, n in self.mcs(st))

    def m_tlsalloc(self, eng, st, inst, args, name, cv):
        t = st.fork()
        self.fail(t, 'slot')
        s = eng.sitesym(st, inst, 'slot')
        st.facts[s[0]] = (-INF, INF, frozenset([-1]))
        self.own(st, 'slot', s)
        self.sites.add((eng.where(inst), name))
        return [(t, SLOTBAD), (st, s)]

    def m_tlsfree(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        return [(st, (None, 1))]

    def m_tlsget(self, eng, st, inst, args, name, cv):
        raise AnalysisBroken('TlsGetValue')

    m_tlsset = m_tlsget


class KeyCreate(Tsd):
    PROPS = ('T02',)

    def setup(self, eng, st, args):
        self.A = args[0]
        st.mon['dt'] = args[1]
        st.facts[self.A[0]] = (-INF, INF, frozenset([0]))

    def stable(self, eng, st, addr, lab):
        return True

    def m_tlsfree(self, eng, st, inst, args, name, cv):
        if self.drop(st, args[0]) != 'slot':
            return self.R(eng, st, 'frees a slot it did not allocate', inst)
        return [(st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if not const(v):
            return R('returns %s' % eng.show(v))
        cur = peek(st, self.A)
        kinds = sorted(r[1] for r in self.live(st))
        if v[1] == 0:
            if kinds != ['mem', 'slot'] or cur not in [r[2] for r in self.live(st) if r[1] == 'mem']:
                return R('reports success without a complete key (or leaks)')
            slot = [r[2] for r in self.live(st) if r[1] == 'slot'][0]
            if self.val(eng, st, cur, KT, 'key', 4) != slot:
                return R('the new key does not use the slot it allocated')
            if self.val(eng, st, cur, KT, 'destructor', 8) != m['dt']:
                return R('the new key does not have the requested destructor')
            if self.val(eng, st, cur, KT, 'threads', 8) != NULL or self.val(eng, st, cur, KT, 'keyLock', 8) != NULL:
                return R('the new key does not start unused')
            return
        if kinds:
            return R('fails and leaks %s' % ', '.join(kinds))
        if not m['failed']:
            return R('returns %s although nothing failed' % nm(v))
        if v[1] != (E['ENOMEM'] if self.failed_any(st, 'mem') else E['EAGAIN']):
            return R('reports %s for a failed %s' % (nm(v), m['failed'][0][1]))
        if cur in m.get('gone', ()) and cur is not None:
            return R('fails and hands out a freed key')


class KeyDelete(Tsd):
    PROPS = ('T02',)

    def __init__(self, case):
        super().__init__(case)

    def models(self):
        m = super().models()
        m['ptw32_tkAssocDestroy'] = self.m_assoc
        m['*indirect'] = self.m_ind
        return m

    def m_ind(self, eng, st, inst, args, name, cv):
        return self.R(eng, st, 'runs a destructor for a deleted key', inst)

    def setup(self, eng, st, args):
        m = st.mon
        k = self.key = args[0]
        if self.case == 'null':
            eng.substitute(st, k[0], NULL)
            return
        st.facts[k[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        m.update({'cur': 0, 'loads': 0, 'flushed': 0, 'tls': 0, 'emp': 0})
        self.F = {f: field(eng, k, KT, f) for f in ('key', 'destructor', 'keyLock', 'threads')}
        d = self.ptr(eng, st, 'destructor') if self.case == 'destructor' else NULL
        s = self.sym(eng, st, 'slot')
        st.mem[self.F['destructor']] = (d, 8)
        st.mem[self.F['key']] = (s, 4)
        m['keep'] = ('K', k, s)
        self.slot = s

    def stable(self, eng, st, addr, lab):
        return hasattr(self, 'F') and addr in (self.F['destructor'], self.F['key'])

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if hasattr(self, 'F') and addr == self.F['threads']:
            if self.case != 'destructor':
                return [(st, NULL)]
            if m['cur'] and self.held(st, self.F['keyLock']):
                m['loads'] += 1
                if m['loads'] > 8:
                    self.rep(eng, st, 'associations are not removed', inst)
                    return []
                return [(st, m['node'])]
            t = st.fork()
            t.mon['emp'] = 1
            t.mon['flushed'] = 1 if self.held(t, self.F['keyLock']) else 0
            t.mon.pop('node', None)
            t.note('%s: no association (left)' % eng.where(inst))
            n = eng.sitesym(st, dict(inst, ty='ptr'), 'assoc')
            st.facts[n[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            if self.held(st, self.F['keyLock']):
                m.update({'cur': 1, 'node': n, 'loads': 0, 'emp': 0})
                th = eng.sitesym(st, dict(inst, ty='ptr'), 'thread')
                st.facts[th[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
                m['thread'] = th
            return [(t, NULL), (st, n)]
        if m.get('node') is not None and addr[0] == m['node'][0]:
            if addr == field(eng, m['node'], AS, 'thread'):
                return [(st, m['thread'])]
            if addr == field(eng, m['node'], AS, 'key'):
                return [(st, self.key)]

    def on_acquired(self, eng, st, lock, inst):
        if lock == self.F['keyLock']:
            st.mon['flushed'] = 1
            self.sites.add((eng.where(inst), 'key lock'))

    def on_acquire(self, eng, st, lock, node, inst):
        if lock == self.F['keyLock'] and self.mcs(st):
            self.rep(eng, st, 'takes the key lock after a thread lock', inst)

    def on_release(self, eng, st, lock, inst):
        m = st.mon
        if lock == self.F['keyLock'] and m['cur']:
            self.rep(eng, st, 'lets go of the key while associations remain', inst)

    def m_assoc(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'association'))
        if not m['cur'] or args[0] != m['node']:
            return self.R(eng, st, 'removes an association that is not the key\'s', inst)
        if not self.held(st, self.F['keyLock']) or not self.held(st, field(eng, m['thread'], TH, 'threadLock')):
            return self.R(eng, st, 'removes an association without holding the key\'s and the thread\'s lock', inst)
        m.update({'cur': 0, 'loads': 0})
        m.pop('node')
        return [(st, None)]

    def m_tlsfree(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != self.slot or m['tls']:
            return self.R(eng, st, 'frees the wrong slot (or frees it twice)', inst)
        m['tls'] = 1
        return [(st, (None, 1))]

    def free_foreign(self, eng, st, v, inst):
        m = st.mon
        super().free_foreign(eng, st, v, inst)
        if v != self.key:
            return self.rep(eng, st, 'frees an association behind the lists\' back', inst)
        if self.mcs(st):
            return self.rep(eng, st, 'frees the key while its lock is held', inst)
        if self.case == 'destructor' and not (m['emp'] and m['flushed']):
            return self.rep(eng, st, 'frees the key while an exiting thread may still be using it' if m['emp'] else 'frees the key while associations refer to it', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if not const(v):
            return R('returns %s' % eng.show(v))
        if self.case == 'null':
            return
        fr = self.key in m.get('freed', ())
        if v[1] == 0 and not (fr and m['tls']):
            return R('reports success without having released the key')
        if v[1] != 0:
            return R('returns %s for a valid key' % nm(v))


class SetSpecific(Tsd):
    PROPS = ('T01',)
    self_null = True

    def setup(self, eng, st, args):
        m = st.mon
        k, v = self.key, self.v = args
        st.facts[k[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        st.rel = st.rel | {('ne', k, sk), ('ne', sk, k)}
        d = self.sym(eng, st, 'destructor')
        s = self.sym(eng, st, 'slot')
        self.F = {f: field(eng, k, KT, f) for f in ('key', 'destructor', 'keyLock', 'threads')}
        st.mem[self.F['destructor']] = (d, 8)
        st.mem[self.F['key']] = (s, 4)
        p = self.self_p(eng)
        st.facts[p[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        self.tk, self.tl = field(eng, p, TH, 'keys'), field(eng, p, TH, 'threadLock')
        m.update({'key': k, 'val': v, 'dt': d, 'slot': s, 'selfkey': sk, 'p': p, 'asc': 0, 'set': 0, 'exh': 0, 'tlsfail': 0, 'nul': 0})

    def stable(self, eng, st, addr, lab):
        return addr in (self.F['destructor'], self.F['key'], ('g:ptw32_selfThreadKey', 0))

    def both(self, st):
        return self.held(st, self.F['keyLock']) and self.held(st, self.tl)

    def node(self, eng, st, inst, tag):
        n = eng.sitesym(st, dict(inst, ty='ptr'), tag)
        st.facts[n[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        return n

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if addr in (self.tk, self.F['threads']) and peek(st, addr) is None:
            if not self.held(st, self.tl if addr == self.tk else self.F['keyLock']):
                self.rep(eng, st, 'reads a list of associations without its lock', inst)
                return []
            t = st.fork()
            t.mem[addr] = (NULL, 8)
            n = self.node(eng, st, inst, 'head')
            st.mem[addr] = (n, 8)
            if addr == self.tk:
                m['h2'], t.mon['h2'] = n, NULL
                t.mon['exh'] = 1
                m['cur'] = n
            else:
                m['h1'], t.mon['h1'] = n, NULL
            return [(t, NULL), (st, n)]
        cur = m.get('cur')
        if cur is not None and cur != NULL:
            if addr == field(eng, cur, AS, 'nextKey'):
                t = st.fork()
                t.mon['exh'] = 1
                n = self.node(eng, st, inst, 'next')
                m['cur'] = n
                m.pop('ck', None)
                return [(t, NULL), (st, n)]
            if addr == field(eng, cur, AS, 'key'):
                t = st.fork()
                t.mon['asc'] = 1
                o = eng.sitesym(st, dict(inst, ty='ptr'), 'otherkey')
                st.facts[o[0]] = (-INF, INF, frozenset([0]))
                st.rel = st.rel | {('ne', o, m['key']), ('ne', m['key'], o)}
                t.note('%s: this association belongs to the key' % eng.where(inst))
                return [(t, t.mon['key']), (st, o)]

    def on_alloc(self, eng, st, v, inst, args):
        super().on_alloc(eng, st, v, inst, args)
        if v != NULL:
            if st.mon['asc']:
                self.rep(eng, st, 'creates a second association for the key', inst)
            elif not st.mon['exh']:
                self.rep(eng, st, 'creates an association without looking for an existing one', inst)
            else:
                st.mon['new'] = v

    def on_store(self, eng, st, addr, lab, v, inst):
        lb = eng.label(addr)
        if addr in (self.tk, self.F['threads']) or (lb and lb[0].endswith('ThreadKeyAssoc') and addr[0] != st.mon.get('new', (None,))[0]):
            self.sites.add((eng.where(inst), 'list update'))
            if not self.both(st):
                self.rep(eng, st, 'changes the lists of associations without holding both locks', inst)

    def on_release(self, eng, st, lock, inst):
        m = st.mon
        if lock not in (self.tl, self.F['keyLock']) or m.get('new') is None or m.get('linked'):
            return
        n = m['new']
        L = lambda o, f: self.val(eng, st, o, AS, f, 8)
        h1, h2 = m.get('h1'), m.get('h2')
        bad = None
        if L(n, 'thread') != m['p'] or L(n, 'key') != m['key']:
            bad = 'does not name its thread and key'
        elif peek(st, self.tk) != n or peek(st, self.F['threads']) != n:
            bad = 'is not in both lists'
        elif L(n, 'nextKey') != h2 or L(n, 'nextThread') != h1:
            bad = 'cuts off the rest of a list'
        elif (h2 != NULL and L(h2, 'prevKey') != n) or (h1 != NULL and L(h1, 'prevThread') != n):
            bad = 'is not linked back'
        elif L(n, 'prevKey') != NULL or L(n, 'prevThread') != NULL:
            bad = 'is not at the head of its lists'
        if bad:
            return self.rep(eng, st, 'the new association %s' % bad, inst)
        m['linked'] = 1
        m['asc'] = 1

    def m_tlsset(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != m['slot'] or args[1] != m['val']:
            return self.R(eng, st, 'stores the wrong value or stores it in the wrong slot', inst)
        t = st.fork()
        t.mon['tlsfail'] = 1
        m['set'] = 1
        return [(t, NULL), (st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if not const(v):
            return R('returns %s' % eng.show(v))
        if self.mcs(st):
            return R('returns holding an internal lock')
        if v[1] == 0:
            if not m['set']:
                return R('reports success without storing the value')
            if not m['asc'] and eng.decide(st, 'eq', m['dt'], NULL) is not True and eng.decide(st, 'eq', m['val'], NULL) is not True:
                return R('a value is stored that no destructor call will see')
        else:
            if m['set']:
                return R('returns %s but has stored the value' % nm(v))
            if m['failed'] and v[1] != E['ENOMEM']:
                return R('reports %s when out of memory' % nm(v))


class SetList(SetSpecific):
    """pthread_setspecific for every concrete list of up to three associations, with the key's own one anywhere in it or missing"""
    nowiden = True

    def setup(self, eng, st, args):
        super().setup(eng, st, args)
        eng._mergefact(st.facts, st.mon['dt'][0], (-INF, INF, frozenset([0])))
        outs = []
        for n in range(4):
            for pos in (None,) + tuple(range(n)):
                s = st.fork()
                P = lambda x: self.ptr(eng, s, x)
                L = [P('association %d' % (i + 1)) for i in range(n)]
                ks = [s.mon['key'] if i == pos else P('key %d' % (i + 1)) for i in range(n)]
                h1 = P('another thread\'s association') if pos is None or pos % 2 else L[pos]
                for i, a in enumerate(L):
                    for f, v in (('thread', s.mon['p']), ('key', ks[i]), ('nextKey', L[i + 1] if i + 1 < n else NULL), ('prevKey', L[i - 1] if i else NULL),
                                 ('nextThread', NULL), ('prevThread', NULL if h1 == a else h1 if i == pos else NULL)):
                        s.mem[field(eng, a, AS, f)] = (v, 8)
                h2 = L[0] if L else NULL
                s.mem[self.tk] = (h2, 8)
                s.mem[self.F['threads']] = (h1, 8)
                s.mem[field(eng, h1, AS, 'prevThread')] = (NULL, 8)
                if h1 not in L:
                    s.mem[field(eng, h1, AS, 'key')] = (s.mon['key'], 8)
                al = [*L, s.mon['key'], s.mon['p'], s.mon['selfkey']] + [k for i, k in enumerate(ks) if i != pos] + ([h1] if h1 not in L else [])
                for i, x in enumerate(al):
                    for y in al[i + 1:]:
                        s.rel = s.rel | {('ne', x, y), ('ne', y, x)}
                s.mon.update({'h1': h1, 'h2': h2, 'asc': int(pos is not None), 'exh': 1, 'n': n, 'steps': 0, 'keep': ('K', *al)})
                s.note('%d associations, %s' % (n, 'none of them for the key' if pos is None else 'number %d for the key' % (pos + 1)))
                outs.append(s)
        return outs

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if lab and lab[0].endswith('ThreadKeyAssoc'):
            m['steps'] += 1
            if m['steps'] > 8 * m['n'] + 8:
                self.rep(eng, st, 'does not get through the list of associations', inst)
                return []
            if not self.held(st, self.tl):
                self.rep(eng, st, 'reads a list of associations without its lock', inst)
                return []
        if addr in (self.tk, self.F['threads']) and not self.held(st, self.tl if addr == self.tk else self.F['keyLock']):
            self.rep(eng, st, 'reads a list of associations without its lock', inst)
            return []


class SetSelf(Tsd):
    """pthread_setspecific for the library's own key, whose value is the caller's record: it must not need that record"""
    PROPS = ('T01', 'J06')

    def models(self):
        m = super().models()
        m['pthread_self'] = lambda eng, st, inst, args, name, cv: self.R(eng, st, 'asks for the caller\'s record in order to store it', inst)
        return m

    def setup(self, eng, st, args):
        m = st.mon
        k = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (k, 8)
        eng.substitute(st, args[0][0], k)
        s = self.sym(eng, st, 'slot')
        st.mem[field(eng, k, KT, 'key')] = (s, 4)
        st.mem[field(eng, k, KT, 'destructor')] = (NULL, 8)
        v = args[1]
        st.facts[v[0]] = (65536, INF, frozenset())
        m.update({'k': k, 'slot': s, 'v': v, 'set': 0, 'tf': 0, 'keep': ('K', k, s)})

    def stable(self, eng, st, addr, lab):
        return True

    def m_tlsget(self, eng, st, inst, args, name, cv):
        if args[0] != st.mon['slot']:
            return self.R(eng, st, 'reads another slot', inst)
        t = st.fork()
        o = self.ptr(eng, t, 'record')
        return [(st, NULL), (t, o)]

    def m_tlsset(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != m['slot'] or args[1] != m['v']:
            return self.R(eng, st, 'stores the wrong value or stores it in the wrong slot', inst)
        t = st.fork()
        t.mon['tf'] = 1
        m['set'] = 1
        return [(t, NULL), (st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if self.mcs(st):
            return self.rep(eng, st, 'returns holding an internal lock', inst)
        if not const(v) or (v[1] == 0) != bool(m['set']):
            return self.rep(eng, st, 'returns %s although the value was%s stored' % (nm(v), '' if m['set'] else ' not'), inst)


class GetSpecific(Tsd):
    PROPS = ('T01',)

    def models(self):
        m = super().models()
        m['GetLastError'] = lambda eng, st, inst, args, name, cv: [(st, st.mon['le'])]
        m['SetLastError'] = self.m_sle
        return m

    def m_sle(self, eng, st, inst, args, name, cv):
        st.mon['le'] = args[0]
        return [(st, None)]

    def setup(self, eng, st, args):
        k = args[0]
        if self.case == 'null':
            eng.substitute(st, k[0], NULL)
        else:
            st.facts[k[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            s = self.sym(eng, st, 'slot')
            st.mem[field(eng, k, KT, 'key')] = (s, 4)
            st.mon['slot'] = s
        e = self.sym(eng, st, 'last error')
        st.mon['le'] = e
        st.mon['le0'] = e
        st.mon['got'] = NULL

    def stable(self, eng, st, addr, lab):
        return True

    def m_tlsget(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if args[0] != st.mon.get('slot'):
            return self.R(eng, st, 'reads the wrong slot', inst)
        st.mon['le'] = NULL
        v = eng.sitesym(st, inst, 'value')
        st.mon['got'] = v
        return [(st, v)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if v != m['got']:
            return self.rep(eng, st, 'does not return the value stored for this thread', inst)
        if m['le'] != m['le0']:
            return self.rep(eng, st, 'changes the caller\'s last error', inst)


class Destructors(Tsd):
    PROPS = ('T03',)

    def models(self):
        m = super().models()
        m['ptw32_tkAssocDestroy'] = self.m_assoc
        m['*indirect'] = self.m_dtor
        return m

    def setup(self, eng, st, args):
        m = st.mon
        # pthread_t is passed by reference (two words)
        p = self.self_p(eng)
        st.facts[p[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        t = args[0]
        if len(args) == 1:
            eng.substitute(st, t[0], ('a:arg:thread', 0))       # the caller's own copy
            st.mem[('a:arg:thread', 0)] = (p, 8)
        else:
            eng.substitute(st, t[0], p)
        self.p = p
        self.tl, self.nx, self.tk = (field(eng, p, TH, f) for f in ('threadLock', 'nextAssoc', 'keys'))
        m.update({'p': p, 'passes': 0, 'called': 0, 'adv': 0, 'open': 0, 'end': 0})

    def drop_node(self, st):
        for x in ('node', 'key', 'dt', 'slot', 'val', 'clr', 'nxt'):
            st.mon.pop(x, None)
        st.mon['open'] = 0
        st.mon['adv'] = 0

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if addr == self.nx or addr == self.tk:
            if not self.held(st, self.tl):
                self.rep(eng, st, 'reads the list of associations without the thread lock', inst)
                return []
            if addr == self.tk:
                h = eng.sitesym(st, dict(inst, ty='ptr'), 'keys')
                m['keys'] = h
                return [(st, h)]
            if m['open'] == 2:
                self.rep(eng, st, 'an association is passed over', inst)
                return []
            if m.get('node') is not None and m['open'] == 1 and not m['adv'] and not m.get('retry'):
                return [(st, m['node'])]
            self.drop_node(st)
            m.pop('retry', None)
            t = st.fork()
            t.mon['end'] = 1
            t.note('%s: no further association' % eng.where(inst))
            n = eng.sitesym(st, dict(inst, ty='ptr'), 'assoc')
            st.facts[n[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
            m['node'] = n
            m['open'] = 1
            m['end'] = 0
            return [(t, NULL), (st, n)]
        n = m.get('node')
        if n is not None and addr[0] == n[0]:
            if addr == field(eng, n, AS, 'key'):
                k = m.get('key')
                if k is None:
                    k = eng.sitesym(st, dict(inst, ty='ptr', id='assockey'), 'key')
                    st.facts[k[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
                    m['key'] = k
                return [(st, k)]
            if addr == field(eng, n, AS, 'nextKey'):
                x = eng.sitesym(st, dict(inst, ty='ptr'), 'nextKey')
                m['nxt'] = x
                return [(st, x)]
            if addr == field(eng, n, AS, 'thread'):
                return [(st, m['p'])]
        k = m.get('key')
        if k is not None and addr[0] == k[0]:
            for f, tag, sz in (('destructor', 'dt', 8), ('key', 'slot', 4)):
                if addr == field(eng, k, KT, f):
                    if not self.held(st, field(eng, k, KT, 'keyLock')):
                        self.rep(eng, st, 'looks at a key without its lock (it may be deleted meanwhile)', inst)
                        return []
                    v = m.get(tag)
                    if v is None:
                        v = eng.sitesym(st, dict(inst, ty='ptr', id='k' + f), tag)
                        if f == 'destructor':
                            st.facts[v[0]] = (-INF, INF, frozenset([0]))
                        m[tag] = v
                    return [(st, v)]

    def on_acquire(self, eng, st, lock, node, inst):
        k = st.mon.get('key')
        if k is not None and lock == field(eng, k, KT, 'keyLock') and self.mcs(st) and not self.trying:
            self.rep(eng, st, 'waits for a key lock while holding the thread lock (key deletion takes them in the other order)', inst)

    trying = False

    def m_mcs_try(self, eng, st, inst, args, name, cv):
        self.trying = True
        try:
            outs = super().m_mcs_try(eng, st, inst, args, name, cv)
        finally:
            self.trying = False
        for s, v in outs:
            if v != NULL:
                s.mon['retry'] = 1
        return outs

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if addr != self.nx:
            return
        if not self.held(st, self.tl):
            return self.rep(eng, st, 'moves on in the list of associations without the thread lock', inst)
        if v == m.get('nxt') and v is not None:
            m['adv'] = 1
            if m['open'] == 1:
                m['open'] = 2       # must be dealt with before the next one
        elif v == m.get('keys'):
            if m['open'] == 2:
                return self.rep(eng, st, 'an association is passed over', inst)
            m['passes'] = min(m['passes'] + 1, K['PTHREAD_DESTRUCTOR_ITERATIONS'] + 2)
            m['called'] = 0
            m['end'] = 0
            m.pop('keys')
            self.sites.add((eng.where(inst), 'pass'))
        else:
            return self.rep(eng, st, 'loses its place in the list of associations', inst)

    def m_tlsget(self, eng, st, inst, args, name, cv):
        m = st.mon
        if m.get('slot') is None or args[0] != m['slot']:
            return self.R(eng, st, 'reads the wrong slot', inst)
        v = eng.sitesym(st, inst, 'value')
        m['val'] = v
        return [(st, v)]

    def m_tlsset(self, eng, st, inst, args, name, cv):
        m = st.mon
        if m.get('slot') is None or args[0] != m['slot']:
            return self.R(eng, st, 'clears the wrong slot', inst)
        if args[1] != NULL:
            return self.R(eng, st, 'sets the value to something other than NULL', inst)
        if m.get('val') is None:
            return self.R(eng, st, 'clears a value before reading it', inst)
        m['clr'] = 1
        return [(st, (None, 1))]

    def m_dtor(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'destructor'))
        if m.get('dt') is None or cv != m['dt']:
            return self.R(eng, st, 'calls something other than the key\'s destructor', inst)
        if self.mcs(st):
            return self.R(eng, st, 'calls a user destructor while holding internal locks', inst)
        if m.get('val') is None or args[0] != m['val'] or eng.decide(st, 'ne', args[0], NULL) is not True:
            return self.R(eng, st, 'calls the destructor with something other than the thread\'s non-NULL value', inst)
        if not m.get('clr'):
            return self.R(eng, st, 'calls the destructor before the value is reset to NULL', inst)
        if not m['adv']:
            return self.R(eng, st, 'calls a destructor that may remove the association the loop stands on', inst)
        if m['passes'] > K['PTHREAD_DESTRUCTOR_ITERATIONS']:
            return self.R(eng, st, 'runs more destructor rounds than PTHREAD_DESTRUCTOR_ITERATIONS', inst)
        m['called'] = 1
        self.drop_node(st)
        eng.invalidate(st)
        return [(st, None)]

    def m_assoc(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'association'))
        if m.get('node') is None or args[0] != m['node']:
            return self.R(eng, st, 'removes the wrong association', inst)
        if not (m.get('key') is not None and self.held(st, field(eng, m['key'], KT, 'keyLock')) and self.held(st, self.tl)):
            return self.R(eng, st, 'removes an association without holding the key\'s and the thread\'s lock', inst)
        if m['passes'] <= K['PTHREAD_DESTRUCTOR_ITERATIONS'] and (m.get('val') is None or eng.decide(st, 'eq', m['val'], NULL) is not True):
            return self.R(eng, st, 'drops a non-NULL value without calling its destructor', inst)
        self.drop_node(st)
        eng.invalidate(st)
        return [(st, None)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('returns holding an internal lock')
        if not m['end'] or m['open'] == 2:
            return R('returns before all associations have been looked at')
        if m['called']:
            return R('returns although the last round ran destructors, which may have stored new values')


class Unlink(Tsd):
    """ptw32_tkAssocDestroy on every shape of the two lists"""
    PROPS = ('T02', 'T03')

    def setup(self, eng, st, args):
        a = self.a = args[0]
        f = lambda o, s, x: field(eng, o, s, x)
        st.facts[a[0]] = (-INF, INF, frozenset([0, -1, -2, -3]))
        outs = []
        for shape in range(32):
            s = st.fork()
            P = lambda n: self.ptr(eng, s, n)
            t, k = P('thread'), P('key')
            pk, nk, pt, nt = (P(n) if shape >> i & 1 else NULL for i, n in enumerate(('prevKey', 'nextKey', 'prevThread', 'nextThread')))
            s.mem[f(a, AS, 'thread')] = (t, 8)
            s.mem[f(a, AS, 'key')] = (k, 8)
            for n, v in (('prevKey', pk), ('nextKey', nk), ('prevThread', pt), ('nextThread', nt)):
                s.mem[f(a, AS, n)] = (v, 8)
            h1, h2 = P('first key'), P('first thread')
            s.mem[f(t, TH, 'keys')] = (h1 if pk != NULL else a, 8)
            s.mem[f(k, KT, 'threads')] = (h2 if pt != NULL else a, 8)
            s.mem[f(t, TH, 'nextAssoc')] = (a if shape >> 4 else NULL, 8)
            for o, n in ((pk, 'nextKey'), (nk, 'prevKey'), (pt, 'nextThread'), (nt, 'prevThread')):
                if o != NULL:
                    s.mem[f(o, AS, n)] = (a, 8)
            s.mon.update({'t': t, 'k': k, 'pk': pk, 'nk': nk, 'pt': pt, 'nt': nt, 'h1': h1, 'h2': h2, 'on': shape >> 4})
            L = [x for x in (a, t, k, pk, nk, pt, nt, h1, h2) if x != NULL]
            for i, x in enumerate(L):
                for y in L[i + 1:]:
                    if not ({x, y} <= {pk, h1} or {x, y} <= {pt, h2}):
                        s.rel = s.rel | {('ne', x, y), ('ne', y, x)}
            for x in (h1, h2):
                s.rel = s.rel | {('ne', a, x), ('ne', x, a)}
            outs.append(s)
        return outs

    def stable(self, eng, st, addr, lab):
        return True

    def free_foreign(self, eng, st, v, inst):
        m = st.mon
        if v != self.a:
            return self.rep(eng, st, 'frees something other than the association', inst)
        g = lambda o, s, f: self.val(eng, st, o, s, f, 8)
        bad = None
        if g(m['t'], TH, 'keys') != (m['h1'] if m['pk'] != NULL else m['nk']):
            bad = 'the thread\'s list does not start with what is left of it'
        elif g(m['k'], KT, 'threads') != (m['h2'] if m['pt'] != NULL else m['nt']):
            bad = 'the key\'s list does not start with what is left of it'
        elif g(m['t'], TH, 'nextAssoc') != (m['nk'] if m['on'] else NULL):
            bad = 'an exiting thread\'s position is left on (or moved off) the wrong association'
        else:
            for o, f, w in (('pk', 'nextKey', 'nk'), ('nk', 'prevKey', 'pk'), ('pt', 'nextThread', 'nt'), ('nt', 'prevThread', 'pt')):
                if m[o] != NULL and g(m[o], AS, f) != m[w]:
                    bad = '%s of its neighbour still refers to it' % f
        if bad:
            return self.rep(eng, st, 'removing an association: %s' % bad, inst)
        super().free_foreign(eng, st, v, inst)

    def on_exit(self, eng, st, kind, v, inst):
        if self.a not in st.mon.get('freed', ()):
            self.rep(eng, st, 'the association is not freed', inst)


ASSUME = ('internal queue locks give mutual exclusion (property P01)', 'a key is not used after its deletion by the program')
JOBS = [
    {'kind': 'engine', 'props': ('T01',), 'entry': 'pthread_setspecific', 'case': '', 'min_sites': 2, 'assumes': ASSUME, 'make': SetSpecific},
    {'kind': 'engine', 'props': ('T01',), 'entry': 'pthread_setspecific', 'case': 'lists', 'min_sites': 1, 'assumes': ASSUME, 'make': SetList},
    {'kind': 'engine', 'props': ('T01', 'J06'), 'entry': 'pthread_setspecific', 'case': 'own key', 'min_sites': 1, 'assumes': ASSUME, 'make': SetSelf},
    {'kind': 'engine', 'props': ('T01',), 'entry': 'pthread_getspecific', 'case': 'valid', 'min_sites': 1, 'assumes': ASSUME, 'make': lambda: GetSpecific('valid')},
    {'kind': 'engine', 'props': ('T01',), 'entry': 'pthread_getspecific', 'case': 'null', 'assumes': ASSUME, 'make': lambda: GetSpecific('null')},
    {'kind': 'engine', 'props': ('T02',), 'entry': 'pthread_key_create', 'case': '', 'min_sites': 1, 'assumes': ASSUME, 'make': KeyCreate},
    {'kind': 'engine', 'props': ('T03',), 'entry': 'ptw32_callUserDestroyRoutines', 'case': '', 'min_sites': 3, 'assumes': ASSUME, 'make': Destructors},
    {'kind': 'engine', 'props': ('T02', 'T03'), 'entry': 'ptw32_tkAssocDestroy', 'case': '', 'assumes': ASSUME, 'make': Unlink},
]
for _c in ('destructor', 'plain', 'null'):
    JOBS.append({'kind': 'engine', 'props': ('T02',), 'entry': 'pthread_key_delete', 'case': _c, 'min_sites': 0 if _c == 'null' else 1, 'assumes': ASSUME, 'make': (lambda c=_c: KeyDelete(c))})
