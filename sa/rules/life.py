"""Life of a thread: creation, start, end, joining, detaching, records and handles (J*)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from .cancel import Thr, TH, ASSUME

ATTR = 'pthread_attr_t_'
PARMS = 'ThreadParms'
RLOCK = ('g:ptw32_thread_reuse_lock', 0)
BAD = (0, -1, -2, -3)


class Create(Thr):
    PROPS = ('J01',)
    noself = True

    def models(self):
        m = super().models()
        m['ptw32_new'] = self.m_new
        m['ptw32_threadDestroy'] = self.m_destroy
        m['ptw32_strdup'] = self.m_strdup
        m['strdup'] = m['_strdup'] = self.m_strdup
        for n in ('_beginthreadex', '_beginthread', 'CreateThread'):
            m[n] = self.m_begin
        m['ptw32_setthreadpriority'] = self.m_prio
        m['SetThreadAffinityMask'] = self.m_aff
        return m

    def setup(self, eng, st, args):
        m = st.mon
        self.case_, attr = self.case, args[1]
        m.update({'tid': args[0], 'start': args[2], 'arg': args[3], 'began': 0, 'ran': 0, 'nself': 0, 'prio': '', 'aff': '', 'name': '', 'rec': '', 'parms': '', 'gone': ()})
        st.facts[args[0][0]] = (-INF, INF, frozenset(BAD))
        sp = self.self_p(eng)
        st.facts[sp[0]] = (-INF, INF, frozenset(BAD))
        F = lambda f: field(eng, sp, TH, f)
        m['scpu'], m['sprio'] = self.sym(eng, st, 'caller cpuset'), self.sym(eng, st, 'caller priority')
        st.mem[F('cpuset')] = (m['scpu'], 8)
        st.mem[F('sched_priority')] = (m['sprio'], 4)
        if self.case == 'noattr':
            eng.substitute(st, attr[0], NULL)
            return
        st.facts[attr[0]] = (-INF, INF, frozenset(BAD))
        if self.case == 'nullattr':
            st.mem[attr] = (NULL, 8)
            return
        a = self.ptr(eng, st, 'attr')
        st.mem[attr] = (a, 8)
        G = lambda f: field(eng, a, ATTR, f)
        m['acpu'], m['aprio'], m['adet'], m['astk'] = self.sym(eng, st, 'attr cpuset'), self.sym(eng, st, 'attr priority'), self.sym(eng, st, 'attr detachstate'), self.sym(eng, st, 'attr stacksize')
        cs = self.sym(eng, st, 'attr cpuset')
        outs = []
        prio = eng.addoff(a, eng.p.field_off(ATTR, 'param'))
        for named in (0, 1):
            for inh in (0, 1):
                for cpu in (0, 1):
                    s = st.fork()
                    s.mem[G('cpuset')] = ((m['acpu'] if cpu else NULL), 8)
                    if cpu:
                        s.facts[m['acpu'][0]] = (-INF, INF, frozenset([0]))
                    s.mon['acpu'] = m['acpu'] if cpu else NULL
                    s.mem[prio] = (m['aprio'], 4)
                    s.mem[G('detachstate')] = (m['adet'], 4)
                    s.mem[G('stacksize')] = (m['astk'], 8)
                    s.mem[G('inheritsched')] = ((None, K['PTHREAD_INHERIT_SCHED'] if inh else K['PTHREAD_EXPLICIT_SCHED']), 4)
                    n = self.ptr(eng, s, 'attr name') if named else NULL
                    s.mem[G('thrname')] = (n, 8)
                    s.mon['aname'], s.mon['inh'] = n, inh
                    s.mon['keep'] = ('K', a, n)
                    t = s.fork()
                    t.facts[m['astk'][0]] = (1 << 32, (1 << 64) - 1, frozenset())
                    self.fail(t, 'stack')           # more than the parameter of the system holds
                    outs.append(t)
                    s.facts[m['astk'][0]] = (0, (1 << 32) - 1, frozenset())
                    outs.append(s)
        return outs

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr[0] == self.self_p(eng)[0] and isinstance(addr[0], int):
            self.rep(eng, st, 'changes the record of the creating thread', inst)

    def m_self(self, eng, st, inst, args, name, cv):
        t = st.fork()
        t.mem[args[0]] = (NULL, 8)
        t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
        t.mon['nself'] = 1
        self.fail(t, 'self')
        return [(t, None)] + super().m_self(eng, st, inst, args, name, cv)

    def m_new(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if m['rec']:
            return self.R(eng, st, 'makes a second record', inst)
        t = st.fork()
        t.mem[args[0]] = (NULL, 8)
        t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
        self.fail(t, 'rec')
        p, x = self.ptr(eng, st, 'new.p'), self.sym(eng, st, 'new.x')
        st.mem[args[0]] = (p, 8)
        st.mem[eng.addoff(args[0], 8)] = (x, 8)
        m['rec'] = ('K', p, x)
        self.own(st, 'rec', p)
        F = lambda f: field(eng, p, TH, f)
        st.mem[F('name')] = (NULL, 8)
        st.mem[F('threadH')] = (NULL, 8)
        st.mem[F('detachState')] = ((None, K['PTHREAD_CREATE_JOINABLE']), 4)
        st.mem[F('sched_priority')] = ((None, K['THREAD_PRIORITY_NORMAL']), 4)
        st.mem[F('cpuset')] = (NULL, 8)
        return [(t, None), (st, None)]

    def m_strdup(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[0] != m.get('aname') or args[0] == NULL:
            return self.R(eng, st, 'copies something other than the name in the attributes', inst)
        t = st.fork()
        v = self.heap(eng, st, inst, 'heap')
        m['name'] = ('K', v)
        t.mon['name'] = ('K', NULL)
        return [(t, NULL), (st, v)]

    def m_destroy(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        p, x = self.handle(eng, st, args[0])
        if p == NULL:
            return [(st, None)]
        if m['began']:
            return self.R(eng, st, 'releases the record of a thread that was created', inst)
        if self.drop(st, p) != 'rec':
            return self.R(eng, st, 'releases a record that is not (or no longer) its own', inst)
        self.scrub(eng, st, p)
        return [(st, None)]

    def on_alloc(self, eng, st, v, inst, args):
        super().on_alloc(eng, st, v, inst, args)
        if v != NULL:
            st.mon['parms'] = ('K', v)

    def m_begin(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if m['began']:
            return self.R(eng, st, 'creates a second thread', inst)
        if name not in ('_beginthreadex', 'CreateThread'):
            return self.R(eng, st, 'creates the thread by %s, whose handle may be gone before it is used' % name, inst)
        t = st.fork()
        self.fail(t, 'thread')
        parms = args[3]
        if not m['rec'] or not m['parms'] or m['parms'][1] != parms:
            return self.R(eng, st, 'creates a thread without a record or parameters', inst)
        if args[2] != ('f:ptw32_threadStart', 0) and 'threadStart' not in str(args[2][0]):
            return self.R(eng, st, 'the thread starts somewhere else', inst)
        want = m['astk'] if self.case == 'attr' else (None, K['PTHREAD_STACK_MIN'])
        if args[1] != want:
            return self.R(eng, st, 'the thread does not get the requested stack size', inst)
        h = self.heap(eng, st, inst, 'handle')
        m['began'] = ('K', h)
        if len(args) > 5 and args[5] != NULL:
            m['sysid'] = self.sym(eng, st, 'id of the new thread')
            st.mem[args[5]] = (m['sysid'], 4)
        self.drop(st, parms)
        self.drop(st, m['rec'][1])
        if not const(args[4]) or not args[4][1] & 4:
            if self.runs(eng, st, inst, False) is None:
                return []
        return [(t, NULL), (st, h)]

    def runs(self, eng, st, inst, handled):
        """the new thread starts running here"""
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        _, p, x = m['rec']
        parms = m['parms'][1]
        if handled and ('sysid' not in m or peek(st, field(eng, p, TH, 'thread')) != m['sysid']):
            return self.rep(eng, st, 'the identifier of the system thread is not recorded', inst, ('J07',))
        F = lambda f: peek(st, field(eng, p, TH, f))
        t = field(eng, parms, PARMS, 'tid')
        if (peek(st, t), peek(st, eng.addoff(t, 8))) != (p, x) or peek(st, field(eng, parms, PARMS, 'start')) != m['start'] or peek(st, field(eng, parms, PARMS, 'arg')) != m['arg']:
            return R('the new thread runs with the wrong handle, start routine or argument')
        if F('threadH') != m['began'][1]:
            return R('the new thread runs before its handle is in its record')
        if self.case == 'attr':
            if F('detachState') != m['adet']:
                return R('the new thread runs without the requested detach state')
            if m['aname'] != NULL and (not m['name'] or F('name') != m['name'][1]):
                return R('the new thread runs without the requested name')
            w = m['sprio'] if m['inh'] else m['aprio']
            if m['prio'] != ('K', w):
                return R('the new thread runs without the priority it %s' % ('inherits' if m['inh'] else 'is to have'))
        elif F('detachState') != (None, K['PTHREAD_CREATE_JOINABLE']):
            return R('a thread with default attributes is not joinable')
        w = m['acpu'] if self.case == 'attr' and m['acpu'] != NULL else m['scpu']
        if F('cpuset') != w or m['aff'] != ('K', w):
            return R('the new thread runs without the processor set it is to have')
        m['ran'] = 1
        m['gone'] = m['gone'] + (p, parms)
        return True

    def m_suspend(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if name != 'ResumeThread' or not m['began'] or args[0] != m['began'][1] or m['ran']:
            return self.R(eng, st, '%s on something other than the new, suspended thread' % name, inst)
        if self.runs(eng, st, inst, True) is None:
            return []
        return [(st, (None, 1))]

    def m_prio(self, eng, st, inst, args, name, cv):
        m = st.mon
        p, x = self.handle(eng, st, args[0])
        if not m['began'] or p != m['rec'][1]:
            return self.R(eng, st, 'sets the priority of something other than the new thread', inst)
        if args[1] != (None, K['SCHED_OTHER']):
            return self.R(eng, st, 'uses an unsupported policy', inst)
        m['prio'] = ('K', args[2])
        return [(st, NULL)]

    def m_aff(self, eng, st, inst, args, name, cv):
        m = st.mon
        if not m['began'] or args[0] != m['began'][1]:
            return self.R(eng, st, 'sets the processors of something other than the new thread', inst)
        m['aff'] = ('K', args[1])
        return [(st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('returns %s' % eng.show(v))
        left = sorted(r[1] for r in self.live(st))
        if left:
            return R('leaks %s' % ', '.join('the record' if x == 'rec' else x for x in left))
        tid = self.handle(eng, st, m['tid'])
        if v[1] == 0:
            if not m['ran']:
                return R('reports success although no thread runs')
            if tid != m['rec'][1:]:
                return R('reports success without giving the handle of the new thread')
            return
        if m['began']:
            return R('reports %s although the thread was created' % nm(v))
        if not m['failed']:
            return R('reports %s although nothing failed' % nm(v))
        if v[1] != E['EAGAIN'] and v[1] != E['ENOMEM']:
            return R('reports %s for a lack of resources' % nm(v))
        if m['rec'] and tid[0] == m['rec'][1]:
            return R('fails and gives the handle of a released record')


class Start(Thr):
    """the body of a new thread.  case: return, cancel, exit, other (how the start routine ends)"""
    PROPS = ('J02',)
    noexit = True

    def models(self):
        m = super().models()
        m['pthread_setspecific'] = self.m_setspec
        m['pthread_win32_thread_detach_np'] = self.m_detach
        m['*indirect'] = self.m_start
        for n in ('_endthreadex', 'ExitThread', '_endthread'):
            m[n] = self.m_end
        m['GetCurrentThreadId'] = lambda eng, st, inst, args, name, cv: [(st, st.mon['ctid'])]
        m['terminate'] = m['std::terminate'] = m['_ZSt9terminatev'] = self.m_terminate_
        for n in ('__cxa_begin_catch', '__cxa_end_catch'):
            m[n] = lambda eng, st, inst, args, name, cv: [(st, None if inst['ty'] == 'void' else NULL)]
        return m

    def setup(self, eng, st, args):
        m = st.mon
        P = args[0]
        st.facts[P[0]] = (-INF, INF, frozenset(BAD))
        sp, x, start, arg = self.ptr(eng, st, 'record'), self.sym(eng, st, 'x'), self.ptr(eng, st, 'start'), self.sym(eng, st, 'arg')
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        t = field(eng, P, PARMS, 'tid')
        st.mem[t] = (sp, 8)
        st.mem[eng.addoff(t, 8)] = (x, 8)
        st.mem[field(eng, P, PARMS, 'start')] = (start, 8)
        st.mem[field(eng, P, PARMS, 'arg')] = (arg, 8)
        self.fields(eng, sp)
        m.update({'sp': sp, 'start': start, 'arg': arg, 'key': sk, 'bound': 0, 'called': 0, 'det': 0, 'parms': P, 'want': '', 'gone': (), 'ctid': self.sym(eng, st, 'own id')})
        self.own(st, 'parms', P)

    def stable(self, eng, st, addr, lab):
        return not (lab and lab[1] in ('state', 'cancelState')) or bool(st.mon['called'])

    def private(self, eng, st, addr, lab):
        return addr == self.F['state'] and self.slock(st) or self.stable(eng, st, addr, lab)

    def on_free(self, eng, st, v, inst):
        self.sites.add((eng.where(inst), 'free'))
        if self.drop(st, v) != 'parms':
            self.rep(eng, st, 'frees something other than its parameters (or frees them twice)', inst)
        else:
            self.scrub(eng, st, v)

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if addr == self.F['state'] and not m['called'] and self.slock(st) and peek(st, addr) is None:
            outs = []
            for n in ('Initial', 'Suspended', 'CancelPending'):
                s = st.fork()
                v = (None, K['PThreadState' + n])
                s.mem[addr] = (v, 4)
                s.mon['v_state'] = v[1]
                s.note('%s: state is %s' % (eng.where(inst), n))
                outs.append((s, v))
            return outs

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if addr == self.F['state'] and not m['called']:
            if not self.slock(st) or m.get('v_state') is None:
                return self.rep(eng, st, 'changes the state without having looked at it under the state lock (a request already made is forgotten)', inst)
            if m['v_state'] >= K['PThreadStateRunning'] and v != (None, m['v_state']):
                return self.rep(eng, st, 'forgets a request made before the thread ran', inst)

    def m_setspec(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[0] != m['key'] or args[1] != m['sp']:
            return self.R(eng, st, 'the thread is not bound to its record', inst)
        m['bound'] = 1
        return [(st, NULL)]

    def m_start(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'start routine'))
        if self.mcs(st):
            return self.R(eng, st, 'calls the start routine with an internal lock held', inst)
        if m['called']:
            return self.R(eng, st, 'calls the start routine twice', inst)
        if cv != m['start'] or len(args) != 1 or args[0] != m['arg']:
            return self.R(eng, st, 'calls something other than the start routine with its argument', inst)
        if not m['bound']:
            return self.R(eng, st, 'calls the start routine before the thread is bound to its record', inst)
        if (peek(st, field(eng, m['sp'], TH, 'thread')) or m['ctid']) != m['ctid']:
            return self.rep(eng, st, 'the recorded identifier is not that of the thread', inst, ('J07',)) or []
        m['called'] = 1
        c = self.case
        if c == 'return':
            v = eng.sitesym(st, inst, 'result')
            m['want'] = ('K', v)
            return [(st, v)]
        if c == 'exit':
            v = self.sym(eng, st, 'exit status')
            st.mem[self.F['exitStatus']] = (v, 8)
            m['want'] = ('K', v)
        else:
            m['want'] = ('K', (None, K['PTHREAD_CANCELED']))
        return [(st, THROW)]

    def longjmp_value(self, eng, st):
        return (None, K['PTW32_EPS_EXIT' if self.case == 'exit' else 'PTW32_EPS_CANCEL'] if self.case != 'other' else 77)

    def exc_type(self, eng, st):
        want = {'exit': 'ptw32_exception_exit', 'cancel': 'ptw32_exception_cancel'}.get(self.case)
        for g in eng.p.globals:
            if want and g.startswith('_ZTI') and g.endswith(want):
                return eng.caught_as(st, g)
        return eng.caught_as(st, '_ZTIi')

    def m_detach(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if m['det'] or not m['called']:
            return self.R(eng, st, 'releases its thread data twice (or before the start routine has run)', inst)
        if self.mcs(st):
            return self.R(eng, st, 'releases its thread data with an internal lock held', inst)
        if (self.case != 'other' or eng.p.flavour == 'c') and ('K', peek(st, self.F['exitStatus'])) != m['want']:
            return self.R(eng, st, 'the status for the joiner is not recorded before the thread data is released', inst)
        s = peek(st, self.F['state'])
        if self.case == 'return' and (s is None or eng.decide(st, 'sge', s, (None, K['PThreadStateCanceling'])) is not True):
            return self.R(eng, st, 'can still be cancelled after its routine has returned (its destructors would be interrupted and run again)', inst)
        if s is not None and eng.decide(st, 'slt', s, (None, K['PThreadStateLast'])) is False:
            return self.rep(eng, st, 'is marked as ended while its destructors have yet to run', inst, ('J02', 'J04')) or []
        m['det'] = 1
        m['gone'] = m['gone'] + (m['sp'],)
        return [(st, (None, 1))]

    def m_terminate_(self, eng, st, inst, args, name, cv):
        if self.case != 'other':
            return self.R(eng, st, 'ends the process for an ordinary end of a thread', inst)
        st.mon['det'] = 2
        return [(st, STOP)]

    def m_end(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        R = lambda msg: self.R(eng, st, msg, inst)
        if not m['called']:
            return R('ends without having called the start routine')
        if not m['det']:
            return R('ends without releasing its thread data')
        if self.live(st):
            return R('leaks its parameters')
        if self.case == 'other' and eng.p.flavour == 'cxx':
            return R('an exception that nobody handles does not end the process')
        if args and (not m['want'] or args[0] not in (m['want'][1], eng.low(m['want'][1]))):
            return R('ends with a status other than that of the thread')
        return [(st, STOP)]

    def on_exit(self, eng, st, kind, v, inst):
        self.rep(eng, st, 'returns without ending the thread properly' if kind == 'return' else 'an exception escapes', inst)


class Join(Thr):
    """pthread_join and friends.  case: other, self, null, other/forever"""
    PROPS = ('J03',)

    def __init__(self, case, kind):
        super().__init__(case)
        self.kind = kind

    def models(self):
        m = super().models()
        m['pthreadCancelableWait'] = m['pthreadCancelableTimedWait'] = self.m_cwait
        m['pthread_testcancel'] = self.m_testcancel
        m['ptw32_relmillisecs'] = self.m_rel
        m['pthread_detach'] = m['ptw32_threadDestroy'] = self.m_release
        return m

    def setup(self, eng, st, args):
        m = st.mon
        who = self.case.split('/')[0]
        self.who = who
        m.update({'wait': '', 'tc': 0, 'rel': 0, 'nself': 0, 'ms': '', 'w': 0})
        p = NULL if who == 'null' else self.self_p(eng) if who == 'self' else self.ptr(eng, st, 'thread.p')
        x = self.self_x(eng) if who == 'self' else self.sym(eng, st, 'thread.x')
        if p != NULL:
            eng._mergefact(st.facts, p[0], (-INF, INF, frozenset(BAD)))
            self.fields(eng, p)
        self.set_arg(eng, st, args[0], p, x)
        sp = self.self_p(eng)
        if who == 'other':
            st.rel = st.rel | {('ne', p, sp), ('ne', sp, p)}
        self.h = self.sym(eng, st, 'threadH', ex=(0,))
        m['p'], m['x'] = p, x
        m['keep'] = ('K', p, x, sp, self.h)
        m['vp'] = args[1]
        if self.kind == 'timed':
            m['abs'] = args[2]
            if self.case.endswith('forever'):
                eng.substitute(st, args[2][0], NULL)
            else:
                st.facts[args[2][0]] = (-INF, INF, frozenset([0]))
        t = st.fork()
        eng.substitute(t, args[1][0], NULL)
        st.facts[args[1][0]] = (-INF, INF, frozenset([0]))
        return [st, t]

    def m_self(self, eng, st, inst, args, name, cv):
        t = st.fork()
        t.mem[args[0]] = (NULL, 8)
        t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
        t.mon['nself'] = 1
        return [(t, None)] + super().m_self(eng, st, inst, args, name, cv) if self.who == 'other' else super().m_self(eng, st, inst, args, name, cv)

    def m_rel(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[0] != m.get('abs') or args[0] == NULL:
            return self.rep(eng, st, 'converts something other than the given time', inst, ('J03', 'W01')) or []
        v = eng.sitesym(st, inst, 'ms')
        st.facts[v[0]] = (-INF, INF, frozenset([-1]))
        m['ms'] = ('K', v)
        return [(st, v)]

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if self.who == 'null':
            return None
        if addr == self.HX:
            if not self.rlock(st):
                self.rep(eng, st, 'checks the thread handle without holding the lock of the thread records', inst)
                return []
            self.sites.add((eng.where(inst), 'handle check'))
            if 'valid' in m:
                return [(st, m['x'] if m['valid'] else m['other'])]
            t = st.fork()
            o = eng.sitesym(t, inst, 'otherx')
            t.rel = t.rel | {('ne', o, m['x']), ('ne', m['x'], o)}
            t.mon['valid'], t.mon['other'] = 0, o
            t.note('%s: the handle is stale' % eng.where(inst))
            m['valid'] = 1
            return [(t, o), (st, m['x'])]
        if addr[0] == m['p'][0]:
            if m.get('valid') != 1:
                self.rep(eng, st, 'looks at a thread record through a handle that is not known to be valid', inst)
                return []
            if m['rel']:
                self.rep(eng, st, 'looks at a thread record that has been released', inst)
                return []
        if addr == self.F['detachState']:
            if 'det' in m:
                return [(st, (None, m['det']))]
            outs = []
            for d in (K['PTHREAD_CREATE_JOINABLE'], K['PTHREAD_CREATE_DETACHED']):
                s = st.fork()
                s.mon['det'] = d
                s.note('%s: the thread is %s' % (eng.where(inst), 'detached' if d == K['PTHREAD_CREATE_DETACHED'] else 'joinable'))
                outs.append((s, (None, d)))
            return outs
        if addr == self.F['threadH']:
            return [(st, self.h)]
        if addr == self.F['exitStatus']:
            if m['wait'] != 'ended':
                self.rep(eng, st, 'takes the exit status before the thread has ended', inst)
                return []
            v = self.sym(eng, st, 'status')
            m['status'] = v
            return [(st, v)]

    def m_testcancel(self, eng, st, inst, args, name, cv):
        m = st.mon
        if self.mcs(st):
            return self.R(eng, st, 'looks for a cancellation request with an internal lock held', inst)
        if m['wait'] == 'ended':
            return self.R(eng, st, 'may be cancelled after the thread was joined', inst)
        t = st.fork()
        t.mon['wait'] = 'cancelled'
        t.note('%s: a pending cancellation is acted on' % eng.where(inst))
        m['tc'] = 1
        return [(t, THROW), (st, None)]

    def m_cwait(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.mcs(st):
            return self.R(eng, st, 'waits with an internal lock held', inst)
        if m.get('valid') != 1 or m.get('det') != K['PTHREAD_CREATE_JOINABLE']:
            return self.R(eng, st, 'waits for a thread that is not known to be joinable', inst)
        if self.who == 'self':
            return self.R(eng, st, 'waits for the caller itself', inst)
        if args[0] != self.h:
            return self.R(eng, st, 'waits for something other than the end of the thread', inst)
        if m['wait']:
            return self.R(eng, st, 'waits twice', inst)
        ms = args[1] if len(args) > 1 else (None, -1)
        want = {'join': (None, -1), 'try': NULL}.get(self.kind)
        if self.kind == 'timed':
            want = (None, -1) if self.case.endswith('forever') else m['ms'] and m['ms'][1]
        if ms != want:
            return self.rep(eng, st, 'waits for a time other than the one asked for', inst, ('J03', 'W01')) or []
        outs = []
        for n, r in (('ended', 0), ('timeout', E['ETIMEDOUT']), ('failed', E['EINVAL'])):
            if n == 'timeout' and ms == (None, -1):
                continue
            s = st.fork()
            s.mon['wait'] = n
            s.note('%s: the wait: %s' % (eng.where(inst), n))
            outs.append((s, (None, r)))
        t = st.fork()
        t.mon['wait'] = 'cancelled'
        return outs + [(t, THROW)]

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if addr == m['vp'] and m['vp'] != NULL:
            if m['wait'] != 'ended' or v != m.get('status'):
                return self.rep(eng, st, 'stores something other than the exit status of the ended thread', inst)
            m['w'] = 1
        elif m['p'] != NULL and addr[0] == m['p'][0]:
            self.rep(eng, st, 'changes the record of the thread', inst)

    def m_release(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.handle(eng, st, args[0]) != (m['p'], m['x']):
            return self.R(eng, st, 'releases another thread', inst)
        if m['wait'] != 'ended' or m['rel']:
            return self.R(eng, st, 'releases a thread that has not ended (or releases it twice)', inst)
        if self.mcs(st):
            return self.R(eng, st, 'releases the thread with an internal lock held', inst)
        m['rel'] = 1
        return [(st, None if inst['ty'] == 'void' else NULL)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if m['wait'] == 'cancelled':
            if kind != 'unwind' or m['rel'] or m['w']:
                R('a cancelled join does not simply leave the thread to be joined again')
            return
        if kind != 'return' or not const(v):
            return R('returns %s' % eng.show(v))
        r = v[1]
        if self.who == 'null' or m.get('valid') == 0:
            return r == E['ESRCH'] or R('reports %s for a handle that is not valid' % nm(v))
        if r == 0 and m['wait'] != 'ended':
            return R('reports success although the thread has not ended')
        if r == 0 and not m['tc']:
            return self.rep(eng, st, 'joins a thread without having looked for a pending cancellation request', inst, ('I03',))
        if m['wait'] == 'ended':
            if r != 0:
                return R('reports %s although the thread was joined' % nm(v))
            if not m['rel']:
                return R('the joined thread is not released')
            if m['vp'] != NULL and not m['w']:
                return R('the exit status is not given')
            return
        if m['rel'] or m['w']:
            return R('a join that fails releases the thread or stores a status')
        if m.get('det') == K['PTHREAD_CREATE_DETACHED']:
            return r == E['EINVAL'] or (self.who == 'self' and r == E['EDEADLK']) or R('reports %s for a detached thread' % nm(v))
        if self.who == 'self':
            return r == E['EDEADLK'] or R('reports %s for the caller itself' % nm(v))
        if m['wait'] == 'timeout':
            return r == (E['EBUSY'] if self.kind == 'try' else E['ETIMEDOUT']) or R('reports %s for a thread that is still running' % nm(v))
        if m['wait'] == 'failed':
            return r not in (0, E['ETIMEDOUT'], E['EBUSY']) or R('reports %s for a failed wait' % nm(v))
        if not m['nself']:
            return R('reports %s without having waited' % nm(v))


class Detach(Thr):
    PROPS = ('J04',)

    def models(self):
        m = super().models()
        m['ptw32_threadDestroy'] = self.m_release
        return m

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'rel': 0, 'waited': 0, 'mark': 0, 'over': 0})
        p = NULL if self.case == 'null' else self.ptr(eng, st, 'thread.p')
        x = self.sym(eng, st, 'thread.x')
        if p != NULL:
            self.fields(eng, p)
        self.set_arg(eng, st, args[0], p, x)
        self.h = self.sym(eng, st, 'threadH', ex=(0,))
        m['p'], m['x'] = p, x
        m['keep'] = ('K', p, x, self.h)

    def private(self, eng, st, addr, lab):
        return self.case != 'null' and addr in (self.F['state'], self.F['detachState']) and self.slock(st)

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if self.case == 'null':
            return None
        if addr == self.HX:
            return Join.load_forks(self, eng, st, addr, lab, inst)
        if addr[0] != m['p'][0]:
            return None
        if m.get('valid') != 1:
            self.rep(eng, st, 'looks at a thread record through a handle that is not known to be valid', inst)
            return []
        if m['over']:
            self.rep(eng, st, 'looks at a thread record that may have been released', inst)
            return []
        if addr == self.F['threadH']:
            return [(st, self.h)]
        for f, dom in (('state', [K['PThreadState' + s] for s in ('Initial', 'Running', 'CancelPending', 'Canceling', 'Exiting', 'Last')]),
                       ('detachState', [K['PTHREAD_CREATE_JOINABLE'], K['PTHREAD_CREATE_DETACHED']])):
            if addr == self.F[f]:
                if f == 'state' and not self.slock(st):
                    return [(st, eng.sitesym(st, inst, 'unlocked'))]
                if f == 'detachState' and not (self.rlock(st) or self.slock(st)):
                    return [(st, eng.sitesym(st, inst, 'unlocked'))]
                if peek(st, addr) is not None and 'v_' + f in m:
                    return None
                if 'v_' + f in m and f == 'detachState':
                    return [(st, (None, m['v_detachState']))]
                outs = []
                for d in dom:
                    s = st.fork()
                    s.mon['v_' + f] = d
                    s.mem[addr] = ((None, d), 4)
                    s.note('%s: %s is %d' % (eng.where(inst), f, d))
                    outs.append((s, (None, d)))
                return outs

    rlock_ = None

    @property
    def who(self):
        return self.case

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if self.case == 'null' or addr[0] != m['p'][0]:
            return
        self.sites.add((eng.where(inst), 'mark'))
        if addr != self.F['detachState'] or v != (None, K['PTHREAD_CREATE_DETACHED']):
            return self.rep(eng, st, 'changes the record of the thread', inst)
        if not self.slock(st) or m.get('valid') != 1:
            return self.rep(eng, st, 'marks the thread without holding its state lock (it may be ending)', inst)
        if m.get('v_state') is None:
            return self.rep(eng, st, 'marks the thread without having looked at its state', inst)
        if m['v_state'] >= K['PThreadStateLast']:
            return self.rep(eng, st, 'leaves the release of a thread to the thread, which has already ended', inst)
        m['mark'] = 1

    def on_released(self, eng, st, lock, inst):
        if st.mon['mark'] and not self.slock(st):
            st.mon['over'] = 1

    def before_wait(self, eng, st, h, ms, inst):
        m = st.mon
        if h != self.h or ms != (None, -1) or self.mcs(st):
            self.rep(eng, st, 'waits for something else (or with an internal lock held)', inst)
        elif m.get('v_state') != K['PThreadStateLast']:
            self.rep(eng, st, 'blocks although the thread has not ended', inst)
        m['waited'] = 1

    def m_release(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.handle(eng, st, args[0]) != (m['p'], m['x']):
            return self.R(eng, st, 'releases another thread', inst)
        if m['rel']:
            return self.R(eng, st, 'releases the thread twice', inst)
        if self.mcs(st):
            return self.R(eng, st, 'releases the thread with an internal lock held', inst)
        if m.get('v_state') != K['PThreadStateLast']:
            return self.R(eng, st, 'releases a thread that has not ended', inst)
        if m.get('v_detachState') != K['PTHREAD_CREATE_JOINABLE']:
            return self.R(eng, st, 'releases a thread that releases itself', inst)
        if not m['waited']:
            return self.R(eng, st, 'releases a thread that may still be using its record', inst)
        m['rel'] = m['over'] = 1
        return [(st, None)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if kind != 'return' or not const(v):
            return R('returns %s' % eng.show(v))
        r = v[1]
        if self.case == 'null' or m.get('valid') == 0:
            return r == E['ESRCH'] or R('reports %s for a handle that is not valid' % nm(v))
        if m.get('v_detachState') == K['PTHREAD_CREATE_DETACHED']:
            return r == E['EINVAL'] and not m['rel'] or R('reports %s for a thread that is already detached' % nm(v))
        if r != 0:
            return R('reports %s for a joinable thread' % nm(v))
        if m.get('v_state') is None or m.get('v_detachState') is None:
            return R('decides without looking at the state of the thread')
        if m['v_state'] == K['PThreadStateLast']:
            if not m['rel']:
                return R('an ended thread is never released')
        elif not m['mark']:
            return R('a running thread is not marked as detached')


class ThreadEnd(Thr):
    """pthread_win32_thread_detach_np / pthread_win32_process_detach_np"""
    PROPS = ('J04',)

    def __init__(self, case, kind):
        super().__init__(case)
        self.kind = kind

    def models(self):
        m = super().models()
        m['ptw32_callUserDestroyRoutines'] = self.m_user
        m['ptw32_robust_mutex_remove'] = self.m_remove
        m['ptw32_threadDestroy'] = self.m_release
        m['ptw32_processTerminate'] = self.m_pterm
        m['TlsSetValue'] = self.m_tls
        return m

    def setup(self, eng, st, args):
        m = st.mon
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        p = NULL if self.case == 'none' else self.self_p(eng)
        m.update({'key': sk, 'p': p, 'user': 0, 'last': 0, 'rel': 0, 'tls': 0, 'gone': (), 'mx': '', 'rob': 0, 'empty': 0, 'pterm': 0})
        if p != NULL:
            st.facts[p[0]] = (-INF, INF, frozenset(BAD))
            self.fields(eng, p)
            self.x = self.sym(eng, st, 'self.x')
            st.mem[self.HP] = (p, 8)
            st.mem[self.HX] = (self.x, 8)
            m['keep'] = ('K', p, self.x)
            self.RL = field(eng, p, TH, 'robustMxList')
            d = K['PTHREAD_CREATE_DETACHED'] if self.case == 'detached' else K['PTHREAD_CREATE_JOINABLE']
            if self.case == 'detached':
                st.mem[self.F['detachState']] = ((None, d), 4)
        g = ('g:ptw32_processInitialized', 0)
        t = st.fork()
        st.mem[g] = ((None, 1), 4)
        t.mem[g] = (NULL, 4)
        t.mon['uninit'] = 1
        return [st, t]

    def stable(self, eng, st, addr, lab):
        return st.mon['p'] == NULL or addr not in (self.F['detachState'], self.RL) or self.case == 'detached' and addr == self.F['detachState']

    private = stable

    def m_getspec(self, eng, st, inst, args, name, cv):
        if args[0] != st.mon['key']:
            return self.R(eng, st, 'uses the wrong key', inst)
        return [(st, st.mon['p'])]

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if m['p'] == NULL:
            return None
        if addr == self.F['detachState'] and self.case == 'joinable':
            if not m['last'] and not self.slock(st) and self.kind == 'thread':
                # another thread may detach it until it is marked as ended
                v = eng.sitesym(st, inst, 'early')
                return [(st, v)]
            outs = []
            if 'det' in m:
                return [(st, (None, m['det']))]
            for d in (K['PTHREAD_CREATE_JOINABLE'], K['PTHREAD_CREATE_DETACHED']):
                s = st.fork()
                s.mon['det'] = d
                outs.append((s, (None, d)))
            return outs
        if addr == self.RL:
            if m['mx']:
                return [(st, m['mx'][1])]
            t = st.fork()
            t.mon['empty'] = 1
            n = eng.sitesym(st, dict(inst, ty='ptr'), 'node')
            st.facts[n[0]] = (-INF, INF, frozenset(BAD))
            mx = eng.sitesym(st, dict(inst, ty='ptr'), 'mutex')
            st.facts[mx[0]] = (-INF, INF, frozenset(BAD))
            evt = eng.sitesym(st, dict(inst, ty='ptr'), 'event')
            m['mx'] = ('K', n, mx, evt)
            m['rob'] = 1
            m['empty'] = 0
            st.mem[field(eng, n, 'ptw32_robust_node_t_', 'mx')] = (mx, 8)
            st.mem[field(eng, mx, 'pthread_mutex_t_', 'robustNode')] = (n, 8)
            st.mem[field(eng, mx, 'pthread_mutex_t_', 'event')] = (evt, 8)
            return [(t, NULL), (st, n)]

    def m_user(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.handle(eng, st, args[0])[0] != m['p'] or m['user'] or m['rel'] or m['last']:
            return self.R(eng, st, 'runs destructors twice, too late, or for another thread', inst)
        if self.mcs(st):
            return self.R(eng, st, 'runs destructors with an internal lock held', inst)
        m['user'] = 1
        return [(st, None)]

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if m['p'] != NULL and addr == self.F['state']:
            if v == (None, K['PThreadStateLast']):
                if not self.slock(st):
                    return self.rep(eng, st, 'is marked as ended without holding the state lock', inst)
                m['last'] = 1
            elif self.kind == 'thread' and m['last']:
                return self.rep(eng, st, 'an ended thread is marked as something else', inst)

    def m_remove(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if not m['mx'] or m['rob'] != 1 or peek(st, args[0]) != m['mx'][2] or args[1] != m['p']:
            return self.R(eng, st, 'removes something other than the first robust mutex it holds', inst)
        m['rob'] = 2
        return [(st, None)]

    def on_atomic(self, eng, st, kind, addr, lab, old, new, comp, inst):
        m = st.mon
        if m['mx'] and addr == field(eng, m['mx'][1], 'ptw32_robust_node_t_', 'stateInconsistent'):
            if new != (None, -1):
                return self.rep(eng, st, 'marks the mutex of a dead owner with the wrong state', inst, ('M04', 'J04'))
            if m['rob'] != 2:
                return self.rep(eng, st, 'lets the mutex of a dead owner go while it is on the list of the dead thread', inst, ('M04', 'J04'))
            m['rob'] = 3

    def on_api(self, eng, st, name, args, ret, inst):
        m = st.mon
        if name == 'SetEvent':
            if not m['mx'] or args[0] != m['mx'][3]:
                return self.rep(eng, st, 'signals something else', inst, ('M04', 'J04'))
            if m['rob'] != 3:
                return self.rep(eng, st, 'wakes a waiter before the mutex is marked as that of a dead owner', inst, ('M04', 'J04'))
            m['mx'], m['rob'] = '', 0

    def m_release(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.handle(eng, st, args[0])[0] != m['p'] or m['rel']:
            return self.R(eng, st, 'releases another thread (or releases it twice)', inst)
        if self.mcs(st):
            return self.R(eng, st, 'releases the thread with an internal lock held', inst)
        if self.kind == 'thread' and not (m['user'] and m['last'] and m['empty']):
            return self.R(eng, st, 'releases the thread before its data is dealt with', inst)
        if self.case == 'joinable' and m.get('det') != K['PTHREAD_CREATE_DETACHED']:
            return self.R(eng, st, 'releases a thread that is (or may be) joinable: its joiner releases it', inst)
        m['rel'] = 1
        m['gone'] = m['gone'] + (m['p'],)
        return [(st, None)]

    def m_tls(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[1] != NULL or not m['rel']:
            return self.R(eng, st, 'unbinds the thread although its record lives on (or binds it to something)', inst)
        m['tls'] = 1
        return [(st, (None, 1))]

    def m_pterm(self, eng, st, inst, args, name, cv):
        st.mon['pterm'] = 1
        return [(st, None)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg, p=None: self.rep(eng, st, msg, inst, p)
        if self.mcs(st):
            return R('leaves with an internal lock held')
        if m.get('uninit'):
            if m['user'] or m['rel']:
                R('acts although the library is not initialised')
            return
        if self.kind == 'process' and not m['pterm']:
            return R('the process-wide data is not released')
        if m['p'] == NULL:
            return
        det = self.case == 'detached' or m.get('det') == K['PTHREAD_CREATE_DETACHED']
        if self.kind == 'thread':
            if not m['user']:
                return R('the destructors are not run')
            if not m['last']:
                return R('the thread is not marked as ended')
            if m['mx'] or not m['empty']:
                return R('a robust mutex held by the thread is left locked', ('M04', 'J04'))
            if 'det' not in m and self.case != 'detached' and not m['rel']:
                return R('ends without finding out whether it has to release itself')
        if det and not m['rel']:
            return R('a detached thread is never released')
        if m['rel'] and not m['tls']:
            return R('the thread stays bound to its released record')


class Destroy(Thr):
    """ptw32_threadDestroy"""
    PROPS = ('J05',)

    def models(self):
        m = super().models()
        m['ptw32_threadReusePush'] = self.m_push
        return m

    def setup(self, eng, st, args):
        m = st.mon
        p = NULL if self.case == 'null' else self.ptr(eng, st, 'thread.p')
        x = self.sym(eng, st, 'thread.x')
        self.set_arg(eng, st, args[0], p, x)
        m.update({'p': p, 'x': x, 'push': 0, 'gone': (), 'keep': ('K', p, x)})
        if p == NULL:
            return
        self.fields(eng, p)
        outs = []
        for i in range(8):
            s = st.fork()
            for b, f in enumerate(('threadH', 'cancelEvent', 'name')):
                v = self.ptr(eng, s, f) if i >> b & 1 else NULL
                s.mem[field(eng, p, TH, f)] = (v, 8)
                if v != NULL:
                    self.own(s, 'mem' if f == 'name' else f, v)
            outs.append(s)
        return outs

    def stable(self, eng, st, addr, lab):
        return True

    def m_push(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if self.handle(eng, st, args[0])[0] != m['p'] or m['push'] or m['p'] == NULL:
            return self.R(eng, st, 'puts a record back twice (or another one)', inst)
        m['push'] = 1
        m['gone'] = m['gone'] + (m['p'],)
        return [(st, None)]

    def on_api(self, eng, st, name, args, ret, inst):
        if name == 'CloseHandle':
            k = self.drop(st, args[0])
            if k not in ('threadH', 'cancelEvent'):
                self.rep(eng, st, 'closes something other than a handle of the thread', inst)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        if m['p'] == NULL:
            return
        if not m['push']:
            return self.rep(eng, st, 'the record is not put back', inst)
        left = sorted(r[1] for r in self.live(st))
        if left:
            return self.rep(eng, st, 'leaks %s' % ', '.join('name' if x == 'mem' else x for x in left), inst)


EMPTY = None


class Reuse(Thr):
    """ptw32_threadReusePush / ptw32_threadReusePop.  case: empty, one, many"""
    PROPS = ('J05',)
    TOP, BOT = ('g:ptw32_threadReuseTop', 0), ('g:ptw32_threadReuseBottom', 0)

    def __init__(self, case, kind):
        super().__init__(case)
        self.kind = kind

    def setup(self, eng, st, args):
        m = st.mon
        EM = self.EM = (None, K['PTW32_THREAD_REUSE_EMPTY'])
        m['rel'] = 0
        m['zero'] = 0
        P = lambda n: self.ptr(eng, st, n)
        m['a'] = EM if self.case == 'empty' else P('first')
        m['b'] = m['a'] if self.case != 'many' else P('last')
        m['n'] = P('second') if self.case == 'many' else EM
        for v in (m['a'], m['b'], m['n']):
            if v != EM:
                st.facts[v[0]] = (-INF, INF, frozenset(BAD + (1,)))
        if self.case == 'many':
            st.rel = st.rel | {('ne', m['a'], m['b']), ('ne', m['b'], m['a']), ('ne', m['a'], m['n']), ('ne', m['n'], m['a'])}
        st.mem[self.TOP] = (m['a'], 8)
        st.mem[self.BOT] = (m['b'], 8)
        self.PR = lambda o: field(eng, o, TH, 'prevReuse')
        if m['a'] != EM:
            st.mem[self.PR(m['a'])] = (m['n'], 8)
            h = eng.addoff(m['a'], eng.p.field_off(TH, 'ptHandle'))
            m['hx'] = self.sym(eng, st, 'first.x')
            st.mem[h] = (m['a'], 8)
            st.mem[eng.addoff(h, 8)] = (m['hx'], 8)
        if self.kind == 'push':
            t, x = P('thread.p'), self.sym(eng, st, 'thread.x')
            st.facts[t[0]] = (-INF, INF, frozenset(BAD + (1,)))
            self.set_arg(eng, st, args[0], t, x)
            m['t'], m['x'] = t, x
            for o in (m['a'], m['b'], m['n']):
                if o != EM:
                    st.rel = st.rel | {('ne', t, o), ('ne', o, t)}
            self.fields(eng, t)
            st.mem[self.HP] = (t, 8)
            st.mem[self.HX] = (x, 8)
        else:
            eng.substitute(st, args[0][0], ('a:ret:h', 0))

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def m_mcs_acquire(self, eng, st, inst, args, name, cv):
        if args[0] != RLOCK:
            return self.R(eng, st, 'takes another lock', inst)
        return super().m_mcs_acquire(eng, st, inst, args, name, cv)

    def on_deref(self, eng, st, addr, lab, inst, how):
        m = st.mon
        if isinstance(addr[0], str) and addr[0].startswith('a:'):
            return None
        if (addr in (self.TOP, self.BOT) or isinstance(addr[0], int)) and not self.rlock(st):
            if addr[0] == m.get('t', ('', 0))[0] and not m['rel']:
                return None
            self.sites.add((eng.where(inst), how))
            self.rep(eng, st, 'uses the pool of records without holding its lock', inst)
            return STOP
        self.sites.add((eng.where(inst), how))
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_memset(self, eng, st, d, v, n, inst):
        m = st.mon
        if self.kind == 'push' and d == m['t'] and v == NULL and n == eng.p.struct_size(TH):
            m['zero'] = 1
            if m.get('linked'):
                self.rep(eng, st, 'wipes a record that is already in the pool', inst)

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if self.kind == 'push' and addr in (self.TOP, self.BOT):
            m['linked'] = 1

    def on_release(self, eng, st, lock, inst):
        m = st.mon
        m['rel'] = 1
        EM = self.EM
        R = lambda msg: self.rep(eng, st, msg, inst)
        top, bot = peek(st, self.TOP), peek(st, self.BOT)
        pr = lambda o: peek(st, self.PR(o))
        if self.kind == 'push':
            t = m['t']
            if bot != t or pr(t) != EM:
                return R('the record put back is not the last of the pool')
            if top != (t if self.case == 'empty' else m['a']):
                return R('the first record of the pool is lost')
            if self.case != 'empty' and pr(m['b']) != t:
                return R('the record put back is not linked to the pool')
            if self.case == 'many' and pr(m['a']) != m['n'] and m['b'] != m['a']:
                return R('the pool is cut')
            x = peek(st, self.HX)
            if peek(st, self.HP) != t:
                return R('the record put back has the wrong handle')
            if x is None or eng.decide(st, 'ne', x, m['x']) is not True or x[0] != m['x'][0]:
                return R('the handle of the record put back stays valid')
            if peek(st, self.F['state']) != (None, K['PThreadStateReuse']):
                return R('the record put back is not marked as unused')
            for f in ('threadH', 'cancelEvent', 'exitStatus', 'keys', 'robustMxList', 'name'):
                if peek(st, field(eng, t, TH, f)) not in (NULL,) and not (peek(st, field(eng, t, TH, f)) is None and m['zero']):
                    return R('the record put back keeps its old %s' % f)
        else:
            if self.case == 'empty':
                if top != EM or bot != EM:
                    return R('the empty pool is changed')
            else:
                if top != m['n']:
                    return R('the first record is not taken out of the pool')
                if bot != (EM if self.case == 'one' else m['b']):
                    return R('the end of the pool is wrong')

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with the lock held')
        if not m['rel']:
            return R('does nothing')
        if self.kind == 'pop':
            h = (peek(st, ('a:ret:h', 0)), peek(st, ('a:ret:h', 8)))
            if self.case == 'empty':
                if h[0] != NULL:
                    return R('gives a record from an empty pool')
            elif h != (m['a'], m['hx']):
                return R('does not give the handle of the record taken out')


class New(Thr):
    """ptw32_new.  case: reused, fresh"""
    PROPS = ('J05',)

    def models(self):
        m = super().models()
        m['ptw32_threadReusePop'] = self.m_pop
        m['ptw32_threadReusePush'] = self.m_push
        m['calloc'] = self.m_calloc
        return m

    def setup(self, eng, st, args):
        st.mon.update({'back': 0, 'rec': '', 'seq': 0})
        eng.substitute(st, args[0][0], ('a:ret:h', 0))

    def stable(self, eng, st, addr, lab):
        return addr != ('g:ptw32_threadSeqNumber', 0)

    private = stable

    def m_pop(self, eng, st, inst, args, name, cv):
        if self.case == 'fresh':
            st.mem[args[0]] = (NULL, 8)
            st.mem[eng.addoff(args[0], 8)] = (NULL, 8)
            return [(st, None)]
        p, x = self.ptr(eng, st, 'old.p'), self.sym(eng, st, 'old.x')
        self.fields(eng, p)
        n = eng.p.struct_size(TH)
        for i in range(0, n, 8):
            st.mem[eng.addoff(p, i)] = (NULL, 8)
            st.mem[eng.addoff(p, i + 4)] = (NULL, 4)
        st.mem[self.F['state']] = ((None, K['PThreadStateReuse']), 4)
        st.mem[self.HP] = (p, 8)
        st.mem.pop(eng.addoff(self.HX, 4), None)
        st.mem[self.HX] = (x, 8)
        st.mem[args[0]] = (p, 8)
        st.mem[eng.addoff(args[0], 8)] = (x, 8)
        st.mon['rec'] = ('K', p, x)
        self.own(st, 'rec', p)
        self.sites.add((eng.where(inst), name))
        return [(st, None)]

    def on_alloc(self, eng, st, v, inst, args):
        self.sites.add((eng.where(inst), 'allocation'))
        if v == NULL:
            self.fail(st, 'mem')
            return
        if st.mon['rec']:
            return self.rep(eng, st, 'allocates a second record', inst)
        self.fields(eng, v)
        st.mon['rec'] = ('K', v, NULL)
        self.own(st, 'rec', v)

    def m_calloc(self, eng, st, inst, args, name, cv):
        if not (const(args[0]) and const(args[1])) or args[0][1] * args[1][1] < eng.p.struct_size(TH):
            return self.R(eng, st, 'allocates too little for a record', inst)
        return self.m_malloc(eng, st, inst, args, name, cv, 'heap0')

    def m_push(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        p, x = self.handle(eng, st, args[0])
        if self.drop(st, p) != 'rec':
            return self.R(eng, st, 'puts back a record that is not its own', inst)
        m['back'] = 1
        return [(st, None)]

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr == ('g:ptw32_threadSeqNumber', 0):
            self.sites.add((eng.where(inst), 'sequence number'))
            if not self.rlock(st):
                self.rep(eng, st, 'uses the sequence counter without holding the lock of the records (two threads may get the same number)', inst)
                return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_store(self, eng, st, addr, lab, v, inst):
        m = st.mon
        if addr == ('g:ptw32_threadSeqNumber', 0):
            m['seqw'] = ('K', v)
            if m['seq'] == 0 or v != eng.addoff(m['seq'][1], 1):
                self.rep(eng, st, 'the sequence counter does not go up by one', inst)

    def on_load(self, eng, st, addr, lab, v, inst):
        if addr == ('g:ptw32_threadSeqNumber', 0) and st.mon['seq'] == 0:
            st.mon['seq'] = ('K', v)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with the lock held')
        h = (peek(st, ('a:ret:h', 0)), peek(st, ('a:ret:h', 8)))
        left = [r for r in self.live(st)]
        if h[0] == NULL:
            if [r for r in left]:
                return R('fails and leaks %s' % ', '.join(sorted('the record' if r[1] == 'rec' else r[1] for r in left)))
            if not m['failed']:
                return R('fails although nothing failed')
            return
        if m['failed']:
            return R('succeeds although something failed')
        if not m['rec'] or h != m['rec'][1:]:
            return R('gives the wrong handle')
        p, x = h
        g = lambda f: peek(st, field(eng, p, TH, f))
        if self.val(eng, st, p, TH, 'seqNumber', 8) != m.get('seqw', ('', ''))[1]:
            return self.rep(eng, st, 'the record does not get a sequence number of its own', inst, ('J05', 'J07'))
        H = lambda o, s: eng.load(st, o, s, {'id': 'peek-h', 'loc': None})
        if H(self.HP, 8) != p or H(self.HX, 8) != x:
            return R('the handle is not the one in the record')
        evs = [r[2] for r in left if r[1] == 'handle']
        if len(evs) != 1 or g('cancelEvent') != evs[0]:
            return R('the record has no cancellation event (or leaks one)')
        for f, sz, w in (('cancelState', 4, K['PTHREAD_CANCEL_ENABLE']), ('cancelType', 4, K['PTHREAD_CANCEL_DEFERRED']), ('detachState', 4, K['PTHREAD_CREATE_JOINABLE']),
                         ('sched_priority', 4, K['THREAD_PRIORITY_NORMAL']), ('stateLock', 8, 0), ('threadLock', 8, 0), ('robustMxListLock', 8, 0), ('robustMxList', 8, 0), ('name', 8, 0),
                         ('keys', 8, 0), ('exitStatus', 8, 0), ('threadH', 8, 0), ('cpuset', 8, 0)):
            if self.val(eng, st, p, TH, f, sz) != (None, w):
                return R('the new record starts with the wrong %s' % f)


class SelfH(Thr):
    """pthread_self.  case: known, unknown, uninit"""
    PROPS = ('J06',)

    def models(self):
        m = super().models()
        m['pthread_self'] = None
        m['ptw32_processInitialize'] = self.m_pinit
        m['ptw32_new'] = self.m_new
        m['ptw32_threadDestroy'] = self.m_destroy
        m['pthread_setspecific'] = self.m_setspec
        m['DuplicateHandle'] = self.m_dup
        for n in ('GetProcessAffinityMask', 'SetThreadAffinityMask'):
            m[n] = self.m_aff
        m['GetThreadPriority'] = self.m_getprio
        m['GetCurrentThreadId'] = lambda eng, st, inst, args, name, cv: [(st, st.mon['tid'])]
        m['GetCurrentThread'] = lambda eng, st, inst, args, name, cv: [(st, (None, -2))]
        del m['pthread_self']
        return m

    def setup(self, eng, st, args):
        m = st.mon
        sk = self.ptr(eng, st, 'selfkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (sk, 8)
        m.update({'key': sk, 'rec': '', 'bound': '', 'dup': '', 'noinit': 0})
        m['act'] = m['act0'] = self.sym(eng, st, 'processors of the thread', ex=(0,))
        m['prio'] = self.sym(eng, st, 'priority of the thread')
        m['tid'] = self.sym(eng, st, 'id of the thread')
        m['prec'] = self.sym(eng, st, 'processors of the process', ex=(0,))
        if self.case == 'known':
            p = self.self_p(eng)
            st.facts[p[0]] = (-INF, INF, frozenset(BAD))
            self.fields(eng, p)
            st.mem[self.HP] = (p, 8)
            st.mem[self.HX] = (self.self_x(eng), 8)
            m['p'], m['x'] = p, self.self_x(eng)
        else:
            m['p'] = NULL
        eng.substitute(st, args[0][0], ('a:ret:h', 0))

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def m_pinit(self, eng, st, inst, args, name, cv):
        if self.case == 'uninit':
            st.mon['noinit'] = 1
            return [(st, NULL)]
        return [(st, (None, 1))]

    def m_getspec(self, eng, st, inst, args, name, cv):
        m = st.mon
        if args[0] != m['key'] or m['noinit']:
            return self.R(eng, st, 'uses the wrong key (or one that does not exist)', inst)
        return [(st, m['p'])]

    def m_new(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if m['rec'] or self.case != 'unknown':
            return self.R(eng, st, 'makes a record although the thread has one', inst)
        t = st.fork()
        t.mem[args[0]] = (NULL, 8)
        t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
        self.fail(t, 'rec')
        p, x = self.ptr(eng, st, 'new.p'), self.sym(eng, st, 'new.x')
        self.fields(eng, p)
        st.mem[args[0]] = (p, 8)
        st.mem[eng.addoff(args[0], 8)] = (x, 8)
        st.mem[self.HP] = (p, 8)
        st.mem[self.HX] = (x, 8)
        st.mem[self.F['threadH']] = (NULL, 8)
        st.mem[field(eng, p, TH, 'implicit')] = (NULL, 4)
        m['rec'] = ('K', p, x)
        self.own(st, 'rec', p)
        return [(t, None), (st, None)]

    def m_dup(self, eng, st, inst, args, name, cv):
        t = st.fork()
        self.fail(t, 'dup')
        v = self.heap(eng, st, inst, 'handle')
        st.mem[args[3]] = (v, 8)
        st.mon['dup'] = ('K', v)
        self.own(st, 'handle', v)
        return [(t, NULL), (st, (None, 1))]

    def m_aff(self, eng, st, inst, args, name, cv):
        t = st.fork()
        self.fail(t, 'affinity')
        if name.startswith('Get'):
            st.mem[args[1]] = (st.mon['prec'], 8)
            st.mem[args[2]] = (eng.sitesym(st, inst, 'system mask'), 8)
            return [(t, NULL), (st, (None, 1))]
        if not self.mine(st, args[0]):
            return self.R(eng, st, 'changes the processors of something other than the calling thread', inst)
        was = st.mon['act']
        st.mon['act'] = args[1]
        return [(t, NULL), (st, was)]

    def mine(self, st, h):
        """does this handle name the calling thread?"""
        return h == (None, -2) or st.mon['dup'] and h == st.mon['dup'][1]

    def m_getprio(self, eng, st, inst, args, name, cv):
        if not self.mine(st, args[0]):
            return self.R(eng, st, 'asks for the priority of something other than the calling thread', inst)
        return [(st, st.mon['prio'])]

    def m_setspec(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        if args[0] != m['key'] or not m['rec'] or args[1] not in (m['rec'][1], NULL):
            return self.R(eng, st, 'binds the thread to something other than its record', inst)
        m['bound'] = '' if args[1] == NULL else 'y'
        return [(st, NULL)]

    def m_destroy(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        p, x = self.handle(eng, st, args[0])
        if p == NULL:
            return [(st, None)]
        if self.drop(st, p) != 'rec':
            return self.R(eng, st, 'releases a record that is not its own', inst)
        h = peek(st, self.F['threadH'])
        if m['dup'] and h == m['dup'][1]:
            self.drop(st, h)
        self.scrub(eng, st, p)
        return [(st, None)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        h = (peek(st, ('a:ret:h', 0)), peek(st, ('a:ret:h', 8)))
        if self.case == 'known':
            return h == (m['p'], m['x']) or R('does not give the thread\'s own handle')
        if self.case == 'uninit':
            return h[0] == NULL or R('gives a handle although the library cannot be initialised')
        left = sorted(r[1] for r in self.live(st))
        if h[0] == NULL:
            if left:
                return R('fails and leaks %s' % ', '.join(left))
            if m['bound'] == 'y':
                return R('fails and leaves the thread bound to a released record')
            if not m['failed']:
                return R('fails although nothing failed')
            return
        if not m['rec'] or h != m['rec'][1:] or 'rec' not in left:
            return R('gives a handle that is not that of its (live) record')
        if m['bound'] != 'y':
            return R('gives a handle without binding the thread to it: the next call makes another one')
        g = lambda f: peek(st, self.F[f]) if f in self.F else peek(st, field(eng, h[0], TH, f))
        if not m['dup'] or g('threadH') != m['dup'][1]:
            return R('the record has no real handle of the thread')
        if g('detachState') != (None, K['PTHREAD_CREATE_DETACHED']):
            return R('the record of a thread that is not of the library\'s making is joinable')
        if g('thread') != m['tid']:
            return self.rep(eng, st, 'the record does not have the id of the thread', inst, ('J06', 'J07'))
        i = g('implicit')
        if i is None or eng.decide(st, 'ne', i, NULL) is not True:
            return R('the record does not tell that the thread is not of the library\'s making (an exit or cancellation would unwind frames it does not own)')
        if g('state') != (None, K['PThreadStateRunning']):
            return R('the record is not marked as that of a running thread')
        if g('sched_priority') != m['prio']:
            return self.rep(eng, st, 'the recorded priority is not the one the thread has', inst, ('V01',))
        if m['act'] != m['act0'] or g('cpuset') != m['act0']:
            return self.rep(eng, st, 'the recorded processors are not those the thread had, and has', inst, ('U01',))


class PInit(Contract):
    """ptw32_processInitialize.  case: first, again"""
    PROPS = ('J06',)
    INIT = ('g:ptw32_processInitialized', 0)

    def models(self):
        m = super().models()
        m['pthread_key_create'] = self.m_kc
        m['pthread_key_delete'] = self.m_kd
        return m

    def setup(self, eng, st, args):
        st.mem[self.INIT] = ((None, 1 if self.case == 'again' else 0), 4)
        st.mon['w'] = 0

    def stable(self, eng, st, addr, lab):
        return True

    def on_store(self, eng, st, addr, lab, v, inst):
        if isinstance(addr[0], str) and addr[0].startswith('g:ptw32'):
            st.mon['w'] = 1

    def m_kc(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        t = st.fork()
        self.fail(t, 'key')
        v = self.heap(eng, st, inst, 'heap')
        st.mem[args[0]] = (v, 8)
        self.own(st, 'key', v)
        if args[1] != NULL:
            return self.rep(eng, st, 'an internal key has a destructor', inst) or []
        return [(t, (None, E['EAGAIN'])), (st, NULL)]

    def m_kd(self, eng, st, inst, args, name, cv):
        if self.drop(st, args[0]) != 'key':
            return self.rep(eng, st, 'deletes a key that does not exist', inst) or []
        return [(st, NULL)]

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        keys = [r[2] for r in self.live(st)]
        if self.case == 'again':
            if v == NULL or m['w'] or keys:
                R('an initialised library is initialised again')
            return
        i = peek(st, self.INIT)
        if m['failed']:
            if v != NULL or i != NULL:
                return R('the library counts as initialised although its keys could not be created')
            if keys:
                return R('fails and leaks a key')
            return
        if v == NULL or i == NULL:
            return R('the library is not marked as initialised')
        ks = {peek(st, ('g:ptw32_selfThreadKey', 0)), peek(st, ('g:ptw32_cleanupKey', 0))}
        if ks != set(keys) or len(keys) != 2:
            return R('the library does not have its two keys')
        EM = (None, K['PTW32_THREAD_REUSE_EMPTY'])
        if peek(st, Reuse.TOP) != EM or peek(st, Reuse.BOT) != EM:
            return R('the pool of records does not start empty')


class PTerm(Contract):
    """ptw32_processTerminate"""
    PROPS = ('J06',)

    def models(self):
        m = super().models()
        m['pthread_key_delete'] = self.m_kd
        return m

    def setup(self, eng, st, args):
        m = st.mon
        st.mem[PInit.INIT] = ((None, 1), 4)
        self.k1, self.k2 = self.ptr(eng, st, 'selfkey'), self.ptr(eng, st, 'cleanupkey')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (self.k1, 8)
        st.mem[('g:ptw32_cleanupKey', 0)] = (self.k2, 8)
        self.own(st, 'key', self.k1)
        self.own(st, 'key', self.k2)
        m.update({'cur': '', 'end': 0, 'gone': ()})

    def private(self, eng, st, addr, lab):
        return True

    def m_kd(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if self.drop(st, args[0]) != 'key':
            return self.rep(eng, st, 'deletes a key that does not exist (any more)', inst) or []
        if self.mcs(st):
            return self.rep(eng, st, 'deletes a key with the lock of the records held', inst) or []
        return [(st, NULL)]

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        pr = lab and lab[1] == 'prevReuse'
        if addr == Reuse.TOP and not m['cur'] and not m['end'] or pr and m['cur'] and addr == field(eng, m['cur'][1], TH, 'prevReuse'):
            if not any(l == RLOCK for _, l, n in self.mcs(st)):
                self.rep(eng, st, 'walks the pool of records without holding its lock', inst)
                return []
            if addr[0] in [g[0] for g in m['gone']]:
                self.rep(eng, st, 'load of freed memory', inst)
                return []
            t = st.fork()
            t.mon['nxt'] = ''
            t.mon['end'] = 1
            n = eng.sitesym(st, dict(inst, ty='ptr'), 'record')
            st.facts[n[0]] = (-INF, INF, frozenset(BAD + (1,)))
            m['cur' if addr == Reuse.TOP else 'nxt'] = ('K', n)
            return [(t, (None, K['PTW32_THREAD_REUSE_EMPTY'])), (st, n)]

    def on_free(self, eng, st, v, inst):
        m = st.mon
        self.sites.add((eng.where(inst), 'free'))
        if not m['cur'] or v != m['cur'][1]:
            return self.rep(eng, st, 'frees something other than the next record of the pool', inst)
        if not m.get('nxt') and not m['end']:
            return self.rep(eng, st, 'frees a record before looking at the next', inst)
        m['cur'] = m.get('nxt', '')
        m['nxt'] = ''

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if self.mcs(st):
            return R('leaves with the lock held')
        if self.live(st):
            return R('leaks a key')
        if m['cur'] or not m['end']:
            return R('leaks records')
        EM = (None, K['PTW32_THREAD_REUSE_EMPTY'])
        if peek(st, Reuse.TOP) != EM or peek(st, Reuse.BOT) != EM:
            return R('the pool refers to freed records')
        if peek(st, PInit.INIT) != NULL or peek(st, ('g:ptw32_selfThreadKey', 0)) != NULL or peek(st, ('g:ptw32_cleanupKey', 0)) != NULL:
            return R('the library still counts as initialised or refers to deleted keys')


JOBS = []


def job(props, entry, case, make, n=1):
    JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'min_sites': n, 'assumes': ASSUME, 'make': make})


for _c in ('noattr', 'nullattr', 'attr'):
    job(('J01', 'J07'), 'pthread_create', _c, (lambda c=_c: Create(c)), 3)
for _c in ('return', 'cancel', 'exit', 'other'):
    job(('J02', 'J04', 'J07'), 'ptw32_threadStart', _c, (lambda c=_c: Start(c)), 3)
for _e, _k in (('pthread_join', 'join'), ('pthread_tryjoin_np', 'try'), ('pthread_timedjoin_np', 'timed')):
    for _c in ('other', 'self', 'null') + (('other/forever',) if _k == 'timed' else ()):
        job(('J03', 'I03', 'W01') if _k == 'timed' else ('J03', 'I03'), _e, _c, (lambda c=_c, k=_k: Join(c, k)), 2 if _c.startswith('other') else 0)
for _c in ('other', 'null'):
    job(('J04',), 'pthread_detach', _c, (lambda c=_c: Detach(c)), 2 if _c == 'other' else 0)
for _c in ('joinable', 'detached', 'none'):
    job(('J04', 'M04'), 'pthread_win32_thread_detach_np', _c, (lambda c=_c: ThreadEnd(c, 'thread')), 0 if _c == 'none' else 2)
    job(('J04',), 'pthread_win32_process_detach_np', _c, (lambda c=_c: ThreadEnd(c, 'process')), 0 if _c == 'none' else 1)
for _c in ('live', 'null'):
    job(('J05',), 'ptw32_threadDestroy', _c, (lambda c=_c: Destroy(c)), 1 if _c == 'live' else 0)
for _c in ('empty', 'one', 'many'):
    job(('J05',), 'ptw32_threadReusePush', _c, (lambda c=_c: Reuse(c, 'push')))
    job(('J05',), 'ptw32_threadReusePop', _c, (lambda c=_c: Reuse(c, 'pop')))
for _c in ('reused', 'fresh'):
    job(('J05', 'J07'), 'ptw32_new', _c, (lambda c=_c: New(c)))
for _c in ('known', 'unknown', 'uninit'):
    job(('J06', 'V01', 'U01', 'J07'), 'pthread_self', _c, (lambda c=_c: SelfH(c)), 2 if _c == 'unknown' else 0)
for _c in ('first', 'again'):
    job(('J06',), 'ptw32_processInitialize', _c, (lambda c=_c: PInit(c)), 1 if _c == 'first' else 0)
job(('J06',), 'ptw32_processTerminate', '', (lambda: PTerm('')), 1)
