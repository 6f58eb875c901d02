"""Attribute objects: initialisation, destruction, setters and getters (A*), refusal of unsupported settings (Y01)."""
from ..engine import wrap, NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm

BAD = (0, -1, -2, -3)
ATTR, MA, CA, RA, BA = 'pthread_attr_t_', 'pthread_mutexattr_t_', 'pthread_condattr_t_', 'pthread_rwlockattr_t_', 'pthread_barrierattr_t_'
SIZE = {ATTR: dict(valid=4, stackaddr=8, stacksize=8, detachstate=4, param=4, inheritsched=4, contentionscope=4, cpuset=8, thrname=8),
        MA: dict(pshared=4, kind=4, robustness=4), CA: dict(pshared=4), RA: dict(pshared=4), BA: dict(pshared=4)}
HAS = {MA: 'a mutex attributes object', CA: 'a condition attributes object', RA: 'a read-write lock attributes object', BA: 'a barrier attributes object', ATTR: 'an attributes object'}


class Obj(Contract):
    """one attributes object, reached through a pointer to a pointer.  case: null (no variable), unset (no object), invalid (not an object), ok"""
    PROPS = ('A01',)
    exact_cast = True

    def __init__(self, s, kind, fld, case, props, spec=None):
        super().__init__(case)
        self.s, self.kind, self.fld, self.PROPS, self.spec = s, kind, fld, props, spec

    def R(self, eng, st, msg, inst):
        return self.rep(eng, st, msg, inst) or []

    def models(self):
        m = super().models()
        m['pthread_self'] = self.m_no
        return m

    def m_no(self, eng, st, inst, args, name, cv):
        raise AnalysisBroken('%s is not covered by the rule for %s' % (name, eng.root.name))

    def G(self, eng, f):
        if f == 'param':
            return eng.addoff(self.P, eng.p.field_off(ATTR, 'param'))
        return field(eng, self.P, self.s, f)

    def stable(self, eng, st, addr, lab):
        return True

    def private(self, eng, st, addr, lab):
        return True

    def setup(self, eng, st, args):
        m = st.mon
        m.update({'want': 'E' + ('' if self.case == 'ok' else 'INVAL'), 'new': '', 'freed': (), 'gone': (), 'chg': '', 'out': '', 'n': 0})
        self.A = args[0]
        self.P = self.ptr(eng, st, 'object')
        fl = SIZE[self.s]
        self.old = {f: self.sym(eng, st, 'old ' + f) for f in fl}
        m['keep'] = ('K', self.A, self.P) + tuple(self.old[f] for f in sorted(fl))
        if self.case == 'null':
            eng.substitute(st, self.A[0], NULL)
            self.A = NULL
        else:
            st.facts[self.A[0]] = (-INF, INF, frozenset(BAD))
            st.mem[self.A] = (NULL if self.case == 'unset' else self.P, 8)
            if self.kind == 'init':
                g = self.sym(eng, st, 'garbage')
                st.mem[self.A] = (g, 8)
                m['garbage'] = ('K', g)
        if self.case in ('ok', 'invalid') and self.kind != 'init':
            for f, sz in fl.items():
                st.mem[self.G(eng, f)] = (self.old[f], sz)
            if 'valid' in fl:
                v = (None, wrap(K['PTW32_ATTR_VALID'], 32))
                if self.case == 'ok':
                    st.mem[self.G(eng, 'valid')] = (v, 4)
                    self.old['valid'] = v
                else:
                    st.facts[self.old['valid'][0]] = (-INF, INF, frozenset([v[1]]))
        return getattr(self, 's_' + self.kind)(eng, st, args)

    # ---- what each kind of call is given and must do ('want' result, 'chg' new value of the field, 'out' what is handed out)
    def s_init(self, eng, st, args):
        if self.case == 'null':
            st.mon['want'] = 'EINVAL'
        else:
            st.mon['want'] = 'init'

    def s_destroy(self, eng, st, args):
        outs = []
        if self.case != 'ok':
            return
        st.mon['want'] = 'destroy'
        if self.s != ATTR:
            return
        for named in (0, 1):
            s = st.fork()
            n = self.ptr(eng, s, 'name') if named else NULL
            s.mem[self.G(eng, 'thrname')] = (n, 8)
            s.mon['name'] = ('K', n)
            outs.append(s)
        return outs

    def s_set(self, eng, st, args):
        sp, v = self.spec, args[1]
        if self.case != 'ok':
            return
        outs = []
        for want, vals in sp:
            for c in vals:
                s = st.fork()
                if isinstance(c, tuple) and c[0] == 'range':
                    s.facts[v[0]] = (c[1], c[2], frozenset(c[3] if len(c) > 3 else ()))
                    w = v
                else:
                    eng.substitute(s, v[0], (None, c))
                    w = (None, c)
                s.mon['want'] = want
                s.mon['chg'] = ('K', w) if want == 'OK' else ''
                s.mon['keep2'] = ('K', w)
                outs.append(s)
        return outs

    def s_setp(self, eng, st, args):
        """value passed by reference"""
        q = args[-1]
        outs = []
        z = st.fork()
        eng.substitute(z, q[0], NULL)
        z.mon['want'] = 'EINVAL'
        outs.append(z)
        for want, vals in self.spec:
            for c in vals:
                s = st.fork()
                s.facts[q[0]] = (-INF, INF, frozenset(BAD))
                w = self.sym(eng, s, 'value', c[1], c[2])
                s.mem[q] = (w, SIZE[self.s][self.fld])
                s.mon['keep2'] = ('K', w, q)
                s.mon['src'] = ('K', q, w)
                if self.case == 'ok':
                    s.mon['want'] = want
                    s.mon['chg'] = ('K', w) if want == 'OK' else ''
                outs.append(s)
        return outs

    def s_get(self, eng, st, args):
        q = args[-1]
        outs = []
        if not (self.spec and self.spec.get('nonull')):
            z = st.fork()
            eng.substitute(z, q[0], NULL)
            z.mon['want'] = 'EINVAL'
            outs.append(z)
        st.facts[q[0]] = (-INF, INF, frozenset(BAD))
        g = self.sym(eng, st, 'before')
        sz = SIZE[self.s].get(self.fld, 4)
        st.mem[q] = (g, sz)
        v = g
        if self.case == 'ok':
            st.mon['want'] = 'OK'
            v = (None, self.spec['const']) if self.spec and 'const' in self.spec else self.old[self.fld]
        st.mon['out'] = ('K', q, v, (None, sz))
        return outs + [st]

    def s_refuse(self, eng, st, args):
        st.mon['want'] = self.spec

    # ---- events
    def on_alloc(self, eng, st, v, inst, args):
        super().on_alloc(eng, st, v, inst, args)
        m = st.mon
        if m['want'] != 'init':
            return self.rep(eng, st, 'allocates memory', inst)
        if v == NULL:
            return
        if m['new']:
            return self.rep(eng, st, 'allocates a second object', inst)
        n = 1
        for a in args:
            if not const(a):
                raise AnalysisBroken('allocation of unknown size')
            n *= a[1]
        if n < eng.p.struct_size(self.s):
            return self.rep(eng, st, 'allocates %d bytes for an object of %d' % (n, eng.p.struct_size(self.s)), inst)
        m['new'] = ('K', v)

    def on_free(self, eng, st, v, inst):
        m = st.mon
        if v == NULL:
            return
        self.sites.add((eng.where(inst), 'free'))
        if m['want'] == 'init':
            return super().on_free(eng, st, v, inst)
        if m['want'] != 'destroy' or (v != self.P and ('K', v) != m.get('name')):
            return self.rep(eng, st, 'frees something it must not', inst)
        if v in m['freed']:
            return self.rep(eng, st, 'frees memory twice', inst)
        m['freed'] = m['freed'] + (v,)
        self.scrub(eng, st, v)

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        m = st.mon
        if how == 'store' and addr[0] is not None and not (isinstance(addr[0], str) and addr[0].startswith('a:')):
            self.sites.add((eng.where(inst), 'write'))
            mine = [self.A[0], self.P[0]] + [m[k][1][0] for k in ('new', 'out') if m.get(k)]
            if addr[0] not in mine and addr[0] != 'g:errno':
                self.rep(eng, st, 'writes to something that is neither the object nor the result', inst)
                return STOP
        return None

    def on_memcpy(self, eng, st, dst, src, n, inst):
        for a, how in ((src, 'load'), (dst, 'store')):
            if self.on_deref(eng, st, a, eng.label(a), inst, how) is STOP:
                return

    # ---- verdict
    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if kind != 'return' or not const(v):
            return R('does not return a definite result')
        w = m['want']
        want = {'OK': 0, 'init': 0, 'destroy': 0}.get(w, E.get(w))
        if w == 'init' and self.failed_any(st, 'mem'):
            want = E['ENOMEM']
        if v[1] != want:
            return R('returns %s where %s is due' % (nm(v), nm((None, want))))
        now = peek(st, self.A) if self.A != NULL else None
        if w == 'init' and want == 0:
            if not m['new'] or now != m['new'][1]:
                return R('reports success without setting the variable to a new object')
            n = m['new'][1]
            for f, x in self.spec.items():
                a = eng.addoff(n, eng.p.field_off(self.s, f))
                got = eng.load(st, a, SIZE[self.s][f], {'id': 'peek-' + f, 'loc': None})
                if got != (None, x):
                    return R('%s is not initialised to its default' % f)
            return
        if w == 'init':
            if self.live(st):
                return R('leaks memory when it fails')
            if now not in (NULL, m['garbage'][1]):
                return R('leaves the variable referring to nothing valid when it fails')
            return
        if w == 'destroy':
            if now != NULL:
                return R('leaves the variable referring to a destroyed object')
            if self.P not in m['freed']:
                return R('does not release the object')
            if m.get('name') and m['name'][1] != NULL and m['name'][1] not in m['freed']:
                return R('does not release the name in the object')
            return
        if self.kind != 'init' and self.A != NULL:
            if now != (NULL if self.case == 'unset' else self.P):
                return R('changes which object the variable refers to')
            if self.case in ('ok', 'invalid'):
                for f, sz in SIZE[self.s].items():
                    got = peek(st, self.G(eng, f))
                    exp = m['chg'][1] if m['chg'] and f == self.fld else self.old[f]
                    if got != exp and not (m['chg'] and f == self.fld and eng.decide(st, 'eq', got, exp) is True):
                        return R('%s %s' % ('does not store the value given as' if exp is not self.old[f] else 'reports %s but changes' % nm(v) if v[1] else 'changes', f))
        if m['out']:
            _, q, x, sz = m['out']
            got = peek(st, q)
            if got != x or st.mem[q][1] != sz[1]:
                return R('does not hand out the stored value' if v[1] == 0 else 'reports %s but changes the result' % nm(v))
        if m.get('src') and peek(st, m['src'][1]) != m['src'][2]:
            return R('changes the value it was given')


JOBS = []
CASES = {'attr': ('null', 'unset', 'invalid', 'ok'), 'other': ('null', 'unset', 'ok')}


def job(props, entry, s, kind, fld, spec=None, cases=None):
    for c in cases or CASES['attr' if s == ATTR else 'other']:
        JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': c, 'min_sites': 1 if c == 'ok' and fld and fld != 'policy' else 0,
                     'assumes': ['the caller does not use one attributes object from two threads at a time'],
                     'make': lambda s=s, k=kind, f=fld, c=c, p=props, sp=spec: Obj(s, k, f, c, p, sp(K) if callable(sp) else sp)})


def others(K, *names, lo=-2**31, hi=2**31 - 1):
    return ('range', lo, hi, tuple(K[n] for n in names))


def choice(*names):
    return lambda K: [('OK', [K[n] for n in names]), ('EINVAL', [others(K, *names)])]


job(('A01',), 'pthread_attr_init', ATTR, 'init', None, lambda K: dict(
    valid=wrap(K['PTW32_ATTR_VALID'], 32), stacksize=0, detachstate=K['PTHREAD_CREATE_JOINABLE'], param=K['THREAD_PRIORITY_NORMAL'],
    inheritsched=K['PTHREAD_EXPLICIT_SCHED'], contentionscope=K['PTHREAD_SCOPE_SYSTEM'], cpuset=0, thrname=0), ('null', 'ok'))
job(('A01',), 'pthread_attr_destroy', ATTR, 'destroy', None)
job(('A01',), 'pthread_attr_setdetachstate', ATTR, 'set', 'detachstate', choice('PTHREAD_CREATE_JOINABLE', 'PTHREAD_CREATE_DETACHED'))
job(('A01',), 'pthread_attr_setinheritsched', ATTR, 'set', 'inheritsched', choice('PTHREAD_INHERIT_SCHED', 'PTHREAD_EXPLICIT_SCHED'))
job(('A01', 'Y01'), 'pthread_attr_setscope', ATTR, 'set', 'contentionscope', lambda K: [
    ('OK', [K['PTHREAD_SCOPE_SYSTEM']]), ('ENOTSUP', [K['PTHREAD_SCOPE_PROCESS']]), ('EINVAL', [others(K, 'PTHREAD_SCOPE_SYSTEM', 'PTHREAD_SCOPE_PROCESS')])])
job(('A01', 'Y01'), 'pthread_attr_setschedpolicy', ATTR, 'set', None, lambda K: [('OK', [K['SCHED_OTHER']]), ('ENOTSUP', [others(K, 'SCHED_OTHER')])])
job(('A01',), 'pthread_attr_setstacksize', ATTR, 'set', 'stacksize', lambda K: [('OK', [('range', max(K['PTHREAD_STACK_MIN'], 0), 2**63 - 1)])] + (
    [('EINVAL', [('range', 0, K['PTHREAD_STACK_MIN'] - 1)])] if K['PTHREAD_STACK_MIN'] > 0 else []))
job(('A01',), 'pthread_attr_setschedparam', ATTR, 'setp', 'param', lambda K: (lambda lo, hi: [
    ('OK', [('range', lo, hi)]), ('EINVAL', [('range', -2**31, lo - 1), ('range', hi + 1, 2**31 - 1)])])(
        min(K['THREAD_PRIORITY_IDLE'], K['THREAD_PRIORITY_TIME_CRITICAL']), max(K['THREAD_PRIORITY_IDLE'], K['THREAD_PRIORITY_TIME_CRITICAL'])))
job(('A01',), 'pthread_attr_setaffinity_np', ATTR, 'setp', 'cpuset', lambda K: [('OK', [('range', -INF, INF)])])
for _e, _f, _s in (('detachstate', 'detachstate', None), ('inheritsched', 'inheritsched', None), ('scope', 'contentionscope', None), ('stacksize', 'stacksize', {'nonull': 1}),
                   ('schedparam', 'param', None), ('affinity_np', 'cpuset', None), ('schedpolicy', 'policy', lambda K: {'const': K['SCHED_OTHER']})):
    job(('A01',), 'pthread_attr_get' + _e, ATTR, 'get', _f, _s)
job(('Y01',), 'pthread_attr_setstackaddr', ATTR, 'refuse', None, 'ENOSYS')
job(('Y01',), 'pthread_attr_getstackaddr', ATTR, 'refuse', None, 'ENOSYS')
PS = choice('PTHREAD_PROCESS_PRIVATE', 'PTHREAD_PROCESS_SHARED')
for _n, _s in (('mutex', MA), ('cond', CA), ('rwlock', RA), ('barrier', BA)):
    job(('A02',), 'pthread_%sattr_init' % _n, _s, 'init', None, (lambda K: dict(pshared=K['PTHREAD_PROCESS_PRIVATE'], kind=K['PTHREAD_MUTEX_DEFAULT'], robustness=K['PTHREAD_MUTEX_STALLED']))
        if _n == 'mutex' else (lambda K: dict(pshared=K['PTHREAD_PROCESS_PRIVATE'])), ('ok',))
    job(('A02',), 'pthread_%sattr_destroy' % _n, _s, 'destroy', None)
    job(('A02',), 'pthread_%sattr_setpshared' % _n, _s, 'set', 'pshared', PS)
    job(('A02',), 'pthread_%sattr_getpshared' % _n, _s, 'get', 'pshared')
TY = choice('PTHREAD_MUTEX_NORMAL', 'PTHREAD_MUTEX_RECURSIVE', 'PTHREAD_MUTEX_ERRORCHECK')
job(('A02',), 'pthread_mutexattr_settype', MA, 'set', 'kind', TY)
job(('A02',), 'pthread_mutexattr_setkind_np', MA, 'set', 'kind', TY)
job(('A02',), 'pthread_mutexattr_gettype', MA, 'get', 'kind')
job(('A02',), 'pthread_mutexattr_getkind_np', MA, 'get', 'kind')
job(('A02',), 'pthread_mutexattr_setrobust', MA, 'set', 'robustness', choice('PTHREAD_MUTEX_STALLED', 'PTHREAD_MUTEX_ROBUST'))
job(('A02',), 'pthread_mutexattr_getrobust', MA, 'get', 'robustness')


class Refuse(Contract):
    """a facility that does not exist: -1 (or a null result) with errno set, nothing touched"""
    PROPS = ('Y01',)

    def __init__(self, case, ret, err):
        super().__init__(case)
        self.ret, self.err = ret, err

    def setup(self, eng, st, args):
        for a in args:
            st.facts.pop(a[0], None)

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr[0] != 'g:errno' and not (isinstance(addr[0], str) and addr[0].startswith('a:')):
            self.rep(eng, st, 'uses its arguments although the facility does not exist', inst)
            return STOP

    def on_exit(self, eng, st, kind, v, inst):
        if kind != 'return' or v != (None, self.ret):
            return self.rep(eng, st, 'does not report failure', inst)
        if self.errno(st) != (None, E[self.err]):
            return self.rep(eng, st, 'does not say in errno that the facility is not supported', inst)


for _e in ('sem_open', 'sem_close', 'sem_unlink'):
    JOBS.append({'kind': 'engine', 'props': ('Y01',), 'entry': _e, 'case': '', 'min_sites': 0, 'assumes': [],
                 'make': lambda e=_e: Refuse('', K['SEM_FAILED'] if e == 'sem_open' else -1, 'ENOSYS')})
