"""Shared models (contracts) of primitives and of the Win32/CRT interface, used by the property analyses."""
from .engine import Analysis, THROW, STOP, NULL, INF, AnalysisBroken

E = dict(EPERM=1, ESRCH=3, EINTR=4, EAGAIN=11, ENOMEM=12, EBUSY=16, EINVAL=22, ENOSPC=28, ERANGE=34, EDEADLK=36,
         ENOSYS=40, ENOTSUP=129, EOWNERDEAD=133, ENOTRECOVERABLE=127, ETIMEDOUT=138, EOPNOTSUPP=130, ENOENT=2)
ENAME = {v: k for k, v in E.items()}
WAIT_TIMEOUT = 258
INFINITE = -1


def set_constants(c):
    E.clear()
    E.update({k: v for k, v in c.items() if k[0] == 'E' and k[1:2].isupper()})
    ENAME.clear()
    ENAME.update({v: k for k, v in E.items()})
    K.clear()
    K.update(c)


K = {}


def const(v):
    return v is not None and v[0] is None and v[1] is not None


def ename(v):
    if not const(v):
        return str(v)
    return ENAME.get(v[1], str(v[1]))


class Base(Analysis):
    """Standard contracts.  Subclasses tune which failures are enumerated and which events are watched."""
    fail_alloc = True       # enumerate allocation failure
    fail_setevent = False   # enumerate SetEvent/ReleaseSemaphore/CloseHandle failure
    fail_create = True
    fail_wait = True        # WaitForSingleObject may return WAIT_FAILED
    self_null = False

    def models(self):
        m = {
            'pthread_self': self.m_self,
            'ptw32_mcs_lock_acquire': self.m_mcs_acquire,
            'ptw32_mcs_lock_try_acquire': self.m_mcs_try,
            'ptw32_mcs_lock_release': self.m_mcs_release,
            'ptw32_mcs_node_transfer': self.m_mcs_transfer,
            'ptw32_push_cleanup': self.m_push_cleanup,
            'ptw32_pop_cleanup': self.m_pop_cleanup,
            '_setjmp': self.m_setjmp, 'setjmp': self.m_setjmp, '_setjmpex': self.m_setjmp, '__intrinsic_setjmpex': self.m_setjmp,
            '_errno': self.m_errno,
            'malloc': self.m_malloc, 'calloc': self.m_calloc, 'free': self.m_free, 'realloc': self.m_malloc,
            'WaitForSingleObject': self.m_wait, 'WaitForMultipleObjects': self.m_waitmulti,
            'SetEvent': self.m_bool, 'ResetEvent': self.m_bool, 'ReleaseSemaphore': self.m_bool, 'CloseHandle': self.m_bool,
            'CreateEventA': self.m_create, 'CreateSemaphoreA': self.m_create, 'CreateEventW': self.m_create, 'CreateSemaphoreW': self.m_create,
            'Sleep': self.m_nop, 'SwitchToThread': self.m_nop, 'SetLastError': self.m_nop,
            'GetLastError': self.m_sym, 'GetCurrentThreadId': self.m_sym,
            'strlen': self.m_sym, 'strdup': self.m_malloc, '_strdup': self.m_malloc,
            'abort': self.m_stop, 'exit': self.m_stop, '_exit': self.m_stop, 'ExitThread': self.m_stop, '_endthreadex': self.m_stop,
            'ptw32_throw': self.m_throw,
        }
        return m

    # ---- identity of the calling thread
    def m_self(self, eng, st, inst, args, name, cv):
        p, x = eng.sym('arg', 's', 'self.p'), eng.sym('arg', 's', 'self.x')
        eng._mergefact(st.facts, p, (-INF, INF, frozenset([0, -1, -2, -3])))
        if args and isinstance(args[0][0], str):
            st.mem[args[0]] = ((p, 0), 8)
            st.mem[eng.addoff(args[0], 8)] = ((x, 0), 8)
        outs = []
        if self.self_null:
            t = st.fork()
            t.mem[args[0]] = (NULL, 8)
            t.mem[eng.addoff(args[0], 8)] = (NULL, 8)
            outs.append((t, None))
        return outs + [(st, None)]

    def self_p(self, eng):
        return (eng.sym('arg', 's', 'self.p'), 0)

    def self_x(self, eng):
        return (eng.sym('arg', 's', 'self.x'), 0)

    # ---- MCS queue locks
    def mcs(self, st):
        return st.mon.get('mcs', ())

    def m_mcs_acquire(self, eng, st, inst, args, name, cv):
        lock, node = args[0], args[1]
        if any(l == lock for _, l, n in self.mcs(st)):
            self.report(eng, st, 'acquires internal lock %s while already holding it (self-deadlock)' % eng.showaddr(lock), inst)
            return []
        if self.reused(eng, st, node, inst):
            return []
        self.on_acquire(eng, st, lock, node, inst)
        st.mon['mcs'] = self.mcs(st) + (('L', lock, node),)
        st.note('%s: acquire %s' % (eng.where(inst), eng.showaddr(lock)))
        eng.invalidate(st)
        self.on_acquired(eng, st, lock, inst)
        return [(st, None)]

    def reused(self, eng, st, node, inst):
        for _, l, n in self.mcs(st):
            if n == node:
                self.report(eng, st, 'queues with a node that still holds the internal lock %s' % eng.showaddr(l), inst)
                return True

    def on_acquire(self, eng, st, lock, node, inst):
        pass

    def on_acquired(self, eng, st, lock, inst):
        pass

    def on_released(self, eng, st, lock, inst):
        pass

    def m_mcs_try(self, eng, st, inst, args, name, cv):
        t = st.fork()
        lock, node = args[0], args[1]
        if self.reused(eng, st, node, inst):
            return []
        if any(l == lock for _, l, n in self.mcs(st)):
            t.note('%s: try-acquire %s, which it holds' % (eng.where(inst), eng.showaddr(lock)))
            return [(t, (None, E['EBUSY']))]
        self.on_acquire(eng, st, lock, node, inst)
        st.mon['mcs'] = self.mcs(st) + (('L', lock, node),)
        st.note('%s: try-acquire %s succeeds' % (eng.where(inst), eng.showaddr(lock)))
        t.note('%s: try-acquire %s is busy' % (eng.where(inst), eng.showaddr(lock)))
        eng.invalidate(st)
        self.on_acquired(eng, st, lock, inst)
        return [(t, (None, E['EBUSY'])), (st, NULL)]

    def m_mcs_release(self, eng, st, inst, args, name, cv):
        node = args[0]
        h = self.mcs(st)
        m = [x for x in h if x[2] == node]
        if not m:
            self.report(eng, st, 'releases internal lock node %s that is not held on this path' % eng.show(node), inst)
            return []
        self.on_release(eng, st, m[0][1], inst)
        st.mon['mcs'] = tuple(x for x in h if x is not m[0])
        st.note('%s: release %s' % (eng.where(inst), eng.showaddr(m[0][1])))
        eng.invalidate(st)
        self.on_released(eng, st, m[0][1], inst)
        return [(st, None)]

    def on_release(self, eng, st, lock, inst):
        pass

    def m_mcs_transfer(self, eng, st, inst, args, name, cv):
        new, old = args[0], args[1]
        h = self.mcs(st)
        if not any(x[2] == old for x in h):
            self.report(eng, st, 'transfers internal lock node %s that is not held' % eng.show(old), inst)
            return []
        st.mon['mcs'] = tuple(('L', l, new) if n == old else (k, l, n) for k, l, n in h)
        return [(st, None)]

    def holds(self, eng, st, labelset):
        for _, l, n in self.mcs(st):
            lab = eng.label(l)
            if lab in labelset or l[0] in labelset:
                return True
        return False

    # ---- cleanup handlers (C flavour intrinsics)
    def m_push_cleanup(self, eng, st, inst, args, name, cv):
        st.cleanups = st.cleanups + ((args[1], args[2]),)
        return [(st, None)]

    def m_pop_cleanup(self, eng, st, inst, args, name, cv):
        if not st.cleanups:
            return [(st, NULL)]
        routine, arg = st.cleanups[-1]
        st.cleanups = st.cleanups[:-1]
        ex = args[0]
        outs = []
        fn = None
        if isinstance(routine[0], str) and routine[0].startswith('f:'):
            fn = eng.p.fns.get(routine[0][2:])
        if ex[0] is None:
            cases = [(st, ex[1] != 0)]
        else:
            t = st.fork()
            cases = []
            if eng.assume(t, 'eq', ex, NULL):
                cases.append((t, False))
            if eng.assume(st, 'ne', ex, NULL):
                cases.append((st, True))
        for s, run in cases:
            if run and fn is not None and not fn.decl and eng.models.get(fn.name) is None:
                if inst['ty'] != 'void':
                    s.frames[-1].env[inst['id']] = (eng.sym('opaque', 'cleanup'), 0)
                eng.push(s, dict(inst, ty='void'), fn, [arg])
                eng.work.append(s)
            elif run:
                self.on_cleanup_opaque(eng, s, routine, arg)
                outs.append((s, NULL))
            else:
                outs.append((s, NULL))
        return outs

    def m_setjmp(self, eng, st, inst, args, name, cv):
        fr = st.frames[-1]
        i2 = dict(inst)
        i2['_pos'] = (fr.blk, fr.ip)
        st.setjmps = st.setjmps + ((len(st.frames), _H(i2)),)
        return [(st, NULL)]

    # ---- CRT
    def m_errno(self, eng, st, inst, args, name, cv):
        return [(st, ('g:errno', 0))]

    def errno(self, st):
        m = st.mem.get(('g:errno', 0))
        return m[0] if m else None

    def heap(self, eng, st, inst, kind):
        fr = st.frames[-1]
        s = eng.sym(kind, fr.ctx, fr.fn.key, inst['id'])
        if eng.occurs(st, s):
            o = eng.sym('o', s)
            eng.substitute(st, s, (o, 0))
        st.facts[s] = (-INF, INF, frozenset([0, -1, -2, -3]))
        return (s, 0)

    def m_malloc(self, eng, st, inst, args, name, cv, kind='heap'):
        outs = []
        if self.fail_alloc:
            t = st.fork()
            t.note('%s: %s fails' % (eng.where(inst), name))
            self.on_alloc(eng, t, NULL, inst, args)
            outs.append((t, NULL))
        v = self.heap(eng, st, inst, kind)
        sz = [a[1] for a in args if a[0] is None]
        if sz and len(sz) == len(args):
            n = 1
            for x in sz:
                n *= x
            st.mon['asz'] = tuple(x for x in st.mon.get('asz', ()) if x[1] != v) + (('Z', v, n),)
        self.on_alloc(eng, st, v, inst, args)
        outs.append((st, v))
        return outs

    def on_alloc(self, eng, st, v, inst, args):
        pass

    def m_calloc(self, eng, st, inst, args, name, cv):
        return self.m_malloc(eng, st, inst, args, name, cv, 'heap0')

    def m_free(self, eng, st, inst, args, name, cv):
        self.on_free(eng, st, args[0], inst)
        return [(st, None)]

    def on_free(self, eng, st, v, inst):
        pass

    # ---- Win32
    def m_nop(self, eng, st, inst, args, name, cv):
        return [(st, None if inst['ty'] == 'void' else eng.sitesym(st, inst, name))]

    def m_sym(self, eng, st, inst, args, name, cv):
        return [(st, eng.sitesym(st, inst, name))]

    def m_stop(self, eng, st, inst, args, name, cv):
        self.on_terminal(eng, st, name, inst)
        return [(st, STOP)]

    def on_terminal(self, eng, st, name, inst):
        pass

    def m_throw(self, eng, st, inst, args, name, cv):
        return [(st, THROW)]

    def m_bool(self, eng, st, inst, args, name, cv):
        outs = []
        if self.fail_setevent:
            t = st.fork()
            t.note('%s: %s fails' % (eng.where(inst), name))
            self.on_api(eng, t, name, args, NULL, inst)
            outs.append((t, NULL))
        self.on_api(eng, st, name, args, (None, 1), inst)
        outs.append((st, (None, 1)))
        return outs

    def on_api(self, eng, st, name, args, ret, inst):
        pass

    def m_create(self, eng, st, inst, args, name, cv):
        outs = []
        if self.fail_create:
            t = st.fork()
            t.note('%s: %s fails' % (eng.where(inst), name))
            self.on_api(eng, t, name, args, NULL, inst)
            outs.append((t, NULL))
        v = self.heap(eng, st, inst, 'handle')
        self.on_api(eng, st, name, args, v, inst)
        outs.append((st, v))
        return outs

    def m_wait(self, eng, st, inst, args, name, cv):
        outs = []
        self.before_wait(eng, st, args[0], args[1], inst)
        rets = [(0, 'is signalled')]
        if args[1] != (None, INFINITE):
            rets.append((WAIT_TIMEOUT, 'times out'))
        if self.fail_wait:
            rets.append((-1, 'fails'))
        base = st
        for i, (r, txt) in enumerate(rets):
            s = base if i == len(rets) - 1 else base.fork()
            s.note('%s: wait %s' % (eng.where(inst), txt))
            eng.invalidate(s)
            self.after_wait(eng, s, args[0], args[1], r, inst)
            outs.append((s, (None, r)))
        return outs

    def before_wait(self, eng, st, h, ms, inst):
        pass

    def after_wait(self, eng, st, h, ms, r, inst):
        pass

    def m_waitmulti(self, eng, st, inst, args, name, cv):
        return [(st, eng.sitesym(st, inst, name))]


class _H(dict):
    """hashable instruction (identity by content of id)"""
    def __hash__(self):
        return hash((self['id'], self.get('_pos')))

    def __eq__(self, o):
        return isinstance(o, _H) and self['id'] == o['id'] and self.get('_pos') == o.get('_pos')


def field(eng, obj, sname, fname):
    off = eng.p.field_off(sname, fname)
    if off is None:
        raise AnalysisBroken('no field %s.%s' % (sname, fname))
    a = eng.addoff(obj, off)
    eng.addrlabel.setdefault(a, (sname, fname))
    return a


def peek(st, addr):
    m = st.mem.get(addr)
    return m[0] if m else None
