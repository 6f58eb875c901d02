"""Q01: what the public headers put into a user's program (macros, classes, initialisers, constants, layouts) does what the library implements.
A user's program (sa/client) is compiled against the headers as a user would, linked with the library's IR, and its calls are explored."""
from .. import build, engine
from ..engine import NULL, INF, STOP, THROW, AnalysisBroken
from ..common import E, K, const, peek
from ..contract import Contract, nm
from .sched import CpuSet

PROPS = ('Q01',)
_cache = {}


def programs():
    key = build.REPO
    if key not in _cache:
        _cache.clear()
        _cache[key] = {fl: build.client(fl) for fl in ('c', 'cxx')}
    return _cache[key]


class Client(Contract):
    PROPS = PROPS

    def models(self):
        m = super().models()
        m['client_body'] = self.m_body
        m['client_caught'] = self.m_caught
        m['*indirect'] = self.m_handler
        for n in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception'):
            m[n] = lambda eng, st, inst, args, name, cv: [(st, None if inst['ty'] == 'void' else eng.sitesym(st, inst, name))]
        m['__cxa_rethrow'] = lambda eng, st, inst, args, name, cv: [(st, THROW)]
        for n in ('terminate', 'std::terminate', '_ZSt9terminatev', '__clang_call_terminate'):
            m[n] = self.m_stop
        return m

    def event(self, st, *e):
        st.mon['ev'] = st.mon['ev'] + (('E',) + e,)

    def setup(self, eng, st, args):
        st.mon.update({'ev': (), 'nodes': (), 'thrown': 0, 'args': ('K',) + tuple(args)})
        for a in args:
            st.facts.setdefault(a[0], (-INF, INF, frozenset()))
        for i in (0, 3):
            if len(args) > i and len(args) > 1 and not isinstance(self, Interval):
                st.facts[args[i][0]] = (-INF, INF, frozenset([0]))       # a handler is a function

    def m_body(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), 'user code'))
        self.event(st, 'body', args[0])
        t = st.fork()
        t.mon['thrown'] = 1
        t.note('%s: the user code is left by cancellation or exit' % eng.where(inst))
        return [(t, THROW), (st, None)]

    def m_caught(self, eng, st, inst, args, name, cv):
        self.event(st, 'caught')
        return [(st, None)]

    def m_handler(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), 'handler'))
        self.event(st, 'run', cv, args[0] if args else None)
        return [(st, None)]

    def on_cleanup_opaque(self, eng, st, routine, arg):
        self.event(st, 'run', routine, arg)

    def m_push_cleanup(self, eng, st, inst, args, name, cv):
        n = args[0]
        self.sites.add((eng.where(inst), 'push'))
        if not (isinstance(n[0], str) and n[0].startswith('a:')):
            return self.rep(eng, st, 'the record of a pushed handler is not the pusher\'s own', inst) or []
        if n in st.mon['nodes']:
            return self.rep(eng, st, 'pushes a handler with the record of one that is still pushed', inst) or []
        st.mon['nodes'] = st.mon['nodes'] + (n,)
        return super().m_push_cleanup(eng, st, inst, args, name, cv)

    def m_pop_cleanup(self, eng, st, inst, args, name, cv):
        if not st.cleanups:
            return self.rep(eng, st, 'pops a handler that was not pushed', inst) or []
        st.mon['nodes'] = st.mon['nodes'][:-1]
        return super().m_pop_cleanup(eng, st, inst, args, name, cv)

    def on_exit(self, eng, st, kind, v, inst):
        if st.cleanups:
            return self.rep(eng, st, 'a handler is still pushed after its block has been left', inst)
        self.judge(eng, st, kind, v, inst)


class Cleanup(Client):
    """push/pop blocks; the expected events are those of the block structure"""
    def judge(self, eng, st, kind, v, inst):
        m = st.mon
        a = m['args'][1:]
        ev = [e[1:] for e in m['ev']]
        B = lambda n: ('body', (None, n))
        R = lambda i: ('run', a[i], a[i + 1])
        if len(a) == 6:
            ops = [('push', 0), B(1), ('push', 3), B(2), ('pop', a[5]), B(3), ('pop', a[2]), B(4)]
        elif len(a) == 3:
            ops = [B(1), ('push', 0), B(2), ('pop', a[2]), B(3)]
        else:
            ops = [('push', 0), B(1), ('pop', (None, 1 if self.case == 'always' else 0))]
        want, stack, left = [], [], m['thrown']
        nb = sum(1 for e in ev if e[0] == 'body')
        for o in ops:
            if o[0] == 'push':
                stack.append(o[1])
            elif o[0] == 'pop':
                i = stack.pop()
                z = eng.decide(st, 'ne', o[1], NULL)
                if z is None:
                    ran = R(i) in ev
                    return self.rep(eng, st, '%s the handler whatever the argument of pop is' % ('runs' if ran else 'does not run'), inst)
                if z:
                    want.append(R(i))
            else:
                want.append(o)
                nb -= 1
                if left and not nb:
                    break
        if left:
            want += [R(i) for i in reversed(stack)]
        if (kind == 'unwind') != bool(left):
            return self.rep(eng, st, 'cancellation or exit does not leave the block' if left else 'the block is left by unwinding', inst)
        if ev != want:
            show = lambda es: ', '.join('handler %s' % eng.show(e[1]) if e[0] == 'run' else 'code %s' % eng.show(e[1]) for e in es) or 'nothing'
            return self.rep(eng, st, 'a clean-up block runs %s, not %s' % (show(ev), show(want)), inst)


class Catch(Client):
    """a handler of the user's around code that is cancelled, exits, or throws something of its own"""
    def __init__(self, case, catches):
        super().__init__(case)
        self.catches = catches

    def exc_type(self, eng, st):
        t = {'int': '_ZTIi', 'other': '_ZTId'}.get(self.case)
        if t is None:
            t = next((g for g in eng.p.globals if g.startswith('_ZTI') and g.endswith('ptw32_exception_' + self.case)), None)
            if t is None:
                raise AnalysisBroken('the type of the exception for %s is not in the program' % self.case)
        return eng.caught_as(st, t)

    def judge(self, eng, st, kind, v, inst):
        n = sum(1 for e in st.mon['ev'] if e[1] == 'caught')
        if not st.mon['thrown']:
            if n or kind != 'return':
                self.rep(eng, st, 'a handler runs although nothing was thrown', inst)
        elif self.case in ('cancel', 'exit'):
            if n or kind != 'unwind':
                self.rep(eng, st, 'a handler of the program swallows the %s of its thread' % ('cancellation' if self.case == 'cancel' else 'exit'), inst)
        elif self.case in self.catches:
            if n != 1 or kind != 'return':
                self.rep(eng, st, 'an exception of the program itself does not reach its handler', inst)
        elif n or kind != 'unwind':
            self.rep(eng, st, 'an exception of the program itself reaches a handler for something else', inst)


class Interval(Client):
    def judge(self, eng, st, kind, v, inst):
        if kind != 'return' or v != (None, -1) or self.errno(st) != (None, E['ENOTSUP']):
            self.rep(eng, st, 'asking for the round-robin interval is not refused as not supported', inst)

    def on_deref(self, eng, st, addr, lab, inst, how):
        a = st.mon['args'][2]
        if addr[0] == a[0]:
            self.rep(eng, st, 'touches the interval it cannot give', inst)
            return STOP


class MacroSet(CpuSet):
    PROPS = PROPS


DISTINCT = [('PTHREAD_CREATE_JOINABLE', 'PTHREAD_CREATE_DETACHED'), ('PTHREAD_INHERIT_SCHED', 'PTHREAD_EXPLICIT_SCHED'), ('PTHREAD_SCOPE_PROCESS', 'PTHREAD_SCOPE_SYSTEM'),
            ('PTHREAD_CANCEL_ENABLE', 'PTHREAD_CANCEL_DISABLE'), ('PTHREAD_CANCEL_ASYNCHRONOUS', 'PTHREAD_CANCEL_DEFERRED'), ('PTHREAD_PROCESS_PRIVATE', 'PTHREAD_PROCESS_SHARED'),
            ('PTHREAD_MUTEX_STALLED', 'PTHREAD_MUTEX_ROBUST'), ('PTHREAD_MUTEX_NORMAL', 'PTHREAD_MUTEX_RECURSIVE', 'PTHREAD_MUTEX_ERRORCHECK'), ('SCHED_OTHER', 'SCHED_FIFO', 'SCHED_RR'),
            ('PTHREAD_MUTEX_INITIALIZER', 'PTHREAD_RECURSIVE_MUTEX_INITIALIZER', 'PTHREAD_ERRORCHECK_MUTEX_INITIALIZER'),
            ('EPERM', 'ESRCH', 'EINTR', 'EAGAIN', 'ENOMEM', 'EBUSY', 'EINVAL', 'ENOSPC', 'ERANGE', 'EDEADLK', 'ENOSYS', 'ENOTSUP', 'EOWNERDEAD', 'ENOTRECOVERABLE', 'ETIMEDOUT', 'ENOENT', 'EACCES', 'EFAULT')]


def facts():
    """(what must be true of the constants, whether it is)"""
    out = []
    for g in DISTINCT:
        vs = [K[n] for n in g]
        out.append(('the alternatives %s are distinct' % ', '.join(g), len(set(vs)) == len(vs)))
    for n in DISTINCT[-1]:
        out.append(('the error number %s is positive' % n, K[n] > 0))
    for n in ('PTHREAD_MUTEX_INITIALIZER', 'PTHREAD_RECURSIVE_MUTEX_INITIALIZER', 'PTHREAD_ERRORCHECK_MUTEX_INITIALIZER', 'PTHREAD_COND_INITIALIZER',
              'PTHREAD_RWLOCK_INITIALIZER', 'PTHREAD_SPINLOCK_INITIALIZER', 'PTHREAD_CANCELED', 'SEM_FAILED'):
        v = K[n] - (1 << 64) if K[n] >= 1 << 63 else K[n]
        out.append(('%s is neither null nor an address an object or a value can have' % n, -4096 < v < 0 or 0 < v < 4096))
    s = K['PTHREAD_BARRIER_SERIAL_THREAD']
    out.append(('the serial thread of a barrier is told something that is neither success nor an error number', s != 0 and s not in [K[n] for n in DISTINCT[-1]]))
    out.append(('the default mutex is one of the kinds there are', K['PTHREAD_MUTEX_DEFAULT'] in (K['PTHREAD_MUTEX_NORMAL'], K['PTHREAD_MUTEX_RECURSIVE'], K['PTHREAD_MUTEX_ERRORCHECK'])))
    for n, lo in (('PTHREAD_DESTRUCTOR_ITERATIONS', 4), ('PTHREAD_KEYS_MAX', 128), ('SEM_VALUE_MAX', 32767), ('_POSIX_SEM_NSEMS_MAX', 256)):
        out.append(('the limit %s is at least %d' % (n, lo), K[n] >= lo))
    out.append(('the largest semaphore value fits an int', K['SEM_VALUE_MAX'] <= K['INT_MAX']))
    return out


def R(msg, where, fl, fn='(public headers)'):
    return {'prop': PROPS, 'msg': msg, 'where': where, 'function': fn, 'entry': 'public headers', 'case': '', 'flavour': fl, 'path': []}


def headers(P, tier):
    reps, stats = [], []
    n = 0
    for what, ok in facts():
        n += 1
        if not ok:
            reps.append(R('it is not so that ' + what, 'pthread.h', 'c'))
    for fl, (alone, linked) in programs().items():
        for k, d in alone.structs.items():
            n += 1
            lib = P[fl].structs.get(k)
            if lib is not None and (lib['size'], [f[1:3] for f in lib['fields']]) != (d['size'], [f[1:3] for f in d['fields']]):
                reps.append(R('the program and the library disagree about the layout of %s' % k.split('.', 1)[-1], 'pthread.h', fl))
        g = alone.globals.get('client_once') or {}
        n += 1
        off = [c for c in g.get('cells', ()) if c[2][0] not in ('z', 'n') and c[2][:2] != ['c', 0]]
        if off or not g.get('cells'):
            reps.append(R('a once-control with the static initialiser is not one that was never run and has no queue', 'pthread.h', fl))
        size = (alone.struct('cpu_set_t') or {}).get('size') or (alone.globals.get('client_set') or {}).get('size')
        n += 1
        if not size or K['CPU_SETSIZE'] > 8 * size or K['CPU_SETSIZE'] < 32:
            reps.append(R('the number of processors a set has room for does not match the set', 'sched.h', fl))
        stats.append({'entry': 'public headers', 'library': fl, 'functions': [], 'obligations': n})
    return reps, stats


def calls(P, tier):
    reps, stats = [], []
    for fl, (alone, p) in programs().items():
        L = [('client_cleanup', lambda: Cleanup('')), ('client_nested', lambda: Cleanup('')), ('client_never', lambda: Cleanup('never')), ('client_always', lambda: Cleanup('always')),
             ('client_rr', lambda: Interval(''))]
        L += [('client_cpu_' + o, lambda o=o: MacroSet(o)) for o in ('count', 'zero', 'set', 'clr', 'isset', 'and', 'or', 'xor', 'equal')]
        if fl == 'cxx':
            L += [('client_' + f, lambda c=c, k=k: Catch(c, k)) for f, k in (('catchall', ('int', 'other')), ('catchint', ('int',)), ('catchboth', ('int', 'other')))
                  for c in ('cancel', 'exit', 'int', 'other')]
        for f, make in L:
            an = make()
            an.tier = tier
            en = engine.Engine(p, an)
            en.start(f)
            en.explore()
            if not an.reports and not en.exits:
                an.reports.append(R('%s never comes back' % f, 'pthread.h', fl, f))
            reps += an.reports
            stats.append({'entry': f, 'case': an.case, 'library': fl, 'functions': sorted(en.fns_seen), 'path_states': en.nstates, 'instructions': en.ninst,
                          'exits': en.exits, 'branches': len(en.branches), 'rule_sites': ['%s %s' % s for s in sorted(an.sites)]})
    return reps, stats


def defined(P, tier):
    """every function the public headers declare is in both libraries"""
    reps, stats = [], []
    d = build.declared()
    for fl in P:
        for n, (f, l) in sorted(d.items()):
            if not P[fl].fn(n):
                reps.append(R('the headers declare %s, which the library does not have' % n, '%s:%s' % (f, l), fl, n))
        stats.append({'entry': 'declared functions', 'library': fl, 'functions': sorted(d), 'obligations': len(d)})
    if len(d) < 50:
        raise AnalysisBroken('only %d functions are declared by the public headers' % len(d))
    return reps, stats


ASSUME = ('the user\'s program is compiled with the default clean-up mode of its language',)
JOBS = [{'kind': 'fn', 'props': PROPS, 'name': 'constants, initialisers and layouts', 'run': headers, 'assumes': ASSUME},
        {'kind': 'fn', 'props': PROPS, 'name': 'declared functions', 'run': defined},
        {'kind': 'fn', 'props': PROPS, 'name': 'macros in a program', 'run': calls, 'assumes': ASSUME}]
