"""Thread names (N01) and calls that take a thread handle (H01)."""
from ..engine import NULL, INF, THROW, STOP, AnalysisBroken
from ..common import E, K, const, field, peek
from ..contract import Contract, nm
from .cancel import Thr, TH, ASSUME
from .attr import ATTR
from ..engine import wrap

BAD = (0, -1, -2, -3)
VALIDATION = ('ptHandle', 'threadH', 'p', 'x')


class Handle(Thr):
    """a call that takes a thread handle.  case 'ok', or 'null' / 'stale' / 'gone' (no Windows handle): refused with ESRCH, nothing touched"""
    PROPS = ('H01',)
    nostate = True          # the thread's record is not changed by anybody else while it is looked at
    argi = 0

    def setup(self, eng, st, args):
        m = st.mon
        c = self.hcase = self.case.split('/')[0]
        p = NULL if c == 'null' else self.ptr(eng, st, 'thread.p')
        x = self.sym(eng, st, 'thread.x')
        self.set_arg(eng, st, args[self.argi], p, x)
        m.update({'p': p, 'x': x, 'chk': 0, 'acts': (), 'gone': ()})
        self.h = self.sym(eng, st, 'threadH', ex=(0, -1))
        self.good = c == 'ok'
        if p != NULL:
            self.fields(eng, p)
            other = self.sym(eng, st, 'other x')
            m['hx'] = x if c != 'stale' else other
            m['hh'] = NULL if c == 'gone' else self.h
            if c == 'stale':
                st.rel = st.rel | {('ne', x, other), ('ne', other, x)}
        m['keep'] = ('K', p, x, self.h, m.get('hx', NULL))
        return self.more(eng, st, args)

    def more(self, eng, st, args):
        pass

    def set_arg(self, eng, st, a, p, x):
        super().set_arg(eng, st, a, p, x)

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def load_forks(self, eng, st, addr, lab, inst):
        m = st.mon
        if m['p'] == NULL:
            return None
        if addr == self.HX:
            self.sites.add((eng.where(inst), 'handle check'))
            if not self.rlock(st):
                return self.R(eng, st, 'checks the thread handle without holding the lock of the thread records', inst)
            m['chk'] = 1
            return [(st, m['hx'])]
        if addr == self.HP:
            return [(st, m['p'])]
        if addr == self.F['threadH']:
            return [(st, m['hh'])]
        return None

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        m = st.mon
        if m['p'] != NULL and addr[0] == m['p'][0] and (how != 'load' or addr not in (self.HX, self.HP, self.F['threadH'])):
            if not self.good or not m['chk']:
                self.rep(eng, st, '%s of the thread record although the handle is not known to be valid' % how, inst, ('H01',) + tuple(self.PROPS))
                return STOP
        if how == 'store' and not (isinstance(addr[0], str) and addr[0].startswith('a:')) and addr[0] != 'g:errno' and not self.good:
            self.rep(eng, st, 'stores a result although the handle is not valid', inst, ('H01',) + tuple(self.PROPS))
            return STOP
        return None

    def on_memcpy(self, eng, st, dst, src, n, inst):
        for a, how in ((src, 'load'), (dst, 'store')):
            if self.on_deref(eng, st, a, eng.label(a), inst, how) is STOP:
                return

    def on_acquire(self, eng, st, lock, node, inst):
        m = st.mon
        if m['p'] != NULL and lock[0] == m['p'][0] and (not self.good or not m['chk']):
            self.rep(eng, st, 'locks the thread record although the handle is not known to be valid', inst, ('H01',) + tuple(self.PROPS))

    def act(self, eng, st, what, inst):
        self.sites.add((eng.where(inst), what))
        if not self.good or not st.mon['chk']:
            self.rep(eng, st, '%s although the handle is not known to be valid' % what, inst, ('H01',) + tuple(self.PROPS))
            return False
        return True

    def m_suspend(self, eng, st, inst, args, name, cv):
        return self.R(eng, st, name, inst)

    m_terminate = m_suspend

    def on_exit(self, eng, st, kind, v, inst):
        if self.mcs(st):
            return self.rep(eng, st, 'leaves with an internal lock held', inst)
        if kind != 'return' or not const(v):
            return self.rep(eng, st, 'does not return a definite result', inst)
        left = sorted({r[1] for r in self.live(st)})
        if not self.good:
            if self.refused(eng, st, v) and v[1] != E['ESRCH']:
                return self.rep(eng, st, 'returns %s for a handle that is not valid' % nm(v), inst, ('H01',) + tuple(self.PROPS))
            if left:
                return self.rep(eng, st, 'leaks %s' % ', '.join(left), inst)
            return
        if not st.mon['chk'] and self.needs_check(eng, st, v):
            return self.rep(eng, st, 'does not check the handle', inst, ('H01',) + tuple(self.PROPS))
        return self.verdict(eng, st, v, inst)

    def refused(self, eng, st, v):
        """must the answer be no-such-thread here?  (not when another argument is wrong as well)"""
        return True

    def needs_check(self, eng, st, v):
        return v[1] == 0


# ---------------------------------------------------------------- strings of known length and unknown content
class Strings:
    nowiden = True
    bytewise = True

    def string(self, eng, st, base, n, tag):
        cs = []
        for i in range(n):
            c = self.sym(eng, st, '%s[%d]' % (tag, i), -128, 127, (0,))
            st.mem[eng.addoff(base, i)] = (c, 1)
            cs.append(c)
        st.mem[eng.addoff(base, n)] = (NULL, 1)
        return tuple(cs)

    def str_models(self, m):
        m['strlen'] = self.m_strlen
        m['strcpy'] = self.m_strcpy
        m['memcpy'] = m['memmove'] = self.m_memcpy
        m['strncpy'] = self.m_strncpy
        m['strcat'] = m['strncat'] = self.m_strcat
        m['strnlen'] = self.m_strnlen
        m['snprintf'] = m['_snprintf'] = m['sprintf'] = self.m_printf
        m['strdup'] = m['_strdup'] = self.m_strdup
        return m

    def read(self, eng, st, a, inst):
        """the characters of the string at a, up to and including its end; None after a report"""
        out = []
        for i in range(4096):
            x = eng.addoff(a, i)
            if eng.overrun(st, x, inst, 'load') or self.on_deref(eng, st, x, eng.label(x), inst, 'load') is STOP:
                return None
            v = peek(st, x)
            if v is None and isinstance(x[0], str) and x[0].startswith('g:'):
                v = eng.load(st, x, 1, inst)
            if v is None:
                self.rep(eng, st, 'reads beyond the end of a string', inst)
                return None
            out.append(v)
            if v == NULL:
                return out
            if not isinstance(v[0], int) and not const(v):
                return None
        return None

    def write(self, eng, st, a, vs, inst):
        for i, v in enumerate(vs):
            x = eng.addoff(a, i)
            if eng.overrun(st, x, inst, 'store') or self.on_deref(eng, st, x, eng.label(x), inst, 'store') is STOP:
                return False
            eng.store(st, x, v, 1)
        return True

    def m_strlen(self, eng, st, inst, args, name, cv):
        s = self.read(eng, st, args[0], inst)
        return [] if s is None else [(st, (None, len(s) - 1))]

    def m_strnlen(self, eng, st, inst, args, name, cv):
        if not const(args[1]):
            raise AnalysisBroken('copy of unknown length')
        n = args[1][1] & ((1 << 64) - 1)
        for i in range(min(n, 4096)):
            x = eng.addoff(args[0], i)
            if eng.overrun(st, x, inst, 'load') or self.on_deref(eng, st, x, eng.label(x), inst, 'load') is STOP:
                return []
            v = eng.load(st, x, 1, inst)
            if v == NULL:
                return [(st, (None, i))]
        return [(st, (None, n))]

    def m_printf(self, eng, st, inst, args, name, cv):
        lim = None
        if name != 'sprintf':
            if not const(args[1]):
                raise AnalysisBroken('copy of unknown length')
            lim = args[1][1] & ((1 << 64) - 1)
        k = 1 if lim is None else 2
        f = self.read(eng, st, args[k], inst)
        if f is None:
            return []
        if not all(const(c) for c in f):
            return self.rep(eng, st, 'takes a name for a format', inst) or []
        f = ''.join(chr(c[1] & 255) for c in f[:-1])
        if f != '%s':
            if '%' in f:
                raise AnalysisBroken('the format %r is not understood' % f)
            s = [(None, ord(c)) for c in f] + [NULL]
        else:
            s = self.read(eng, st, args[k + 1], inst)
            if s is None:
                return []
        n = len(s) - 1
        if lim is not None and n >= lim:
            # the C library terminates what it cuts off, Windows' own function does not
            s = s[:lim] if name == '_snprintf' else s[:lim - 1] + [NULL] if lim else []
        return [(st, (None, n))] if self.write(eng, st, args[0], s, inst) else []

    def m_strcpy(self, eng, st, inst, args, name, cv):
        s = self.read(eng, st, args[1], inst)
        return [(st, args[0])] if s is not None and self.write(eng, st, args[0], s, inst) else []

    def m_strcat(self, eng, st, inst, args, name, cv):
        d, s = self.read(eng, st, args[0], inst), self.read(eng, st, args[1], inst)
        if d is None or s is None:
            return []
        if len(args) > 2:
            if not const(args[2]):
                raise AnalysisBroken('copy of unknown length')
            n = args[2][1] & ((1 << 64) - 1)
            if len(s) - 1 > n:
                s = s[:n] + [NULL]
        return [(st, args[0])] if self.write(eng, st, eng.addoff(args[0], len(d) - 1), s, inst) else []

    def m_strncpy(self, eng, st, inst, args, name, cv):
        if not const(args[2]):
            raise AnalysisBroken('copy of unknown length')
        s, n = self.read(eng, st, args[1], inst), args[2][1]
        if s is None:
            return []
        s = s[:n] if len(s) >= n else s + [NULL] * (n - len(s))
        return [(st, args[0])] if self.write(eng, st, args[0], s, inst) else []

    def m_memcpy(self, eng, st, inst, args, name, cv):
        self.on_memcpy(eng, st, args[0], args[1], args[2][1] if const(args[2]) else None, inst)
        if st.mon.get('!stop'):
            return []
        eng.memcpy(st, args[0], args[1], args[2][1], inst)
        return [(st, args[0])]

    def on_memcpy(self, eng, st, dst, src, n, inst):
        if isinstance(dst[0], str) and dst[0].startswith('a:') and isinstance(src[0], str) and src[0].startswith('a:'):
            return
        if n is None:
            raise AnalysisBroken('copy of unknown length')
        for i in range(n):
            for a, how in ((eng.addoff(src, i), 'load'), (eng.addoff(dst, i), 'store')):
                if self.on_deref(eng, st, a, eng.label(a), inst, how) is STOP:
                    return

    def m_strdup(self, eng, st, inst, args, name, cv):
        s = self.read(eng, st, args[0], inst)
        if s is None:
            return []
        outs = []
        for t, v in self.m_malloc(eng, st, inst, [(None, len(s))], name, cv):
            if v != NULL:
                for i, c in enumerate(s):
                    t.mem[eng.addoff(v, i)] = (c, 1)
            outs.append((t, v))
        return outs

    def on_alloc(self, eng, st, v, inst, args):
        super().on_alloc(eng, st, v, inst, args)
        if v != NULL:
            if not all(const(a) for a in args):
                raise AnalysisBroken('allocation of unknown size')
            n = args[0][1] * (args[1][1] if len(args) > 1 else 1)
            st.mon['sizes'] = st.mon.get('sizes', ()) + (('Z', v, (None, n)),)
            if len(args) > 1 and 0 <= n <= 4096:
                for i in range(n):
                    st.mem[eng.addoff(v, i)] = (NULL, 1)

    def bound(self, st, addr):
        for _, v, n in st.mon.get('sizes', ()):
            if addr[0] == v[0]:
                return n[1]
        return None

    def in_bounds(self, eng, st, addr, inst, how):
        b = self.bound(st, addr)
        if b is not None and not (addr[1] is not None and 0 <= addr[1] < b):
            self.rep(eng, st, '%s beyond the end of the memory allocated for a name' % how, inst)
            return False
        return True

    def same(self, eng, st, a, cs):
        """does memory at a hold exactly the characters cs and their end?"""
        return all(peek(st, eng.addoff(a, i)) == c for i, c in enumerate(cs)) and peek(st, eng.addoff(a, len(cs))) == NULL


def lengths(tier):
    return tuple(range(41)) if tier == 'thorough' else (0, 1, 2, 3, 14, 15, 16, 17, 31, 40)


class SetName(Strings, Handle):
    PROPS = ('N01',)

    def models(self):
        return self.str_models(super().models())

    def more(self, eng, st, args):
        q = args[1]
        st.facts[q[0]] = (65536, INF, frozenset())
        outs = []
        for n in lengths(self.tier) if self.good else (2,):
            for old in (0, 1):
                s = st.fork()
                cs = self.string(eng, s, q, n, 'name')
                o = self.ptr(eng, s, 'old name') if old else NULL
                if self.good:
                    s.mem[self.slot(eng, s)] = (o, 8)
                s.mon.update({'q': q, 'cs': ('K',) + cs, 'old': o, 'freed': 0, 'stored': 0})
                s.mon['keep2'] = ('K', q, o)
                outs.append(s)
        return outs

    def slot(self, eng, st):
        return field(eng, st.mon['p'], TH, 'name')

    def guarded(self, eng, st):
        return self.held(st, self.F['threadLock'])

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        m = st.mon
        if self.good and addr == self.slot(eng, st):
            self.sites.add((eng.where(inst), 'name %s' % how))
            if not self.guarded(eng, st):
                self.rep(eng, st, '%s of the name without holding the lock that guards it' % how, inst)
                return STOP
        if how != 'load' and addr[0] == m['q'][0]:
            self.rep(eng, st, 'writes into the name it was given', inst)
            return STOP
        if not self.in_bounds(eng, st, addr, inst, how):
            return STOP

    def on_store(self, eng, st, addr, lab, v, inst):
        if self.good and addr == self.slot(eng, st):
            st.mon['stored'] = 1

    def on_free(self, eng, st, v, inst):
        m = st.mon
        if v == NULL:
            return
        if any(r[2] == v for r in self.live(st)):
            if self.good and peek(st, self.slot(eng, st)) == v:
                return self.rep(eng, st, 'frees the name it has stored', inst)
            self.drop(st, v)
            return self.scrub(eng, st, v)
        if not self.good or v != m['old'] or m['freed']:
            return self.rep(eng, st, 'frees something it must not (or frees it twice)', inst)
        if not m['stored'] and not self.guarded(eng, st):
            return self.rep(eng, st, 'frees the old name while it can still be seen', inst)
        m['freed'] = 1
        self.scrub(eng, st, v)

    def on_acquired(self, eng, st, lock, inst):
        m = st.mon
        if self.good and lock == self.F.get('threadLock') and not m['stored']:
            if m.get('locked'):         # somebody else may have changed the name in between
                o = self.ptr(eng, st, 'newer name')
                st.mem[self.slot(eng, st)] = (o, 8)
                m['old'] = o
            m['locked'] = 1

    def on_released(self, eng, st, lock, inst):
        m = st.mon
        if self.good and lock == self.F['threadLock'] and m['freed'] and peek(st, self.slot(eng, st)) in m['gone']:
            self.rep(eng, st, 'leaves a freed name in place', inst)

    def judge(self, eng, st, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        now = peek(st, self.slot(eng, st))
        if v[1] == 0:
            if m['old'] != NULL and not m['freed']:
                return R('does not release the old name')
            if now in (NULL, None, m['old']) or self.drop(st, now) != 'mem':
                return R('reports success without storing a copy of the name')
            if not self.same(eng, st, now, m['cs'][1:]):
                return R('the stored name differs from the one given')
            if self.live(st):
                return R('leaks memory')
            return
        if not self.failed_any(st, 'mem') or v[1] != E['ENOMEM']:
            return R('returns %s%s' % (nm(v), '' if self.failed_any(st, 'mem') else ' although nothing failed'))
        if now != m['old'] or m['freed']:
            return R('fails and loses the old name')
        if self.live(st):
            return R('leaks memory')

    def verdict(self, eng, st, v, inst):
        return self.judge(eng, st, v, inst)


class GetName(Strings, Handle):
    PROPS = ('N01',)
    exact_cast = True

    def on_cast(self, eng, st, op, sb, db, v, inst):
        return v

    def models(self):
        return self.str_models(super().models())

    def slot(self, eng, st):
        return field(eng, st.mon['p'], TH, 'name')

    def guarded(self, eng, st):
        return self.held(st, self.F['threadLock'])

    def more(self, eng, st, args):
        q, ln = args[1], args[2]
        st.facts[q[0]] = (65536, INF, frozenset())
        outs = []
        if isinstance(self, AttrName):
            s = st.fork()
            eng.substitute(s, q[0], NULL)
            s.mon.update({'q': q, 'len': NULL, 'cs': ('K',), 'name': NULL})
            outs.append(s)
        s = st.fork()
        s.facts[ln[0]] = (-2**31, 0, frozenset())
        s.mon.update({'q': q, 'len': NULL, 'cs': ('K',), 'name': NULL})
        outs.append(s)
        if not self.good:
            s = st.fork()
            s.facts[ln[0]] = (1, 2**31 - 1, frozenset())
            s.mon.update({'q': q, 'len': (None, 1), 'cs': ('K',), 'name': NULL})
            return outs + [s]
        ls = [x for x in lengths(self.tier) if x]
        for l in ls:
            for n in [None] + sorted({0, 1, 2, l - 2, l - 1, l, l + 1, 15, 16, 60} if self.tier != 'thorough' else set(range(l + 3)) | {60}):
                if n is not None and n < 0:
                    continue
                s = st.fork()
                eng.substitute(s, ln[0], (None, l))
                N = NULL if n is None else self.sym(eng, s, 'stored name', 65536)
                cs = self.string(eng, s, N, n, 'name') if n else ()
                if n == 0:
                    s.mem[N] = (NULL, 1)
                s.mem[self.slot(eng, s)] = (N, 8)
                s.mon.update({'q': q, 'len': (None, l), 'cs': ('K',) + cs, 'name': N})
                s.mon['keep2'] = ('K', N)
                outs.append(s)
        return outs

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is STOP:
            return r
        m = st.mon
        if addr[0] == m['q'][0]:
            self.sites.add((eng.where(inst), 'buffer'))
            if addr[1] is None or not 0 <= addr[1] < m['len'][1]:
                self.rep(eng, st, '%s outside the buffer' % how, inst)
                return STOP
        if not self.good:
            return
        if addr == self.slot(eng, st) or m['name'] != NULL and addr[0] == m['name'][0]:
            self.sites.add((eng.where(inst), 'name'))
            if how != 'load':
                self.rep(eng, st, 'changes the name', inst)
                return STOP
            if not self.guarded(eng, st):
                self.rep(eng, st, 'reads the name without holding the lock that guards it', inst)
                return STOP
            if m['name'] != NULL and addr[0] == m['name'][0] and not 0 <= addr[1] <= len(m['cs']) - 1:
                self.rep(eng, st, 'reads beyond the end of the name', inst)
                return STOP

    def refused(self, eng, st, v):
        return st.mon['len'] != NULL or v[1] == 0

    def judge(self, eng, st, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        l = m['len'][1]
        if l == 0:
            if v[1] != E['EINVAL']:
                return R('a buffer of no length is not refused')
            return
        if v[1] != 0:
            return R('returns %s for a valid thread' % nm(v))
        if not self.same(eng, st, m['q'], m['cs'][1:l]):
            return R('does not give as much of the name as fits, terminated')

    def verdict(self, eng, st, v, inst):
        return self.judge(eng, st, v, inst)


class AttrName:
    """the name in an attributes object (mixed with SetName / GetName)"""
    def setup(self, eng, st, args):
        m = st.mon
        self.hcase = c = self.case
        self.good = c == 'ok'
        self.A = args[0]
        m.update({'chk': 1, 'acts': (), 'gone': (), 'x': NULL})
        self.P = self.ptr(eng, st, 'object')
        m['p'] = self.P
        m['keep'] = ('K', self.A, self.P)
        if c == 'null':
            eng.substitute(st, self.A[0], NULL)
        else:
            st.facts[self.A[0]] = (-INF, INF, frozenset(BAD))
            st.mem[self.A] = (NULL if c == 'unset' else self.P, 8)
        magic = wrap(K['PTW32_ATTR_VALID'], 32)
        if c == 'ok':
            st.mem[field(eng, self.P, ATTR, 'valid')] = ((None, magic), 4)
        elif c == 'invalid':
            st.mem[field(eng, self.P, ATTR, 'valid')] = (self.sym(eng, st, 'valid', ex=(magic,)), 4)
        self.HX = self.HP = None
        self.F = {'threadH': None, 'threadLock': None}
        return self.more(eng, st, args)

    def load_forks(self, eng, st, addr, lab, inst):
        return None

    def slot(self, eng, st):
        return field(eng, self.P, ATTR, 'thrname')

    def guarded(self, eng, st):
        return True

    def on_acquire(self, eng, st, lock, node, inst):
        pass

    def on_deref(self, eng, st, addr, lab, inst, how):
        if not self.good and self.case != 'null' and addr == self.A and how == 'load':
            return
        if self.case == 'invalid' and addr == field(eng, self.P, ATTR, 'valid') and how == 'load':
            return
        if not self.good and isinstance(addr[0], int) and addr[0] == self.P[0]:
            self.rep(eng, st, '%s of something that is not an attributes object' % how, inst)
            return STOP
        return super().on_deref(eng, st, addr, lab, inst, how)

    def on_exit(self, eng, st, kind, v, inst):
        if kind != 'return' or not const(v):
            return self.rep(eng, st, 'does not return a definite result', inst)
        if not self.good:
            if v[1] != E['EINVAL']:
                return self.rep(eng, st, 'returns %s for something that is not an attributes object' % nm(v), inst)
            if self.live(st):
                return self.rep(eng, st, 'leaks memory', inst)
            return
        return self.judge(eng, st, v, inst)


class AttrSetName(AttrName, SetName):
    pass


class AttrGetName(AttrName, GetName):
    pass


JOBS = []


def job(props, entry, case, make, n=1, assumes=ASSUME):
    JOBS.append({'kind': 'engine', 'props': props, 'entry': entry, 'case': case, 'min_sites': n, 'assumes': assumes, 'make': make})


for _c in ('ok', 'stale', 'null', 'gone'):
    for _e, _k in (('pthread_setname_np', SetName), ('pthread_getname_np', GetName)):
        job(('N01', 'H01'), _e, _c, (lambda c=_c, k=_k: k(c)), 0 if _c == 'null' else 1)
for _c in ('ok', 'unset', 'null', 'invalid'):
    for _e, _k in (('pthread_attr_setname_np', AttrSetName), ('pthread_attr_getname_np', AttrGetName)):
        job(('N01', 'A01'), _e, _c, (lambda c=_c, k=_k: k(c)), 1 if _c == 'ok' else 0, ('the caller does not use one attributes object from two threads at a time',))
