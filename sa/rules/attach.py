"""Attaching to and detaching from the process (property X01)."""
from ..engine import NULL, INF, STOP, AnalysisBroken
from ..contract import Contract, nm
from ..common import E, K, const, field, peek
from .names import Strings

ASSUME = ('the system calls GetSystemDirectory, LoadLibrary, GetProcAddress and FreeLibrary do what Windows documents',
          'the library is attached for the first time, or again with no driver loaded')
REG, FEAT = ('g:ptw32_register_cancellation', 0), ('g:ptw32_features', 0)
OWN = 'ptw32_RegisterCancellation'
LENGTHS = (1, 3, 19, 1009, 1010, 1011, 1012, 1022, 1023)


def lib_cell(eng):
    for k, g in eng.p.globals.items():
        if g.get('name') == 'ptw32_h_quserex':
            return ('g:' + k, 0)
    raise AnalysisBroken('no variable ptw32_h_quserex')


class Driver(Strings, Contract):
    PROPS = ('X01',)

    def models(self):
        m = super().models()
        self.str_models(m)
        m['ptw32_processInitialize'] = self.m_pinit
        for n in ('GetSystemDirectoryA', 'GetSystemDirectoryW'):
            m[n] = self.m_sysdir
        for n in ('LoadLibraryA', 'LoadLibraryExA', 'LoadLibraryW'):
            m[n] = self.m_load
        m['GetProcAddress'] = self.m_proc
        m['FreeLibrary'] = self.m_freelib
        m['*indirect'] = self.m_entry
        m['pthread_getspecific'] = lambda eng, st, inst, args, name, cv: [(st, NULL)]
        m['ptw32_processTerminate'] = self.m_pterm
        m['pthread_win32_process_attach_np'] = m['pthread_win32_thread_detach_np'] = m['pthread_win32_process_detach_np'] = None
        return {k: v for k, v in m.items() if v is not None}

    def stable(self, eng, st, addr, lab):
        return True

    private = stable

    def R(self, eng, st, msg, inst):
        self.rep(eng, st, msg, inst)
        return []

    def m_pinit(self, eng, st, inst, args, name, cv):
        outs = []
        for v in (0, 1):
            t = st.fork()
            t.mon['init'] = ('I', v)
            outs.append((t, (None, v)))
        return outs

    def m_pterm(self, eng, st, inst, args, name, cv):
        st.mon['term'] = 1
        return [(st, None)]

    def m_sysdir(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if not const(args[1]) or not eng.extent(st, args[0][0]) or name.endswith('W'):
            raise AnalysisBroken('the buffer of GetSystemDirectory is not understood')
        room, have = args[1][1], eng.extent(st, args[0][0])[1] - args[0][1]
        if room > have:
            return self.R(eng, st, 'asks for a path of up to %d characters in a buffer of %d' % (room, have), inst)
        outs = []
        t = st.fork()
        t.mon['dir'] = 'none'
        t.note('%s: the system directory is not known' % eng.where(inst))
        outs.append((t, NULL))
        ns = list(range(1, room, 16)) + list(range(room - 32, room)) if self.tier == 'thorough' else [n for n in LENGTHS + tuple(room - d for d in range(1, 16)) if 0 < n < room]
        for n in sorted(set(ns)):
            t = st.fork()
            for i in range(n):
                t.mem[eng.addoff(args[0], i)] = ((None, 97), 1)
            t.mem[eng.addoff(args[0], n)] = (NULL, 1)
            t.mon['dir'] = ('N', n)
            t.note('%s: the path of the system directory has %d characters' % (eng.where(inst), n))
            outs.append((t, (None, n)))
        for n in (room, room + 1):
            t = st.fork()
            t.mon['dir'] = 'long'
            t.note('%s: the path does not fit, it would need %d characters' % (eng.where(inst), n))
            outs.append((t, (None, n)))
        return outs

    def m_load(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), name))
        s = self.read(eng, st, args[0], inst)
        if s is None:
            return []
        d = m.get('dir')
        s = [c[1] for c in s[:-1]]
        if not isinstance(d, tuple) or s[:d[1]] != [97] * d[1] or s[d[1]:d[1] + 1] not in ([92], []) or 92 in s[d[1] + 1:] or 47 in s:
            return self.R(eng, st, 'loads a driver that is not (known to be) a file of the system directory', inst)
        if len(s) == d[1] and d[1] <= 64:
            return self.R(eng, st, 'looks for the driver under the name of the directory alone', inst)
        m['tried'] = 1
        t = st.fork()
        t.note('%s: the driver is not there' % eng.where(inst))
        v = self.heap(eng, st, inst, 'lib')
        self.own(st, 'lib', v)
        st.note('%s: the driver is loaded' % eng.where(inst))
        return [(t, NULL), (st, v)]

    def loaded(self, st, v):
        return any(r[1] == 'lib' and r[2] == v for r in self.live(st))

    def m_proc(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if not self.loaded(st, args[0]):
            return self.R(eng, st, 'asks something that is not loaded for its entry points', inst)
        s = self.read(eng, st, args[1], inst)
        if s is None:
            return []
        what = ''.join(chr(c[1]) for c in s[:-1])
        t = st.fork()
        if what.endswith('Fini'):
            t.mon['nofini'] = 1
        if what.endswith('Init'):
            t.mon['noinit'] = 1
        t.note('%s: the driver has no %s' % (eng.where(inst), what))
        v = eng.sitesym(st, inst, what)
        st.facts[v[0]] = (65536, INF, frozenset())
        st.mon['procs'] = st.mon.get('procs', ()) + (('E', v, args[0], ('S', what)),)
        return [(t, NULL), (st, v)]

    def m_entry(self, eng, st, inst, args, name, cv):
        m = st.mon
        self.sites.add((eng.where(inst), 'driver'))
        for _, v, lib, (_, what) in m.get('procs', ()):
            if v == cv:
                if not self.loaded(st, lib):
                    return self.R(eng, st, 'calls a driver that is not loaded any more', inst)
                if what.endswith('Init'):
                    m['asked'] = 1
                    t = st.fork()
                    t.note('%s: the driver is not ready' % eng.where(inst))
                    m['ready'] = ('R', lib)
                    return [(t, NULL), (st, (None, 1))]
                if what.endswith('Fini'):
                    if m.get('fini'):
                        return self.R(eng, st, 'ends the driver twice', inst)
                    m['fini'] = 1
                return [(st, (None, 1))]
        return self.R(eng, st, 'calls a driver that may not be there (%s)' % eng.show(cv), inst)

    def m_freelib(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        if self.drop(st, args[0]) != 'lib':
            return self.R(eng, st, 'unloads something that is not loaded', inst)
        return [(st, (None, 1))]


class Attach(Driver):
    """case: first, again"""

    def setup(self, eng, st, args):
        own = [f.key for f in eng.p.fns.values() if f.name == OWN]
        if not own:
            raise AnalysisBroken('no function ' + OWN)
        self.own_f = ('f:' + own[0], 0)
        st.mem[REG] = (NULL if self.case == 'first' else self.own_f, 8)
        st.mem[lib_cell(eng)] = (NULL, 8)
        v = self.sym(eng, st, 'features before')
        st.mem[FEAT] = (NULL if self.case == 'first' else v, 4)

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if not m.get('init'):
            return R('the process-wide data is not made')
        if not const(v) or bool(v[1]) != bool(m['init'][1]):
            return R('does not tell whether the process-wide data could be made')
        reg, libs, feat = peek(st, REG), [r[2] for r in self.live(st)], peek(st, FEAT)
        if reg == NULL or reg is None:
            return R('there is no mechanism for asynchronous cancellation (a cancel would call a null pointer)')
        A = K['PTW32_ALERTABLE_ASYNC_CANCEL']
        if reg == self.own_f:
            if libs:
                return R('a driver that is not used is left loaded')
            if m.get('ready'):
                return R('a driver that is ready is not used')
            if any(e[3][1].endswith('APCEx') for e in m.get('procs', ())) and not m.get('noinit') and not m.get('asked'):
                return R('a driver that is there is not asked whether it is ready')
            if isinstance(m.get('dir'), tuple) and m['dir'][1] < 1000 and not m.get('tried'):
                return R('the driver is not looked for')
            if peek(st, lib_cell(eng)) != NULL:
                return R('refers to a driver that is not loaded')
        else:
            p = [e for e in m.get('procs', ()) if e[1] == reg]
            if not p or not p[0][3][1].endswith('QueueUserAPCEx'):
                return R('the mechanism for asynchronous cancellation is %s' % eng.show(reg))
            if libs != [p[0][2]] or peek(st, lib_cell(eng)) != p[0][2]:
                return R('uses a driver that is not loaded (or cannot be unloaded again)')
            if m.get('ready') != ('R', p[0][2]):
                return R('uses a driver that did not say it is ready')
        if not const(feat) or feat[1] & ~A or bool(feat[1] & A) != (reg != self.own_f):
            return R('the features reported are not those there are')


class Detach(Driver):
    """case: driver, none, and the calling thread's record: detached, joinable"""

    def models(self):
        m = super().models()
        m['pthread_getspecific'] = self.m_getspec
        m['ptw32_threadDestroy'] = self.m_destroy
        m['TlsSetValue'] = self.m_tls
        return m

    def m_getspec(self, eng, st, inst, args, name, cv):
        if args[0] != self.key:
            raise AnalysisBroken('%s of an unknown key' % name)
        if st.mon.get('term'):
            return self.R(eng, st, 'uses a key after the process-wide data was released', inst)
        return [(st, self.rec if self.case in ('detached', 'joinable') else NULL)]

    def m_destroy(self, eng, st, inst, args, name, cv):
        m = st.mon
        if self.case != 'detached':
            return self.R(eng, st, 'destroys the record of a thread that may still be joined', inst)
        if m.get('recgone'):
            return self.R(eng, st, 'destroys the calling thread\'s record twice', inst)
        if m.get('term'):
            return self.R(eng, st, 'gives the calling thread\'s record back after the pool of records was emptied: it is never released', inst)
        m['recgone'] = 1
        return [(st, None)]

    def m_tls(self, eng, st, inst, args, name, cv):
        if st.mon.get('term'):
            return self.R(eng, st, 'uses a key after the process-wide data was released', inst)
        if args[1] != NULL:
            return self.R(eng, st, 'a detaching thread is given a record', inst)
        return [(st, (None, 1))]

    def on_deref(self, eng, st, addr, lab, inst, how):
        r = super().on_deref(eng, st, addr, lab, inst, how)
        if r is not STOP and hasattr(self, 'rec') and addr[0] == self.rec[0] and st.mon.get('recgone'):
            self.R(eng, st, '%s of the calling thread\'s record after it was given back' % how, inst)
            return STOP
        return r

    def setup(self, eng, st, args):
        self.rec, self.key = self.ptr(eng, st, 'record'), self.ptr(eng, st, 'key')
        st.mem[('g:ptw32_selfThreadKey', 0)] = (self.key, 8)
        st.mem[field(eng, self.rec, 'ptw32_thread_t_', 'detachState')] = ((None, K['PTHREAD_CREATE_DETACHED' if self.case == 'detached' else 'PTHREAD_CREATE_JOINABLE']), 4)
        st.mon['keep'] = ('K', self.rec, self.key)
        st.mem[('g:ptw32_processInitialized', 0)] = ((None, 1), 4)
        st.mem[lib_cell(eng)] = (NULL, 8)
        if self.case == 'driver':
            lib = self.ptr(eng, st, 'driver')
            st.mem[lib_cell(eng)] = (lib, 8)
            self.own(st, 'lib', lib)

    def ptr(self, eng, st, n):
        v = self.sym(eng, st, n)
        st.facts[v[0]] = (65536, INF, frozenset())
        return v

    def on_exit(self, eng, st, kind, v, inst):
        m = st.mon
        R = lambda msg: self.rep(eng, st, msg, inst)
        if not m.get('term'):
            return R('the process-wide data is not released')
        if self.case == 'detached' and not m.get('recgone'):
            return R('the record of a detached calling thread is not given back')
        if self.live(st):
            return R('the driver is left loaded')
        if self.case == 'driver' and not m.get('fini') and not m.get('nofini'):
            return R('the driver is not told that it is not used any more')
        if v is not None and v == NULL:
            return R('reports a failure')


class AtExit(Contract):
    PROPS = ('X01',)

    def models(self):
        m = super().models()
        for n in ('pthread_win32_thread_detach_np', 'pthread_win32_process_detach_np'):
            m[n] = self.m_det
        return m

    def m_det(self, eng, st, inst, args, name, cv):
        self.sites.add((eng.where(inst), name))
        st.mon['seq'] = st.mon.get('seq', ()) + (('S', name),)
        return [(st, (None, 1))]

    def on_exit(self, eng, st, kind, v, inst):
        if [x[1] for x in st.mon.get('seq', ())] != ['pthread_win32_thread_detach_np', 'pthread_win32_process_detach_np']:
            self.rep(eng, st, 'does not release first the calling thread\'s data and then the process-wide data', inst)


class Features(Contract):
    PROPS = ('X01',)
    PATS = (0, 1, 2, 3, 4, 5, 6, 7, -1)

    def setup(self, eng, st, args):
        outs = []
        for f in self.PATS:
            for q in self.PATS:
                t = st.fork()
                t.mem[FEAT] = ((None, f), 4)
                eng.substitute(t, args[0][0], (None, q))
                t.mon['fq'] = ('F', f, q)
                outs.append(t)
        return outs

    def stable(self, eng, st, addr, lab):
        return True

    def on_exit(self, eng, st, kind, v, inst):
        _, f, q = st.mon['fq']
        if not const(v) or bool(v[1]) != (f & q == q):
            self.rep(eng, st, 'with features %d says %s when asked for %d' % (f, nm(v) if not const(v) else bool(v[1]), q), inst)


def hooks(P, tier):
    """the functions the start and the end of the program run reach the attach and detach calls"""
    reps, stats = [], []
    for fl, p in P.items():
        def roots(secs, lists):
            out = []
            for n, g in p.globals.items():
                if (g.get('section') or '').startswith(secs) or n in lists:
                    out += [v[1] for _, _, v in g.get('cells', ()) if v[0] == 'f']
            return out

        def reach(rs):
            seen, work = set(), list(rs)
            while work:
                k = work.pop()
                if k in seen or k not in p.fns:
                    continue
                seen.add(k)
                f = p.fns[k]
                if f.decl:
                    continue
                for b in f.blocks:
                    for i in b:
                        if i['op'] in ('call', 'invoke'):
                            if i['callee'][0] == 'f':
                                work.append(i['callee'][1])
                                if p.fns[i['callee'][1]].name == 'atexit':
                                    ends.extend(o[1] for o in i['ops'] if o[0] == 'f')
            return {p.fns[k].name for k in seen}, seen
        ends = []
        start, s1 = reach(roots(('.ctors', '.CRT$XC', '.init_array'), ('llvm.global_ctors',)))
        end, s2 = reach(roots(('.dtors', '.CRT$XP', '.CRT$XT', '.fini_array'), ('llvm.global_dtors',)) + ends)
        for what, have, want in (('start', start, 'pthread_win32_process_attach_np'), ('end', end, 'pthread_win32_process_detach_np'), ('end', end, 'pthread_win32_thread_detach_np')):
            if want not in have:
                f = p.fn(want)
                reps.append({'prop': ('X01',), 'msg': 'nothing that runs at the %s of the program reaches %s' % (what, want), 'where': '%s:%s' % (f.file, f.line) if f else want,
                             'function': want, 'entry': 'program ' + what, 'case': '', 'flavour': fl, 'path': []})
        stats.append({'entry': 'program start and end', 'library': fl, 'functions': sorted(start | end), 'obligations': 3})
    return reps, stats


JOBS = []


def job(entry, case, make, n=1):
    JOBS.append({'kind': 'engine', 'props': ('X01',), 'entry': entry, 'case': case, 'min_sites': n, 'assumes': ASSUME, 'make': make})


for _c in ('first', 'again'):
    job('pthread_win32_process_attach_np', _c, (lambda c=_c: Attach(c)))
for _c in ('driver', 'none', 'detached', 'joinable'):
    job('pthread_win32_process_detach_np', _c, (lambda c=_c: Detach(c)), 1 if _c == 'driver' else 0)
job('pthread_win32_test_features_np', '', Features, 0)
JOBS.append({'kind': 'fn', 'props': ('X01',), 'name': 'program start and end', 'run': hooks})
JOBS.append({'kind': 'engine', 'props': ('X01',), 'entry': 'ptw32_on_process_exit', 'case': '', 'min_sites': 1, 'assumes': ASSUME, 'make': AtExit, 'only': lambda p: p.fn('ptw32_on_process_exit')})
