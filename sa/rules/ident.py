"""What the library tells about the system thread behind a handle (property J07)."""
from ..engine import INF, NULL
from ..common import field, peek
from ..contract import Contract

TH = 'ptw32_thread_t_'


class Tell(Contract):
    """a query about a live thread: gives the record's field and changes nothing"""
    exact_cast = True
    PROPS = ('J07',)

    def __init__(self, what, size, name):
        super().__init__('')
        self.what, self.size, self.title = what, size, name

    def setup(self, eng, st, args):
        p = self.ptr(eng, st, 'thread.p')
        x = self.sym(eng, st, 'thread.x')
        eng.substitute(st, args[0][0], ('a:arg:thread', 0))
        st.mem[('a:arg:thread', 0)] = (p, 8)
        st.mem[('a:arg:thread', 8)] = (x, 8)
        self.rec, self.val = p, self.sym(eng, st, self.title)
        a = field(eng, p, TH, self.what)
        st.mem[a] = (self.val, self.size)
        st.mem[field(eng, p, TH, 'ptHandle')] = (p, 8)
        self.x = eng.addoff(field(eng, p, TH, 'ptHandle'), 8)
        st.mem[self.x] = (x, 8)
        st.mon['keep'] = ('K', p, x, self.val)

    def stable(self, *a):
        return True

    private = stable

    def on_store(self, eng, st, addr, lab, v, inst):
        if addr[0] == self.rec[0]:
            self.rep(eng, st, 'a query changes the record of the thread', inst)

    def on_exit(self, eng, st, kind, v, inst):
        if self.mcs(st):
            return self.rep(eng, st, 'returns holding an internal lock', inst)
        if kind != 'return' or v != self.val:
            return self.rep(eng, st, 'does not give the %s' % self.title, inst)


JOBS = []
for _f, _w, _s, _t in (('pthread_getw32threadhandle_np', 'threadH', 8, 'handle of the system thread'), ('pthread_getw32threadid_np', 'thread', 4, 'identifier of the system thread'),
                       ('pthread_getunique_np', 'seqNumber', 8, 'sequence number of the thread')):
    JOBS.append({'kind': 'engine', 'props': ('J07',), 'entry': _f, 'case': '', 'min_sites': 0, 'assumes': ('the handle names a live thread (documented: no errors are reported)',),
                 'make': (lambda w=_w, s=_s, t=_t: Tell(w, s, t))})
