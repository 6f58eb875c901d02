"""Contract analysis of one entry point: reporting helpers, resource accounting, null dereference."""
from .engine import NULL, INF, STOP, THROW, AnalysisBroken
from .common import Base, E, K, const, field, peek, ename


def nm(r):
    if isinstance(r, tuple):
        if not const(r):
            return 'an unspecified value'
        r = r[1]
    return 'success' if r == 0 else ename((None, r))


class Contract(Base):
    PROPS = ()

    def __init__(self, case=''):
        super().__init__()
        self.case = case
        self.sites = set()

    def rep(self, eng, st, msg, inst=None, props=None):
        self.report(eng, st, msg, inst)
        self.reports[-1]['prop'] = tuple(props or self.PROPS)
        self.reports[-1]['case'] = self.case
        st.mon['!stop'] = 1

    def init_mon(self):
        return {'live': (), 'failed': ()}

    # ---- resources owned by this call
    def live(self, st):
        return st.mon['live']

    def own(self, st, kind, v):
        st.mon['live'] = st.mon['live'] + (('R', kind, v),)

    def drop(self, st, v):
        """-> kind of the live resource v, removed, or None"""
        for r in st.mon['live']:
            if r[2] == v:
                st.mon['live'] = tuple(x for x in st.mon['live'] if x is not r)
                return r[1]
        return None

    def fail(self, st, what):
        st.mon['failed'] = st.mon['failed'] + (('F', what),)

    def failed_any(self, st, what=None):
        return [f for f in st.mon['failed'] if what is None or f[1] == what]

    def on_alloc(self, eng, st, v, inst, args):
        self.sites.add((eng.where(inst), 'allocation'))
        if v == NULL:
            self.fail(st, 'mem')
        else:
            self.own(st, 'mem', v)

    def on_free(self, eng, st, v, inst):
        if v == NULL:
            return
        self.sites.add((eng.where(inst), 'free'))
        k = self.drop(st, v)
        if k is None:
            self.free_foreign(eng, st, v, inst)
        elif k != 'mem':
            self.rep(eng, st, 'frees a %s' % k, inst)
        else:
            self.scrub(eng, st, v)

    def scrub(self, eng, st, v):
        st.mon['gone'] = st.mon.get('gone', ()) + (v,)

    def free_foreign(self, eng, st, v, inst):
        if v in st.mon.get('gone', ()):
            return self.rep(eng, st, 'frees memory twice', inst)
        self.scrub(eng, st, v)
        st.mon['freed'] = st.mon.get('freed', ()) + (v,)

    def on_api(self, eng, st, name, args, ret, inst):
        if name.startswith('Create'):
            self.sites.add((eng.where(inst), name))
            if ret == NULL:
                self.fail(st, 'handle')
            else:
                self.own(st, 'handle', ret)
                self.on_created(eng, st, name, args, ret, inst)
        elif name == 'CloseHandle':
            self.sites.add((eng.where(inst), name))
            if ret == NULL:
                self.fail(st, 'close')
                return
            if self.drop(st, args[0]) is None:
                if args[0] in st.mon.get('closed', ()):
                    return self.rep(eng, st, 'closes a handle twice', inst)
                st.mon['closed'] = st.mon.get('closed', ()) + (args[0],)

    def on_created(self, eng, st, name, args, ret, inst):
        pass

    def on_deref(self, eng, st, addr, lab, inst, how):
        if addr[0] is None and addr[1] is not None and 0 <= addr[1] < 4096:
            self.rep(eng, st, '%s through a null pointer' % how, inst)
            return STOP
        if addr[0] is not None:
            for g in st.mon.get('gone', ()):
                if g[0] == addr[0]:
                    self.rep(eng, st, '%s of freed memory' % how, inst)
                    return STOP
        return None

    def sym(self, eng, st, name, lo=-INF, hi=INF, ex=()):
        s = eng.sym('arg', 'x', name)
        if lo != -INF or hi != INF or ex:
            st.facts[s] = (lo, hi, frozenset(ex))
        return (s, 0)

    def ptr(self, eng, st, name):
        return self.sym(eng, st, name, ex=(0, -1, -2, -3))

    def val(self, eng, st, obj, s, f, size):
        return eng.load(st, field(eng, obj, s, f), size, {'id': 'peek-' + f, 'loc': None})
