"""Program model: the compiled source of /repo as typed IR (one Program per library flavour)."""
import json
import re

ASM_OPS = (('cmpxchg', 'cas'), ('xchg', 'xchg'), ('xadd', 'xadd'))
INTERLOCKED = {
    'InterlockedCompareExchange': 'cas', 'InterlockedCompareExchange64': 'cas', 'InterlockedCompareExchangePointer': 'cas',
    '_InterlockedCompareExchange': 'cas', '_InterlockedCompareExchange64': 'cas', '_InterlockedCompareExchangePointer': 'cas',
    'InterlockedExchange': 'xchg', 'InterlockedExchange64': 'xchg', 'InterlockedExchangePointer': 'xchg',
    '_InterlockedExchange': 'xchg', '_InterlockedExchange64': 'xchg', '_InterlockedExchangePointer': 'xchg',
    'InterlockedExchangeAdd': 'xadd', 'InterlockedExchangeAdd64': 'xadd', '_InterlockedExchangeAdd': 'xadd',
    '_InterlockedExchangeAdd64': 'xadd', 'InterlockedIncrement': 'inc', 'InterlockedDecrement': 'dec',
    '_InterlockedIncrement': 'inc', '_InterlockedDecrement': 'dec', 'InterlockedIncrement64': 'inc', 'InterlockedDecrement64': 'dec',
}


def asm_atomic(inst, kind):
    """Read an inline compare-exchange, exchange or add: its operands in the order address, value, comparand, and what makes it unsafe."""
    tmpl, cons = inst['callee'][1], inst['callee'][2]
    ins = [x.strip() for x in re.split(r'[\n;]', tmpl.lower()) if x.strip()]
    lock = False
    body = []
    for x in ins:
        if x == 'lock':
            lock = True
        elif x.startswith('lock'):
            lock = True
            body.append(x[4:].strip())
        else:
            body.append(x)
    m = re.match(r'(cmpxchg|xchg|xadd)([bwlq]?)\s+(\S+?)\s*,\s*(\S+)$', body[0]) if len(body) == 1 else None
    if m is None:
        inst['asm_odd'] = True
        return
    slots, arg, clob = [], 0, set()
    for c in (cons.split(',') if cons else ()):
        if c.startswith('~'):
            clob.add(c)
        elif c.startswith('='):
            slots.append([c, arg if '*' in c else None])
            arg += '*' in c
        else:
            slots.append([c, arg])
            arg += 1

    def slot(t):
        """(operand number, is it memory, width) of an operand of the template"""
        q = re.match(r'(\()?\$(?:\{)?(\d+)(?::(\w))?\}?(\))?$', t)
        if q is None or int(q.group(2)) >= len(slots):
            return None
        k = int(q.group(2))
        return k, bool(q.group(1)) or '*' in slots[k][0], {'k': 32, 'w': 16, 'b': 8, 'q': 64}.get(q.group(3))

    def arg_of(k):
        c, a = slots[k]
        if a is not None:
            return a
        for i, (c2, a2) in enumerate(slots):
            if a2 is not None and (c2.strip('&%') == str(k) or c2.strip('&%') == c.strip('=&+')and c.strip('=&+').startswith('{')):
                return a2
        return None
    a, b = slot(m.group(3)), slot(m.group(4))
    if a and b and m.group(1) == 'xchg' and a[1] and not b[1]:
        a, b = b, a
    if not a or not b or a[1] or not b[1]:
        inst['asm_odd'] = True
        return
    ops = [arg_of(b[0]), arg_of(a[0])]
    if kind == 'cas':
        ax = [i for i, (c, x) in enumerate(slots) if x is None]
        ops.append(arg_of(ax[0]) if ax else None)
    if None in ops or max(ops) >= len(inst['ops']):
        inst['asm_odd'] = True
        return
    inst['ops'] = [inst['ops'][k] for k in ops]
    width = {'b': 8, 'w': 16, 'l': 32, 'q': 64}.get(m.group(2)) or a[2]
    bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}.get(inst['ty'])
    if m.group(1) != 'xchg' and not lock:
        inst['atomic_flaw'] = 'an interlocked operation without a lock prefix: another processor can come between its read and its write'
    elif width and bits and width < bits:
        inst['atomic_flaw'] = 'an interlocked operation on a value of %d bits handles only %d of them' % (bits, width)
    elif width and bits and width > bits:
        inst['atomic_flaw'] = 'an interlocked operation of %d bits on a value of %d' % (width, bits)
    elif '~{memory}' not in clob:
        inst['atomic_flaw'] = 'an interlocked operation the compiler may move other accesses to memory across'


class Fn:
    __slots__ = ('key', 'name', 'decl', 'internal', 'args', 'ret', 'file', 'line', 'blocks', 'nounwind', 'noreturn',
                 'live_in', 'incycle', 'npreds', 'preds', 'vararg', 'succs')

    def __repr__(self):
        return '<Fn %s>' % self.name


def op_uses(inst):
    op = inst['op']
    out = []

    def val(o):
        t = o[0]
        if t == 'i':
            out.append(o[1])
        elif t == 'a':
            out.append(-1 - o[1])
    if op == 'phi':
        return out
    for o in inst.get('ops', ()):
        val(o)
    if 'callee' in inst:
        val(inst['callee'])
    for o, _ in inst.get('var', ()):
        val(o)
    return out


def succs_of(block):
    t = block[-1]
    op = t['op']
    if op == 'br':
        return list(t['succ'])
    if op == 'switch':
        return [t['default']] + [b for _, b in t['cases']]
    if op == 'invoke':
        return [t['normal'], t['unwind']]
    return []


def analyse_fn(f):
    n = len(f.blocks)
    succs = [sorted(set(succs_of(b))) for b in f.blocks]
    f.succs = succs
    preds = [[] for _ in range(n)]
    for i, s in enumerate(succs):
        for j in s:
            preds[j].append(i)
    f.npreds = [len(p) for p in preds]
    f.preds = preds
    # SCC membership (block can reach itself)
    f.incycle = [False] * n
    for i in range(n):
        seen = set()
        st = list(succs[i])
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            st.extend(succs[j])
        f.incycle[i] = i in seen
    # liveness
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [set() for _ in range(n)]   # keyed by predecessor block
    for i, b in enumerate(f.blocks):
        for inst in b:
            if inst['op'] == 'phi':
                for o, pb in inst['inc']:
                    if o[0] == 'i':
                        phiuse[pb].add(o[1])
                    elif o[0] == 'a':
                        phiuse[pb].add(-1 - o[1])
            else:
                for u in op_uses(inst):
                    if u not in dfn[i]:
                        use[i].add(u)
            dfn[i].add(inst['id'])
    live_in = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set(phiuse[i])
            for s in succs[i]:
                out |= live_in[s]
            ni = use[i] | (out - dfn[i])
            if ni != live_in[i]:
                live_in[i] = ni
                ch = True
    # phis of a block are evaluated before entry normalisation, so they are live at entry too
    for i, b in enumerate(f.blocks):
        for inst in b:
            if inst['op'] == 'phi':
                live_in[i].add(inst['id'])
    f.live_in = [frozenset(x) for x in live_in]


class Program:
    def __init__(self, doc, flavour):
        self.flavour = flavour
        self.structs = {}
        for k, v in doc['structs'].items():
            self.structs[k] = v
        self.globals = doc['globals']
        self.enums = doc['enums']
        self.fns = {}
        self.byname = {}
        for k, v in doc['functions'].items():
            f = Fn()
            f.key = k
            f.name = v['name']
            f.decl = v['decl']
            f.internal = v['internal']
            f.args = v['args']
            f.ret = v['ret']
            f.file = v.get('file', '')
            f.line = v.get('line', 0)
            f.noreturn = v['noreturn']
            f.nounwind = v['nounwind']
            f.vararg = v['vararg']
            f.blocks = v.get('blocks', [])
            self.fns[k] = f
            if not f.decl or f.name not in self.byname:
                self.byname[f.name] = f
            pair = {}
            for b in f.blocks:
                for inst in b:
                    self._prep(inst)
                    if inst['op'] == 'cmpxchg':
                        m = re.match(r'\{\s*(\w+)\s*,\s*i1\s*\}', inst['ty'])
                        if m:
                            inst['ty'] = m.group(1)
                            pair[inst['id']] = inst
            for b in f.blocks:
                for inst in b if pair else ():
                    # the two halves of what a compare-exchange yields: the value found, and whether it was the one expected
                    d = pair.get(inst['ops'][0][1]) if inst['op'] == 'extractvalue' and inst['ops'][0][0] == 'i' else None
                    if d is not None:
                        if inst.get('idx') == [0]:
                            inst['op'] = 'freeze'
                        else:
                            inst.update(op='icmp', pred='eq', oty=d['ty'], ops=[inst['ops'][0], d['ops'][1]])
            self._pairs(f)
            if not f.decl:
                analyse_fn(f)
        self._fixed = None

    @staticmethod
    def _pairs(f):
        """a structure of two 32-bit members passed by value travels as one 64-bit word: name the writing of each half (X & mask | half << shift)"""
        d = {i['id']: i for b in f.blocks for i in b if i['op'] in ('and', 'or', 'shl', 'zext') and i.get('ty') == 'i64'}

        def at(o, op):
            i = d.get(o[1]) if o[0] == 'i' else None
            return i if i is not None and i['op'] == op else None

        for inst in [i for i in d.values() if i['op'] == 'or']:
            for x, y in (inst['ops'], inst['ops'][::-1]):
                m = at(x, 'and')
                if m is None or m['ops'][1][0] != 'c':
                    continue
                c = m['ops'][1][1] & 0xffffffffffffffff
                sh = at(y, 'shl')
                z = at(sh['ops'][0], 'zext') if c == 0xffffffff and sh is not None and sh['ops'][1][:2] == ['c', 32] else at(y, 'zext') if c == 0xffffffff00000000 else None
                if z is not None and z.get('sty') == 'i32':
                    inst.update(op='pairins', half=int(c == 0xffffffff), ops=[m['ops'][0], z['ops'][0]])
                    break

    def fixed_globals(self):
        """Globals no instruction of the program names as the target of a write: they keep their initial value."""
        if self._fixed is None:
            w = set()

            def root(o):
                while o[0] in ('gep', 'ce'):
                    o = o[1] if o[0] == 'gep' else o[2]
                return o[1] if o[0] == 'g' else None
            for f in self.fns.values():
                for b in f.blocks:
                    derived = {}
                    for i in b:
                        op = i['op']
                        if op == 'store':
                            t = root(i['ops'][1])
                        elif op in ('cmpxchg', 'atomicrmw') or 'atomic_op' in i:
                            t = root(i['ops'][0])
                        elif op in ('call', 'invoke') and i['callee'][0] == 'f' and (i['callee'][1].startswith('llvm.mem') or self.fns[i['callee'][1]].decl):
                            for o in i['ops']:
                                t = root(o)
                                if t:
                                    w.add(t)
                            continue
                        elif op == 'getelementptr':
                            t = root(i['ops'][0])      # run-time subscript: treat as written
                        else:
                            continue
                        if t:
                            w.add(t)
            self._fixed = frozenset(k for k, g in self.globals.items() if not g['decl'] and k not in w)
        return self._fixed

    def gcell(self, name, off, size):
        """initial value operand of a cell of a global, or None"""
        g = self.globals.get(name)
        for o, sz, v in (g or {}).get('cells', ()):
            if v[0] == 'z' and o <= off and off + size <= o + sz:
                return ['n']
            if o == off and sz == size:
                return v
        return None

    def _prep(self, inst):
        if inst['op'] == 'gep' or inst['op'] == 'getelementptr':
            inst['labels'] = self.labels(inst['path'])
        elif inst['op'] in ('call', 'invoke'):
            c = inst['callee']
            if c[0] == 'asm':
                s = c[1].lower()
                for pat, k in ASM_OPS:
                    if pat in s:
                        inst['atomic_op'] = k
                        asm_atomic(inst, k)
                        break
            elif c[0] == 'f' and c[1] in INTERLOCKED:
                inst['atomic_op'] = INTERLOCKED[c[1]]

    def labels(self, path):
        out = []
        for st, idx, off in path:
            d = self.structs.get(st)
            if d and idx < len(d['fields']):
                n = st.split('.', 1)[1] if '.' in st else st
                out.append((n, d['fields'][idx][0]))
            else:
                out.append((st, 'f%d' % idx))
        return tuple(out)

    def fn(self, name):
        f = self.byname.get(name)
        if f is None or f.decl:
            return None
        return f

    def struct(self, name):
        return self.structs.get('struct.' + name) or self.structs.get('union.' + name)

    def struct_size(self, sname):
        d = self.struct(sname)
        return d and d.get('size')

    def field_off(self, sname, field):
        d = self.struct(sname)
        if not d:
            return None
        for n, off, sz, ty in d['fields']:
            if n == field:
                return off
        return None

    def field_at(self, sname, off):
        d = self.struct(sname)
        if not d:
            return None
        for n, o, sz, ty in d['fields']:
            if o == off:
                return n
        return None


def load(path, flavour):
    return Program(json.load(open(path)), flavour)
