"""Abstract interpreter over the dumped MIR.

A state maps memory roots to symbolic values (hash-consed nodes), plus facts: the possible
variants of enum-valued nodes, linear inequalities between integer nodes and truth values of
opaque booleans.  A function is analysed by a work-list fixpoint over (block, partition), where
the partition is the finite shape (enum variants, booleans) of the live locals; states of one
partition are joined, joined values that differ become `phi` nodes whose alternatives are
recorded.  Calls to functions whose MIR is available are analysed in the caller's context."""
import json
import heapq
import os
import sys
from . import lin as L

sys.setrecursionlimit(20000)

INT = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1),
       'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1),
       'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1),
       'i128': (-2**127, 2**127 - 1), 'bool': (0, 1), 'char': (0, 0x10ffff)}
LENMAX = 2**63 - 1
BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


class Node:
    __slots__ = ('id', 'op', 'a', 'ty', 'phis', 'rng')

    def __repr__(self):
        return show(self)


def show(n, d=0):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x, d + 1) for x in n) + ')'
        return str(n)
    if d > 7:
        return '..'
    if n.op == 'int':
        return str(n.a[0])
    if n.op == 'str':
        return repr(n.a[0])
    if n.op == 'sym':
        return '$' + str(n.a[0])
    if n.op == 'field':
        return '%s.%s%s' % (show(n.a[0], d + 1), ('%s:' % n.a[1]) if n.a[1] else '', n.a[2])
    if n.op == 'deref':
        return '*' + show(n.a[0], d + 1)
    if n.op == 'agg':
        k = n.a[0]
        return '%s#%s{%s}' % (k.split('::')[-1] if isinstance(k, str) else k, n.a[1], ', '.join(show(x, d + 1) for x in n.a[2:]))
    if n.op == 'phi':
        return 'phi%d' % n.id
    if n.op in ('call', 'eff'):
        p = n.a[0]
        return '%s%s(%s)' % (p.split('::')[-1] if isinstance(p, str) else p, '!' if n.op == 'eff' else '', ', '.join(show(x, d + 1) for x in (n.a[1:] if n.op == 'call' else n.a[2:])))
    if n.op in ('add', 'sub', 'mul', 'lt', 'le', 'eq', 'ne'):
        return '(%s %s %s)' % (show(n.a[0], d + 1), n.op, show(n.a[1], d + 1))
    return '%s(%s)' % (n.op, ','.join(show(x, d + 1) for x in n.a))


_tab = {}
_nodes = []


def _key(x):
    if isinstance(x, Node):
        return ('\0', x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


def mk(op, *a, ty=None):
    k = (op,) + tuple([('\0', x.id) if isinstance(x, Node) else (_key(x) if isinstance(x, tuple) else (x.__class__, x)) for x in a])
    if op == 'vec' and a[0].op == 'int' and ty is not None:
        # empty vectors of different types are different values
        k += (('\1', ty),)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.id = len(_nodes)
        n.op = op
        n.a = a
        n.ty = ty
        n.rng = None
        ph = None
        if op == 'phi':
            ph = frozenset((n.id,))
        else:
            for x in a:
                p = _phis(x)
                if p:
                    ph = p if ph is None else (ph if p <= ph else ph | p)
        n.phis = ph
        _nodes.append(n)
        _tab[k] = n
    elif n.ty is None and ty is not None:
        n.ty = ty
    return n


def _phis(x):
    if isinstance(x, Node):
        return x.phis
    if isinstance(x, tuple):
        r = None
        for y in x:
            p = _phis(y)
            if p:
                r = p if r is None else r | p
        return r
    return None


def node(i):
    return _nodes[i]


def num(n, ty=None):
    return mk('int', int(n), ty=ty)


TRUE = mk('int', 1, ty='bool')
FALSE = mk('int', 0, ty='bool')
UNIT = mk('agg', 'tuple', 0)


def agg(kind, variant, *fields):
    return mk('agg', kind, variant, *fields)


OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'
NONE = agg(OPT, 0)


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.T = d['types']
        self.adts = {a['p']: a for a in d['adts']}
        self.fns = d['fns']
        self.impls = d['impls']
        self.statics = d['statics']
        self.raw = {k: d.get(k, []) for k in ('autos', 'unsafe_blocks')}
        self.consts = d['consts']
        self.I = d['insts']
        self.iter_next = {i: f for i, f in d['iter_next']}
        self.bypath = {}
        for i in self.I:
            self.bypath.setdefault(i['p'], []).append(i)
        self.fnbypath = {}
        for f in self.fns:
            self.fnbypath.setdefault(f['p'], f)
        self.closures = {}
        for i in self.I:
            if 'err' in i or i['argc'] < 1 or i.get('shim'):
                continue
            t = self.T[i['tys'][1]]
            by_ref = False
            if t['k'] == 'ref':
                tid = t['a'][0]
                by_ref = True
            else:
                tid = i['tys'][1]
            t = self.T[tid]
            if t['k'] == 'closure' and t['p'] == i['p']:
                self.closures.setdefault(tid, (i, by_ref))
        self._prep = {}
        self.tybystr = {}
        for n, t in enumerate(self.T):
            self.tybystr.setdefault(t['s'], n)

    def tys(self, tid):
        return self.T[tid]['s']

    def inst(self, path, **kw):
        """the identity-instantiated local instance with this def path"""
        c = [i for i in self.bypath.get(path, []) if i.get('identity')]
        if not c:
            c = self.bypath.get(path, [])
        if not c:
            return None
        return c[0]

    def is_enum(self, path):
        a = self.adts.get(path)
        return bool(a and a['enum'])

    def variant_name(self, path, v):
        a = self.adts.get(path)
        try:
            return a['variants'][v]['n']
        except Exception:
            return str(v)

    def variant_of_discr(self, path, d):
        a = self.adts.get(path)
        if a:
            for i, v in enumerate(a['variants']):
                if v['v'] == d:
                    return i
        return None

    def discr_of_variant(self, path, v):
        a = self.adts.get(path)
        if a:
            return a['variants'][v]['v']
        return v

    def nvariants(self, path):
        a = self.adts.get(path)
        return len(a['variants']) if a else None

    def field_index(self, path, name, variant=0):
        a = self.adts[path]
        return a['variants'][variant]['f'].index(name)

    def prep(self, inst):
        p = self._prep.get(inst['id'])
        if p is None:
            p = Prep(self, inst)
            self._prep[inst['id']] = p
        return p


def _locals_in_place(pl, use):
    use.add(pl[0])
    for e in pl[1]:
        if isinstance(e, list) and e[0] == 'i':
            use.add(e[1])


def _locals_in_op(o, use):
    if o[0] in ('c', 'm'):
        _locals_in_place(o[1], use)


def _rv_uses(rv, use, addr):
    k = rv[0]
    if k == 'use':
        _locals_in_op(rv[1], use)
    elif k == 'repeat':
        _locals_in_op(rv[1], use)
    elif k == 'ref':
        _locals_in_place(rv[2], use)
        if '*' not in rv[2][1]:
            addr.add(rv[2][0])
    elif k == 'cast':
        _locals_in_op(rv[2], use)
    elif k == 'bin':
        _locals_in_op(rv[2], use)
        _locals_in_op(rv[3], use)
    elif k == 'un':
        _locals_in_op(rv[2], use)
    elif k == 'discr':
        _locals_in_place(rv[1], use)
    elif k == 'agg':
        for o in rv[2]:
            _locals_in_op(o, use)


class Prep:
    """CFG facts of one body: successors, reverse post-order, liveness"""

    def __init__(self, prog, inst):
        self.inst = inst
        B = inst['b']
        n = len(B)
        self.succ = []
        gen = []
        kill = []
        addr = set()
        for st, t, line, cl in B:
            use = set()
            deff = set()
            for s in st:
                if s[0] == '=':
                    u = set()
                    _rv_uses(s[2], u, addr)
                    if s[1][1]:
                        _locals_in_place(s[1], u)
                    use |= (u - deff)
                    if not s[1][1]:
                        deff.add(s[1][0])
                elif s[0] == 'sd':
                    u = set()
                    _locals_in_place(s[1], u)
                    use |= (u - deff)
                elif s[0] == 'dead':
                    deff.add(s[1])
            u = set()
            k = t[0]
            sc = []
            d2 = None
            if k == 'goto':
                sc = [t[1]]
            elif k == 'switch':
                _locals_in_op(t[1], u)
                sc = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                sc = [t[2]]
            elif k == 'call':
                _locals_in_op(t[1], u)
                for o in t[2]:
                    _locals_in_op(o, u)
                if t[3][1]:
                    _locals_in_place(t[3], u)
                else:
                    d2 = t[3][0]
                sc = [t[4]] if t[4] is not None else []
            elif k == 'tailcall':
                _locals_in_op(t[1], u)
                for o in t[2]:
                    _locals_in_op(o, u)
            elif k == 'assert':
                _locals_in_op(t[1], u)
                m = t[3]
                for o in m[1:]:
                    if isinstance(o, list):
                        _locals_in_op(o, u)
                sc = [t[4]]
            elif k == 'yield':
                _locals_in_op(t[1], u)
                sc = [t[2]]
                d2 = t[3][0]
            elif k == 'py':
                sc = t[2]
            elif k == 'ret':
                u.add(0)
            use |= (u - deff)
            if d2 is not None:
                deff.add(d2)
            gen.append(use)
            kill.append(deff)
            self.succ.append(sc)
        # reverse post-order
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        self.heads = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.heads.add(s)
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        if inst.get('syn'):
            addr = set(range(len(inst['tys'])))
        self.addr = addr
        # liveness (address-taken locals stay live until their storage ends)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = gen[b] | (o - kill[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        self.nlocals = len(inst['tys'])
        self.enumish = set()
        if inst.get('syn'):
            self.enumish = set(range(len(inst['tys'])))
            return
        for l, t in enumerate(inst['tys']):
            T = prog.T[t]
            if T['s'] == 'bool' or (T['k'] == 'adt' and prog.is_enum(T['p'])):
                self.enumish.add(l)


class State:
    __slots__ = ('mem', 'var', 'lin', 'bools', 'mon')

    def __init__(self):
        self.mem = {}
        self.var = {}      # node -> frozenset of possible variants
        self.lin = {}      # expr -> True   (ordered set)
        self.bools = {}    # node -> bool
        self.mon = ()

    def copy(self):
        s = State()
        s.mem = self.mem.copy()
        s.var = self.var.copy()
        s.lin = self.lin.copy()
        s.bools = self.bools.copy()
        s.mon = self.mon
        return s

    def same(self, o):
        return self.mem == o.mem and self.var == o.var and self.lin.keys() == o.lin.keys() and self.bools == o.bools and self.mon == o.mon


class Frame:
    __slots__ = ('id', 'inst', 'prep', 'depth', 'parent', 'callsite')

    def __init__(self, id, inst, prep, depth, parent=None, callsite=None):
        self.id = id
        self.inst = inst
        self.prep = prep
        self.depth = depth
        self.parent = parent
        self.callsite = callsite


class Call:
    __slots__ = ('fn', 'path', 'decl', 'args', 'argtys', 'site', 'fr', 'ev', 'dty', 'line', 'user')


class Event:
    """something a client wants to look at once the fixpoint is reached"""
    __slots__ = ('kind', 'data', 'st', 'fr', 'line')

    def __init__(self, kind, data, st, fr, line):
        self.kind = kind
        self.data = data
        self.st = st
        self.fr = fr
        self.line = line

    def where(self):
        i = self.fr.inst if self.fr else None
        return '%s:%s (%s)' % (i['file'] if i else '?', self.line, i['p'] if i else '?')

    def chain(self):
        r = []
        f = self.fr
        while f is not None:
            r.append(f.inst['p'])
            f = f.parent
        return r


class TooBig(Exception):
    pass


class Engine:
    nctx = 0

    def __init__(self, prog, client=None, max_depth=40, max_part=20, numeric=True, budget=None):
        self.P = prog
        self.client = client
        self.max_depth = max_depth
        self.max_part = max_part
        self.numeric = numeric
        self.alts = {}         # phi node -> dict of alternatives (ordered)
        self.ctxs = {}
        self.lpcache = {}
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.no_inline = set()
        self.rec_limit = 1
        self.rec_hit = set()
        self.reading = set()
        self.stats = {'blocks': 0, 'inlined': set(), 'opaque': {}, 'lp': 0}
        from . import models
        self.models = models

    # ---------------------------------------------------------------- memory
    def default(self, root):
        if root[0] == 'p':
            n = root[1]
            if n.op == 'call' and n.a[0] == '&':
                return n.a[1]
            return self.deref_val(n)
        if root[0] == 'k':
            return root[1]
        return mk('uninit')

    def deref_val(self, n):
        if n.op == 'agg' and n.a[0] == 'box':
            return n.a[2]
        t = None
        if n.ty is not None and isinstance(n.ty, int):
            T = self.P.T[n.ty]
            if T['k'] in ('ref', 'ptr') or (T['k'] == 'adt' and T['p'] == 'alloc::boxed::Box'):
                t = T['a'][0]
        return mk('deref', n, ty=t)

    def getk(self, v, key, st=None):
        k = key[0]
        op = v.op
        if k == 'f':
            if op == 'agg':
                if v.a[1] == key[1] or v.a[0] in ('tuple', 'closure'):
                    i = key[2] + 2
                    if i < len(v.a):
                        return v.a[i]
                    return mk('undef')
                return mk('undef')
            if op == 'rec':
                a = v.a
                kk = (key[1], key[2])
                for i in range(1, len(a), 2):
                    if a[i] == kk:
                        return a[i + 1]
                return self.getk(v.a[0], key, st)
            if op == 'uninit':
                return v
            return mk('field', v, key[1], key[2], ty=key[3] if len(key) > 3 else None)
        if k == 'i':
            idx = key[1]
            if op == 'agg' and v.a[0] == 'array':
                if isinstance(idx, Node) and idx.op == 'int':
                    i = idx.a[0]
                    if 0 <= i < len(v.a) - 2:
                        return v.a[i + 2]
                fs = v.a[2:]
                if fs and all(f is fs[0] for f in fs):
                    return fs[0]
            if op == 'vec':
                e = v.a[1]
                if e.op == 'int':
                    return e
            if op == 'slc':
                return self.getk(v.a[0], ('i', self.arith('add', idx, v.a[1])), st)
            if op == 'bytes':
                if isinstance(idx, Node) and idx.op == 'int' and 0 <= idx.a[0] < len(v.a[0]):
                    return num(v.a[0][idx.a[0]], 'u8')
            return mk('elem', v, idx, ty=self.elem_ty(v))
        if k == 's':
            a, b = key[1], key[2]
            return self.subslice(v, a, b)
        if k == 'b':
            if op == 'agg' and v.a[0] == 'box':
                return v.a[2]
            return self.deref_val(v)
        return mk('proj', v, key)

    def subslice(self, v, a, b):
        if a.op == 'int' and a.a[0] == 0 and b is self.length(v):
            return v
        if v.op == 'slc':
            return mk('slc', v.a[0], self.arith('add', v.a[1], a), self.arith('add', v.a[1], b), ty=v.ty)
        return mk('slc', v, a, b, ty=v.ty)

    def elem_ty(self, v):
        t = v.ty
        if isinstance(t, int):
            T = self.P.T[t]
            if T['k'] in ('slice', 'array'):
                return self.scalar(T['a'][0])
            if T['k'] == 'adt' and T['p'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque') and T['a']:
                return self.scalar(T['a'][0])
        if v.op in ('slc', 'store') and isinstance(v.a[0], Node):
            return self.elem_ty(v.a[0])
        if v.op == 'bytes' or v.op == 'str':
            return 'u8'
        return None

    def scalar(self, tid):
        """type annotation of a node: the name for scalars, the id otherwise"""
        T = self.P.T[tid]
        if T['s'] in INT:
            return T['s']
        return tid

    def setk(self, v, path, val):
        key = path[0]
        if len(path) > 1:
            val = self.setk(self.getk(v, key), path[1:], val)
        k = key[0]
        if k == 'f':
            if v.op == 'agg' and (v.a[1] == key[1] or v.a[0] in ('tuple', 'closure')) and key[2] + 2 < len(v.a):
                a = list(v.a)
                a[key[2] + 2] = val
                return mk('agg', *a)
            base = v
            kv = {}
            if v.op == 'rec':
                base = v.a[0]
                for i in range(1, len(v.a), 2):
                    kv[v.a[i]] = v.a[i + 1]
            kv[(key[1], key[2])] = val
            flat = []
            for q in sorted(kv):
                flat += [q, kv[q]]
            return mk('rec', base, *flat, ty=base.ty)
        if k == 'b':
            if v.op == 'agg' and v.a[0] == 'box':
                return mk('agg', 'box', 0, val)
            return mk('agg', 'box', 0, val)
        if k == 'i':
            if v.op == 'agg' and v.a[0] == 'array':
                idx = key[1]
                if idx.op == 'int' and 0 <= idx.a[0] < len(v.a) - 2:
                    a = list(v.a)
                    a[idx.a[0] + 2] = val
                    return mk('agg', *a)
            if v.op == 'vec':
                if key[1].op == 'int' and self.small_array(v):
                    return self.setk(self.as_array(v), path, val)
                return mk('vec', v.a[0], self.anyof(v.a[1], val), ty=v.ty)
            if v.op == 'store' and len(v.a) == 2:
                return mk('store', v.a[0], self.anyof(v.a[1], val), ty=v.ty)
            return mk('store', v, val, ty=v.ty)
        if k == 's':
            src = val
            if key[1].op == 'int' and key[2].op == 'int' and (v.op == 'vec' and self.small_array(v) or v.op == 'agg' and v.a[0] == 'array' and len(v.a) < 20):
                a, b = key[1].a[0], key[2].a[0]
                w = self.as_array(v)
                if 0 <= a <= b <= len(w.a) - 2:
                    x = list(w.a)
                    for j in range(a, b):
                        x[j + 2] = self.getk(src, ('i', num(j - a, 'usize')))
                    return mk('agg', *x)
            if v.op == 'store' and len(v.a) == 2:
                return mk('store', v.a[0], self.anyof(v.a[1], src), ty=v.ty)
            return mk('store', v, src, ty=v.ty)
        return mk('store', v, val, ty=v.ty)

    def small_array(self, v):
        """a short array (not a vector) filled with one value"""
        return v.a[0].op == 'int' and 0 < v.a[0].a[0] <= 16 and v.a[1].op == 'int' and isinstance(v.ty, int) and self.P.T[v.ty]['k'] == 'array'

    def as_array(self, v):
        return v if v.op == 'agg' else mk('agg', 'array', 0, *[v.a[1]] * v.a[0].a[0])

    def anyofs(self, vs):
        r = mk('anyof')
        for v in vs:
            r = self.anyof(r, v)
        return r

    def anyof(self, a, b):
        """weak union of values (used for the elements of collections)"""
        s = {}
        for x in (a, b):
            if x is None or x.op == 'uninit':
                continue
            if x.op == 'anyof':
                for y in x.a:
                    s[y] = 1
            else:
                s[x] = 1
        if len(s) == 0:
            return mk('anyof')
        if len(s) == 1:
            return next(iter(s))
        return mk('anyof', *sorted(s, key=lambda n: n.id))

    def read(self, st, root, path):
        if root[0] == 'p' and root not in st.mem and root[1].op == 'phi' and root[1] not in self.reading and len(self.reading) < 6:
            # reading through a joined pointer: join of what the alternatives point to
            alts = list(self.alts.get(root[1], {}))
            if alts and all(x.op == 'ref' and not (x.phis and root[1].id in x.phis) for x in alts):
                vals = []
                self.reading.add(root[1])
                try:
                    for x in alts:
                        w = self.read(st, x.a[0], x.a[1] + path)
                        if w not in vals:
                            vals.append(w)
                            if len(vals) > 1:
                                break
                finally:
                    self.reading.discard(root[1])
                if len(vals) == 1:
                    return vals[0]
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for key in path:
            v = self.getk(v, key, st)
        return v

    def write(self, st, root, path, val):
        if self.client is not None and hasattr(self.client, 'on_write'):
            self.client.on_write(self, st, root, path, val)
        if root[0] == 'p' and root[1].op == 'phi' and root[1] not in self.reading and len(self.reading) < 6:
            alts = list(self.alts.get(root[1], {}))
            if alts and all(x.op == 'ref' and not (x.phis and root[1].id in x.phis) for x in alts):
                self.reading.add(root[1])
                try:
                    for x in alts:
                        old = self.read(st, x.a[0], x.a[1] + path)
                        self.write(st, x.a[0], x.a[1] + path, val if old is val else mk('maybe', old, val, ty=old.ty))
                finally:
                    self.reading.discard(root[1])
                return
        if not path:
            st.mem[root] = val
        else:
            v = st.mem.get(root)
            if v is None:
                v = self.default(root)
            st.mem[root] = self.setk(v, path, val)

    def ref(self, root, path, ty=None):
        if not path and root[0] == 'p':
            n = root[1]
            return n
        return mk('ref', root, path, ty=ty)

    def target(self, n):
        """(root, path) a reference value points to"""
        if n.op == 'ref':
            return n.a[0], n.a[1]
        if n.op == 'cast' and isinstance(n.a[0], Node):
            return self.target(n.a[0])
        return ('p', n), ()

    def content(self, st, n):
        """the value a reference (or box) points to"""
        if n.op == 'agg' and n.a[0] == 'box':
            return n.a[2]
        r, p = self.target(n)
        return self.read(st, r, p)

    # ------------------------------------------------------------- integers
    def rng(self, n):
        """type range of an integer atom"""
        if n.rng is not None:
            return n.rng
        op = n.op
        r = None
        if op == 'len':
            r = (0, LENMAX)
        elif op in ('lt', 'le', 'eq', 'ne', 'not', 'ovf', 'b_and', 'b_or', 'isvar', 'contains'):
            r = (0, 1)
        else:
            t = n.ty
            if isinstance(t, int):
                t = self.P.T[t]['s']
            r = INT.get(t, (None, None))
            if op in ('rem', 'and', 'shr', 'div', 'min') :
                a, b = n.a[0], n.a[1]
                ra = self.rng_of(a)
                rb = self.rng_of(b)
                lo, hi = r
                if op == 'and':
                    for q in (a, b):
                        if q.op == 'int' and q.a[0] >= 0:
                            lo = 0
                            hi = q.a[0] if hi is None else min(hi, q.a[0])
                    if ra[0] is not None and ra[0] >= 0 and rb[0] is not None and rb[0] >= 0:
                        lo = 0
                elif op == 'rem' and b.op == 'int' and b.a[0] > 0:
                    if ra[0] is not None and ra[0] >= 0:
                        lo = 0
                    else:
                        lo = -(b.a[0] - 1)
                    hi = b.a[0] - 1
                elif op == 'div' and b.op == 'int' and b.a[0] > 0:
                    if ra[0] is not None and ra[1] is not None:
                        lo = ra[0] // b.a[0] if ra[0] >= 0 else -((-ra[0]) // b.a[0])
                        hi = ra[1] // b.a[0]
                elif op == 'shr' and b.op == 'int':
                    if ra[0] is not None and ra[0] >= 0 and ra[1] is not None:
                        lo = 0
                        hi = ra[1] >> b.a[0]
                r = (lo, hi)
        n.rng = r
        return r

    def rng_of(self, n):
        if n.op == 'int':
            return (n.a[0], n.a[0])
        e = self.lin(n)
        lo = hi = e[0]
        for i, c in e[1]:
            a, b = self.rng(node(i))
            if c < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + c * a
            hi = None if (hi is None or b is None) else hi + c * b
        return (lo, hi)

    def lin(self, n):
        op = n.op
        if op == 'int':
            return (n.a[0], ())
        if op == 'add':
            return L.ladd(self.lin(n.a[0]), self.lin(n.a[1]))
        if op == 'sub':
            return L.ladd(self.lin(n.a[0]), self.lin(n.a[1]), -1)
        if op == 'mul':
            a, b = n.a
            if b.op == 'int':
                return L.lscale(self.lin(a), b.a[0])
            if a.op == 'int':
                return L.lscale(self.lin(b), a.a[0])
        if op == 'neg':
            return L.lneg(self.lin(n.a[0]))
        return (0, ((n.id, 1),))

    def unlin(self, e, ty=None):
        """canonical node of a linear expression"""
        if not e[1]:
            return num(e[0], ty)
        r = None
        neg = []
        for i, c in e[1]:
            x = node(i)
            if c < 0:
                neg.append((x, -c))
                continue
            if c != 1:
                x = mk('mul', x, num(c), ty=ty)
            r = x if r is None else mk('add', r, x, ty=ty)
        if r is None:
            r = num(e[0], ty)
        elif e[0] > 0:
            r = mk('add', r, num(e[0]), ty=ty)
        for x, c in neg:
            if c != 1:
                x = mk('mul', x, num(c), ty=ty)
            r = mk('sub', r, x, ty=ty)
        if e[0] < 0 and not (len(e[1]) == len(neg)):
            r = mk('sub', r, num(-e[0]), ty=ty)
        return r

    def arith(self, op, a, b, ty=None):
        """exact integer arithmetic (no wrapping)"""
        ty = ty or a.ty
        if op == 'add':
            return self.unlin(L.ladd(self.lin(a), self.lin(b)), ty)
        if op == 'sub':
            return self.unlin(L.ladd(self.lin(a), self.lin(b), -1), ty)
        if op == 'mul':
            if a.op == 'int' and b.op == 'int':
                return num(a.a[0] * b.a[0], ty)
            if b.op == 'int':
                return self.unlin(L.lscale(self.lin(a), b.a[0]), ty)
            if a.op == 'int':
                return self.unlin(L.lscale(self.lin(b), a.a[0]), ty)
            if a.id > b.id:
                a, b = b, a
            return mk('mul', a, b, ty=ty)
        raise Exception(op)

    def length(self, v, st=None):
        op = v.op
        if op == 'store' or op == 'maybe' or op == 'perm':
            return self.length(v.a[0])
        if op == 'vec':
            return v.a[0]
        if op == 'slc':
            return self.arith('sub', v.a[2], v.a[1], 'usize')
        if op == 'agg' and v.a[0] == 'array':
            return num(len(v.a) - 2, 'usize')
        if op == 'repeat':
            return v.a[1]
        if op in ('bytes', 'str'):
            return num(len(v.a[0]), 'usize')
        if op == 'filled':
            return self.length(v.a[0])
        t = v.ty
        if isinstance(t, int):
            T = self.P.T[t]
            if T['k'] == 'array' and 'n' in T:
                return num(T['n'], 'usize')
        return mk('len', v, ty='usize')

    # ---------------------------------------------------------------- facts
    def axioms(self, atoms):
        """definitional constraints of compound atoms, transitively"""
        out = []
        splits = []
        seen = set()
        work = list(atoms)
        lows = {}
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            n = node(i)
            lo, hi = self.rng(n)
            if lo is not None and abs(lo) > 2**120:
                lo = None
            lows[i] = lo
            me = (0, ((i, 1),))
            if hi is not None:
                out.append((hi, ((i, -1),)))
            op = n.op
            new = []
            if op == 'div' and n.a[1].op == 'int' and n.a[1].a[0] > 0:
                x = self.lin(n.a[0])
                c = n.a[1].a[0]
                rx = self.rng_of(n.a[0])
                if rx[0] is not None and rx[0] >= 0:
                    new.append(L.ladd(x, me, -c))                       # x - c*q >= 0
                    new.append(L.ladd(L.lscale(me, c), L.ladd((c - 1, ()), x, -1)))  # c*q + c-1 - x >= 0
            elif op == 'div':
                # unsigned quotient never exceeds the dividend
                x = self.lin(n.a[0])
                rx = self.rng_of(n.a[0])
                rd = self.rng_of(n.a[1])
                if rx[0] is not None and rx[0] >= 0 and rd[0] is not None and rd[0] >= 0:
                    new.append(L.ladd(x, me, -1))
            elif op == 'rem' and n.a[1].op == 'int' and n.a[1].a[0] > 0:
                x = self.lin(n.a[0])
                rx = self.rng_of(n.a[0])
                if rx[0] is not None and rx[0] >= 0:
                    new.append(L.ladd(x, me, -1))
                    # x = c*q + r
                    q = mk('div', n.a[0], n.a[1], ty=n.ty)
                    c = n.a[1].a[0]
                    ee = L.ladd(L.ladd(x, me, -1), self.lin(q), -c)
                    new.append(ee)
                    new.append(L.lneg(ee))
            elif op == 'rem':
                rd = self.rng_of(n.a[1])
                rx = self.rng_of(n.a[0])
                if rx[0] is not None and rx[0] >= 0 and rd[0] is not None and rd[0] >= 0:
                    new.append(L.ladd(L.ladd(self.lin(n.a[1]), me, -1), (-1, ())))
                    new.append(L.ladd(self.lin(n.a[0]), me, -1))
            elif op == 'and':
                for q in n.a:
                    rq = self.rng_of(q)
                    if rq[0] is not None and rq[0] >= 0:
                        new.append(L.ladd(self.lin(q), me, -1))
            elif op == 'shr':
                rx = self.rng_of(n.a[0])
                if rx[0] is not None and rx[0] >= 0:
                    if n.a[1].op == 'int':
                        c = 1 << n.a[1].a[0]
                        x = self.lin(n.a[0])
                        new.append(L.ladd(x, me, -c))
                        new.append(L.ladd(L.lscale(me, c), L.ladd((c - 1, ()), x, -1)))
                    else:
                        new.append(L.ladd(self.lin(n.a[0]), me, -1))
            elif op == 'min':
                for q in n.a:
                    new.append(L.ladd(self.lin(q), me, -1))
                splits.append([[L.ladd(me, self.lin(q), -1)] for q in n.a])
            elif op == 'max':
                for q in n.a:
                    new.append(L.ladd(me, self.lin(q), -1))
                splits.append([[L.ladd(self.lin(q), me, -1)] for q in n.a])
            elif op == 'satsub':
                d = L.ladd(self.lin(n.a[0]), self.lin(n.a[1]), -1)
                new.append(L.ladd(me, d, -1))
                splits.append([[L.ladd(d, me, -1)], [L.lneg(me)]])
            elif op == 'sqrtmul':
                pass
            elif op == 'mul':
                # product of two unknowns: monotone bounds when one is bounded by a constant >= 1
                a, b = n.a
                ra, rb = self.rng_of(a), self.rng_of(b)
                if ra[0] is not None and ra[0] >= 0 and rb[0] is not None and rb[0] >= 0:
                    if ra[1] is not None and ra[1] < 2**40:
                        new.append(L.ladd(L.lscale(self.lin(b), ra[1]), me, -1))
                    if rb[1] is not None and rb[1] < 2**40:
                        new.append(L.ladd(L.lscale(self.lin(a), rb[1]), me, -1))
            elif op in ('lt', 'le', 'eq', 'ne') and n.a[0].op != 'str':
                pass
            for e in new:
                out.append(e)
                for j, _ in e[1]:
                    if j not in seen:
                        work.append(j)
            if splits:
                for sp in splits:
                    for br in sp:
                        for e in br:
                            for j, _ in e[1]:
                                if j not in seen:
                                    work.append(j)
        return out, splits, lows

    def relevant(self, st, atoms, extra=()):
        """facts connected to the atoms"""
        facts = list(st.lin.keys()) + list(extra)
        idx = {}
        for k, f in enumerate(facts):
            for i, _ in f[1]:
                idx.setdefault(i, []).append(k)
        seen = set(atoms)
        work = list(atoms)
        take = set()
        while work:
            i = work.pop()
            for k in idx.get(i, ()):
                if k not in take:
                    take.add(k)
                    for j, _ in facts[k][1]:
                        if j not in seen:
                            seen.add(j)
                            work.append(j)
            n = node(i)
            if n.op in ('div', 'rem', 'and', 'shr', 'min', 'max', 'satsub', 'mul'):
                for q in n.a:
                    for j in L.latoms(self.lin(q)):
                        if j not in seen:
                            seen.add(j)
                            work.append(j)
        return [facts[k] for k in sorted(take)], seen

    def infeasible(self, st, extra, deep=True):
        """are the facts of the state together with `extra` (exprs >= 0) contradictory?"""
        atoms = set()
        for e in extra:
            if not e[1] and e[0] < 0:
                return True
            for i, _ in e[1]:
                atoms.add(i)
        if not atoms:
            return False
        if not self.numeric:
            # interval reasoning only
            for e in extra:
                hi = e[0]
                for i, c in e[1]:
                    a, b = self.rng(node(i))
                    q = b if c > 0 else a
                    hi = None if (hi is None or q is None) else hi + c * q
                if hi is not None and hi < 0:
                    return True
            return self._quick(st, extra)
        facts, seen = self.relevant(st, atoms)
        if len(facts) > 60:
            facts = facts[-60:]
        ax, splits, lows = self.axioms(seen | {i for f in facts for i, _ in f[1]})
        cons = list(extra) + facts + ax
        key = (frozenset(cons), tuple(map(str, splits)) if splits else ())
        r = self.lpcache.get(key)
        if r is not None:
            return r
        self.stats['lp'] += 1
        r = self._infeas_split(cons, lows, splits, 0)
        self.lpcache[key] = r
        return r

    def _quick(self, st, extra):
        for e in extra:
            if L.ladd(L.lneg(e), (-1, ())) in st.lin:
                return True
        return False

    def _infeas_split(self, cons, lows, splits, d):
        if not L.feasible(cons, lows):
            return True
        if not splits or d >= 4:
            return False
        sp = splits[0]
        rest = splits[1:]
        for br in sp:
            if not self._infeas_split(cons + br, lows, rest, d + 1):
                return False
        return True

    def entails_ge0(self, st, e):
        if not e[1]:
            return e[0] >= 0
        # type ranges alone
        lo = e[0]
        for i, c in e[1]:
            a, b = self.rng(node(i))
            q = a if c > 0 else b
            if q is None:
                lo = None
                break
            lo += c * q
        if lo is not None and lo >= 0:
            return True
        if e in st.lin:
            return True
        neg = L.ladd(L.lneg(e), (-1, ()))
        return self.infeasible(st, [neg])

    def entails_le(self, st, a, b):
        return self.entails_ge0(st, L.ladd(self.lin(b), self.lin(a), -1))

    def entails_lt(self, st, a, b):
        return self.entails_ge0(st, L.ladd(L.ladd(self.lin(b), self.lin(a), -1), (-1, ())))

    def in_range(self, st, n, ty):
        lo, hi = INT[ty]
        r = self.rng_of(n)
        if r[0] is not None and r[0] >= lo and r[1] is not None and r[1] <= hi:
            return True
        e = self.lin(n)
        return self.entails_ge0(st, L.ladd(e, (-lo, ()))) and self.entails_ge0(st, L.ladd((hi, ()), e, -1))

    def add_ge0(self, st, e):
        """False if contradictory"""
        if not e[1]:
            return e[0] >= 0
        if e in st.lin:
            return True
        # tighten by gcd
        from math import gcd
        g = 0
        for _, c in e[1]:
            g = gcd(g, abs(c))
        if g > 1:
            e = (e[0] // g, tuple((i, c // g) for i, c in e[1]))
        if self.infeasible(st, [e]):
            return False
        st.lin[e] = True
        return True

    def evalcond(self, st, c):
        """True / False / None"""
        op = c.op
        if op == 'int':
            return c.a[0] != 0
        if op == 'not':
            r = self.evalcond(st, c.a[0])
            return None if r is None else (not r)
        if c in st.bools:
            return st.bools[c]
        if op in ('lt', 'le'):
            e = L.ladd(self.lin(c.a[1]), self.lin(c.a[0]), -1)
            if op == 'lt':
                e = L.ladd(e, (-1, ()))
            if self.entails_ge0(st, e):
                return True
            if self.entails_ge0(st, L.ladd(L.lneg(e), (-1, ()))):
                return False
            return None
        if op == 'eq':
            a, b = c.a
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if x.op == 'discr' and y.op == 'int':
                    vs = self.variants(st, x.a[0], x.a[1])
                    if vs is not None:
                        v = self.P.variant_of_discr(x.a[1], y.a[0]) if x.a[1] else y.a[0]
                        if v not in vs:
                            return False
                        if len(vs) == 1:
                            return True
                    return None
            if self.is_int(a) and self.is_int(b):
                e = L.ladd(self.lin(a), self.lin(b), -1)
                if not e[1]:
                    return e[0] == 0
                if self.entails_ge0(st, L.ladd(e, (-1, ()))) or self.entails_ge0(st, L.ladd(L.lneg(e), (-1, ()))):
                    return False
                if self.entails_ge0(st, e) and self.entails_ge0(st, L.lneg(e)):
                    return True
                return None
            if a.op == 'str' and b.op == 'str':
                return a.a[0] == b.a[0]
            return None
        if op == 'ovf':
            return self.eval_ovf(st, c)
        if op == 'isvar':
            vs = self.variants(st, c.a[0], c.a[2])
            if vs is not None:
                if c.a[1] not in vs:
                    return False
                if len(vs) == 1:
                    return True
            return None
        if op == 'b_and':
            x = self.evalcond(st, c.a[0])
            y = self.evalcond(st, c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if op == 'b_or':
            x = self.evalcond(st, c.a[0])
            y = self.evalcond(st, c.a[1])
            if x is True or y is True:
                return True
            if x is False and y is False:
                return False
            return None
        return None

    def is_int(self, n):
        if n.op in ('int', 'len', 'add', 'sub', 'mul', 'div', 'rem', 'min', 'max', 'satsub', 'shr', 'and'):
            return True
        t = n.ty
        if isinstance(t, int):
            t = self.P.T[t]['s']
        return t in INT

    def assume(self, st, c, truth):
        """add the condition; False if contradictory (st is modified in place)"""
        op = c.op
        if op == 'int':
            return (c.a[0] != 0) == truth
        if op == 'not':
            return self.assume(st, c.a[0], not truth)
        if op in ('lt', 'le'):
            e = L.ladd(self.lin(c.a[1]), self.lin(c.a[0]), -1)
            if op == 'lt':
                e = L.ladd(e, (-1, ()))
            if not truth:
                e = L.ladd(L.lneg(e), (-1, ()))
            old = st.bools.get(c)
            if old is not None and old != truth:
                return False
            return self.add_ge0(st, e)
        if op == 'eq':
            a, b = c.a
            for x, y in ((a, b), (b, a)):
                if x.op == 'discr' and y.op == 'int':
                    v = self.P.variant_of_discr(x.a[1], y.a[0]) if x.a[1] else y.a[0]
                    return self.assume_var(st, x.a[0], x.a[1], v, truth)
            if self.is_int(a) and self.is_int(b):
                e = L.ladd(self.lin(a), self.lin(b), -1)
                if truth:
                    if not e[1]:
                        return e[0] == 0
                    return self.add_ge0(st, e) and self.add_ge0(st, L.lneg(e))
                if not e[1]:
                    return e[0] != 0
                # disequality: use it when one side is already known
                if self.entails_ge0(st, e):
                    return self.add_ge0(st, L.ladd(e, (-1, ())))
                if self.entails_ge0(st, L.lneg(e)):
                    return self.add_ge0(st, L.ladd(L.lneg(e), (-1, ())))
                old = st.bools.get(c)
                if old is not None and old != truth:
                    return False
                st.bools[c] = truth
                return True
        if op == 'isvar':
            return self.assume_var(st, c.a[0], c.a[2], c.a[1], truth)
        if op == 'b_and':
            if truth:
                return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
            if self.evalcond(st, c.a[0]) is True:
                return self.assume(st, c.a[1], False)
            if self.evalcond(st, c.a[1]) is True:
                return self.assume(st, c.a[0], False)
        if op == 'b_or':
            if not truth:
                return self.assume(st, c.a[0], False) and self.assume(st, c.a[1], False)
            if self.evalcond(st, c.a[0]) is False:
                return self.assume(st, c.a[1], True)
            if self.evalcond(st, c.a[1]) is False:
                return self.assume(st, c.a[0], True)
        if op == 'ovf':
            r = self.eval_ovf(st, c)
            if r is not None:
                return r == truth
            if not truth:
                return self.assume_noovf(st, c)
        old = st.bools.get(c)
        if old is not None and old != truth:
            return False
        st.bools[c] = truth
        return True

    def eval_ovf(self, st, c):
        opn, a, b, ty = c.a
        if ty not in INT:
            return None
        x = self.arith(opn, a, b)
        if self.in_range(st, x, ty):
            return False
        lo, hi = INT[ty]
        e = self.lin(x)
        if self.entails_ge0(st, L.ladd(e, (-hi - 1, ()))) or self.entails_ge0(st, L.ladd((lo - 1, ()), e, -1)):
            return True
        return None

    def assume_noovf(self, st, c):
        opn, a, b, ty = c.a
        if ty not in INT:
            return True
        x = self.arith(opn, a, b)
        lo, hi = INT[ty]
        e = self.lin(x)
        r = self.rng_of(x)
        okk = True
        if r[0] is None or r[0] < lo:
            okk = okk and self.add_ge0(st, L.ladd(e, (-lo, ())))
        if r[1] is None or r[1] > hi:
            okk = okk and self.add_ge0(st, L.ladd((hi, ()), e, -1))
        return okk

    # ------------------------------------------------------------- variants
    def variants(self, st, v, adt):
        if v.op == 'agg':
            return frozenset((v.a[1],))
        r = st.var.get(v)
        if r is not None:
            return r
        if v.op == 'phi' and False:
            pass
        n = self.P.nvariants(adt) if adt else None
        if v.op == 'phi':
            al = self.alts.get(v)
            if al and all(x.op == 'agg' for x in al):
                return frozenset(x.a[1] for x in al)
        return frozenset(range(n)) if n else None

    def assume_var(self, st, v, adt, variant, truth):
        vs = self.variants(st, v, adt)
        if variant is None:
            return not truth
        if vs is None:
            if truth:
                st.var[v] = frozenset((variant,))
            return True
        n = vs & {variant} if truth else vs - {variant}
        if not n:
            return False
        if v.op != 'agg':
            st.var[v] = n
            # equal-constant comparisons that follow from the variant
        return True

    # ---------------------------------------------------------------- bodies
    def ctx(self, *k):
        i = self.ctxs.get(k)
        if i is None:
            # never reused: joined values of different runs must not be confused
            Engine.nctx += 1
            i = Engine.nctx
            self.ctxs[k] = i
        return i

    def local_ty(self, fr, l):
        return fr.inst['tys'][l]

    def place(self, fr, st, pl):
        root = ('l', fr.id, pl[0])
        path = ()
        variant = 0
        for e in pl[1]:
            if e == '*':
                v = self.read(st, root, path)
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                elif v.op == 'agg' and v.a[0] == 'box':
                    path = path + (('b',),)
                elif v.op == 'cast':
                    root, path = self.target(v)
                else:
                    root, path = ('p', v), ()
                variant = 0
            else:
                k = e[0]
                if k == 'f':
                    path = path + (('f', variant, e[1], self.scalar(e[2])),)
                    variant = 0
                elif k == 'd':
                    variant = e[1]
                elif k == 'i':
                    idx = self.read(st, ('l', fr.id, e[1]), ())
                    path = path + (('i', idx),)
                elif k == 'ci':
                    if e[3]:
                        ln = self.length(self.read(st, root, path))
                        idx = self.arith('sub', ln, num(e[1]), 'usize')
                    else:
                        idx = num(e[1], 'usize')
                    path = path + (('i', idx),)
                elif k == 'ss':
                    c = self.read(st, root, path)
                    if e[3]:
                        b = self.arith('sub', self.length(c), num(e[2]), 'usize')
                    else:
                        b = num(e[2], 'usize')
                    path = path + (('s', num(e[1], 'usize'), b),)
        return root, path

    def place_ty(self, fr, pl):
        t = fr.inst['tys'][pl[0]]
        T = self.P.T
        for e in pl[1]:
            if e == '*':
                t = T[t]['a'][0] if T[t].get('a') else t
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = T[t]['a'][0] if T[t].get('a') else t
        return t

    def const(self, c, tid):
        """value of a dumped constant"""
        k = c[0]
        if k == 'int':
            return num(c[1], self.scalar(tid) if tid is not None else None)
        if k == 'named':
            return self.const(c[2], tid)
        if k == 'str':
            n = mk('str', c[1])
            return self.ref(('k', mk('str', c[1])), ())
        if k == 'bytes':
            return mk('bytes', tuple(c[1]))
        if k == 'ref':
            inner = None
            if tid is not None:
                T = self.P.T[tid]
                inner = T['a'][0] if T.get('a') else None
            v = self.const(c[1], inner)
            return self.ref(('k', v), ())
        if k == 'agg':
            T = self.P.T[tid] if tid is not None else {'k': '?'}
            if T['k'] == 'adt':
                kind = T['p']
            elif T['k'] == 'array':
                kind = 'array'
            else:
                kind = 'tuple'
            fts = [None] * len(c[2])
            if T['k'] == 'tuple':
                fts = T['a']
            elif T['k'] == 'array':
                fts = [T['a'][0]] * len(c[2])
            if T['k'] == 'adt' and T['p'] in (OPT, RES) and len(c[2]) == 1 and T['a']:
                fts = [T['a'][0 if T['p'] == OPT else c[1]]]
            return agg(kind, c[1], *[self.const(x, t) for x, t in zip(c[2], fts)])
        if k == 'fn':
            return mk('fn', FnBox(c[1]))
        if k == 'zst':
            if tid is not None:
                T = self.P.T[tid]
                if T['k'] == 'closure':
                    return agg('closure', tid)
                if T['k'] == 'adt':
                    return agg(T['p'], 0)
                if T['k'] == 'tuple':
                    return UNIT
            return agg('zst', tid)
        if k == 'float':
            return mk('float', c[1])
        if k == 'static':
            return mk('static', c[1])
        return mk('konst', json.dumps(c), ty=tid)

    def operand(self, fr, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            r, p = self.place(fr, st, o[1])
            return self.read(st, r, p)
        if k == 'k':
            v = self.const(o[2], o[1])
            if v.op == 'ref' and v.a[0][0] == 'k' and v.a[0] not in st.mem:
                st.mem[v.a[0]] = v.a[0][1]
            return v
        if k == 'v':
            return o[1]
        if k == 'rc':
            return FALSE
        raise Exception(o)

    def operand_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]
        return None

    def adt_of(self, tid):
        T = self.P.T[tid]
        return T['p'] if T['k'] == 'adt' else None

    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            r, p = self.place(fr, st, rv[2])
            return self.ref(r, p, ty=dty)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == 'adt':
                return agg(kk[1], kk[2], *ops)
            if kk[0] in ('closure', 'coroutine'):
                return agg('closure', kk[2], *ops)
            if kk[0] == 'array':
                return agg('array', 0, *ops)
            if kk[0] == 'rawptr':
                return ops[0]
            return agg('tuple', 0, *ops)
        if k == 'discr':
            r, p = self.place(fr, st, rv[1])
            v = self.read(st, r, p)
            adt = self.adt_of(self.place_ty(fr, rv[1]))
            return self.discr(v, adt)
        if k == 'bin':
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            t = self.operand_ty(fr, rv[2])
            tn = self.P.T[t]['s'] if t is not None else None
            return self.binop(st, rv[1], a, b, tn)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            t = self.operand_ty(fr, rv[2])
            tn = self.P.T[t]['s'] if t is not None else None
            if rv[1] == 'Not':
                if tn == 'bool':
                    return self.bnot(a)
                if a.op == 'int' and tn in INT:
                    if INT[tn][0] == 0:
                        return num(INT[tn][1] - a.a[0], tn)
                    return num(-a.a[0] - 1, tn)
                return mk('bitnot', a, ty=tn)
            if rv[1] == 'Neg':
                if a.op == 'int':
                    return num(-a.a[0], tn)
                return mk('neg', a, ty=tn) if tn in INT else mk('fneg', a, ty=tn)
            if rv[1] == 'PtrMetadata':
                return self.length(self.content(st, a))
            return mk('un', rv[1], a)
        if k == 'cast':
            a = self.operand(fr, st, rv[2])
            kind = rv[1]
            if kind == 'IntToInt':
                ft = self.operand_ty(fr, rv[2])
                fn = self.P.T[ft]['s']
                if self.P.T[ft]['k'] == 'adt':
                    a = self.discr(a, self.P.T[ft]['p'])
                return self.int_cast(st, a, fn, self.P.T[rv[3]]['s'])
            if kind.startswith("PointerCoercion(Unsize") and hasattr(self.client, "on_unsize"):
                self.client.on_unsize(self, st, fr, a, self.operand_ty(fr, rv[2]), rv[3])
            if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Subtype', 'BoxDerefTransmute'):
                return a
            if kind == 'Transmute':
                # newtype / pointer transmutes of std keep the value
                return a
            return mk('cast', a, kind, ty=self.scalar(rv[3]))
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            if isinstance(rv[2], int):
                return mk('vec', num(rv[2], 'usize'), v, ty=dty)
            return mk('repeat', v, mk('sym', rv[2], ty='usize'))
        if k == 'tls':
            return mk('tls', rv[1])
        return mk('opaque', json.dumps(rv)[:200])

    def bnot(self, a):
        if a.op == 'int':
            return FALSE if a.a[0] else TRUE
        if a.op == 'not':
            return a.a[0]
        if a.op == 'lt':
            return mk('le', a.a[1], a.a[0], ty='bool')
        if a.op == 'le':
            return mk('lt', a.a[1], a.a[0], ty='bool')
        return mk('not', a, ty='bool')

    def discr(self, v, adt):
        if v.op == 'agg' and isinstance(v.a[1], int):
            return num(self.P.discr_of_variant(adt, v.a[1]) if adt else v.a[1])
        return mk('discr', v, adt)

    def int_cast(self, st, a, fn, tn):
        if tn not in INT or fn not in INT:
            return mk('cast', a, tn, ty=tn)
        if a.op == 'int':
            n = BITS.get(tn, 8)
            x = a.a[0] & ((1 << n) - 1)
            if INT[tn][0] < 0 and x >= (1 << (n - 1)):
                x -= (1 << n)
            return num(x, tn)
        f, t = INT[fn], INT[tn]
        if fn == 'bool':
            return a
        if f[0] >= t[0] and f[1] <= t[1]:
            return a
        if self.in_range(st, a, tn):
            return a
        return mk('cast', a, tn, ty=tn)

    def cmp(self, op, a, b):
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y}[op]
            return TRUE if r else FALSE
        if op == 'ne':
            return self.bnot(self.cmp('eq', a, b))
        if a is b:
            return TRUE if op in ('eq', 'le') else FALSE
        if op == 'eq':
            # canonical order
            if a.op == 'int' or (b.op != 'int' and a.id > b.id):
                a, b = b, a
            if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and isinstance(a.a[1], int) and isinstance(b.a[1], int) and a.a[1] != b.a[1]:
                return FALSE
            # bool == const
            if b.op == 'int' and a.ty == 'bool':
                return a if b.a[0] else self.bnot(a)
        return mk(op, a, b, ty='bool')

    def binop(self, st, op, a, b, tn):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Eq':
                return self.cmp('eq', a, b)
            if op == 'Ne':
                return self.cmp('ne', a, b)
            if tn not in INT and tn not in ('()',):
                # floats and pointers: keep the comparison opaque but oriented
                if op == 'Gt':
                    return mk('flt', b, a, ty='bool')
                if op == 'Ge':
                    return mk('fle', b, a, ty='bool')
                return mk('flt' if op == 'Lt' else 'fle', a, b, ty='bool')
            if op == 'Lt':
                return self.cmp('lt', a, b)
            if op == 'Le':
                return self.cmp('le', a, b)
            if op == 'Gt':
                return self.cmp('lt', b, a)
            return self.cmp('le', b, a)
        if op == 'Cmp':
            return mk('cmp', a, b)
        if op.endswith('WithOverflow'):
            o = {'A': 'add', 'S': 'sub', 'M': 'mul'}[op[0]]
            x = self.arith(o, a, b, tn)
            if x.op == 'int':
                lo, hi = INT.get(tn, (None, None))
                if lo is not None and not (lo <= x.a[0] <= hi):
                    return agg('tuple', 0, mk('wrap', x, tn, ty=tn), TRUE)
                return agg('tuple', 0, x, FALSE)
            if self.in_range(st, x, tn):
                return agg('tuple', 0, x, FALSE)
            return agg('tuple', 0, x, mk('ovf', o, a, b, tn, ty='bool'))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            o = {'A': 'add', 'S': 'sub', 'M': 'mul'}[op[0]]
            if tn in INT:
                x = self.arith(o, a, b, tn)
                if op.endswith('Unchecked') or self.in_range(st, x, tn):
                    return x
                return mk('wrap', x, tn, ty=tn)
            return mk('f' + o, a, b, ty=tn)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if tn == 'bool':
                if op == 'BitAnd':
                    if a.op == 'int':
                        return b if a.a[0] else FALSE
                    if b.op == 'int':
                        return a if b.a[0] else FALSE
                    return mk('b_and', a, b, ty='bool')
                if op == 'BitOr':
                    if a.op == 'int':
                        return TRUE if a.a[0] else b
                    if b.op == 'int':
                        return TRUE if b.a[0] else a
                    return mk('b_or', a, b, ty='bool')
                return mk('b_xor', a, b, ty='bool')
            if a.op == 'int' and b.op == 'int' and tn in INT:
                m = (1 << BITS.get(tn, 64)) - 1
                x, y = a.a[0] & m, b.a[0] & m
                r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
                if INT[tn][0] < 0 and r >= (1 << (BITS[tn] - 1)):
                    r -= (1 << BITS[tn])
                return num(r, tn)
            if a.id > b.id:
                a, b = b, a
            return mk({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b, ty=tn)
        if op in ('Div', 'Rem'):
            if a.op == 'int' and b.op == 'int' and b.a[0] != 0:
                x, y = a.a[0], b.a[0]
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return num(q if op == 'Div' else x - q * y, tn)
            if b.op == 'int' and b.a[0] == 1:
                return a if op == 'Div' else num(0, tn)
            if tn in INT:
                return mk('div' if op == 'Div' else 'rem', a, b, ty=tn)
            return mk('fdiv', a, b, ty=tn)
        if op in ('Shl', 'ShlUnchecked'):
            if b.op == 'int' and tn in INT:
                if a.op == 'int':
                    n = BITS[tn]
                    x = (a.a[0] << (b.a[0] % n)) & ((1 << n) - 1)
                    if INT[tn][0] < 0 and x >= (1 << (n - 1)):
                        x -= (1 << n)
                    return num(x, tn)
                if 0 <= b.a[0] < BITS[tn]:
                    x = self.arith('mul', a, num(1 << b.a[0]), tn)
                    if self.in_range(st, x, tn):
                        return x
            return mk('shl', a, b, ty=tn)
        if op in ('Shr', 'ShrUnchecked'):
            if a.op == 'int' and b.op == 'int':
                return num(a.a[0] >> b.a[0], tn)
            return mk('shr', a, b, ty=tn)
        if op == 'Offset':
            return mk('offset', a, b)
        return mk('bin', op, a, b, ty=tn)

    # ------------------------------------------------------------- execution
    def shape(self, st, v, d=0):
        if v.op == 'agg':
            kind = v.a[0]
            if isinstance(kind, str) and self.P.is_enum(kind):
                if d >= 2:
                    return v.a[1]
                return (v.a[1],) + tuple(self.shape(st, x, d + 1) for x in v.a[2:])
            if kind == 'tuple' and d < 1:
                return ('t',) + tuple(self.shape(st, x, d + 1) for x in v.a[2:])
            if kind == 'closure':
                return ('c', v.a[1])
            return None
        if v.op == 'int' and v.ty == 'bool':
            return 'T' if v.a[0] else 'F'
        r = st.var.get(v)
        if r is not None and len(r) == 1:
            return next(iter(r))
        return None

    def pkey(self, fr, st, b):
        ks = []
        live = fr.prep.live[b]
        for l in sorted(fr.prep.enumish):
            if l in live or l in fr.prep.addr:
                v = st.mem.get(('l', fr.id, l))
                if v is not None and v.op != 'uninit':
                    s = self.shape(st, v)
                    if s == (1, 'T') or s == (1, 'F'):
                        # 0 and 1 are told apart where they are booleans
                        t = self.P.tys(fr.inst['tys'][l])
                        if t.endswith('>') and t[t.find('<') + 1:-1] in INT and t[t.find('<') + 1:-1] != 'bool':
                            s = (1, None)
                    if s is not None:
                        ks.append((l, s))
        return (tuple(ks), st.mon, self.watch(st))

    def watch(self, st):
        if self.client is not None and hasattr(self.client, 'watch'):
            return self.client.watch(self, st)
        return ()

    def coarse(self, st, key):
        return (('coarse',), st.mon, key[2])

    def push_frame(self, inst, parent, callsite, depth):
        fid = self.ctx(parent.id if parent else None, callsite, inst['id'])
        return Frame(fid, inst, self.P.prep(inst), depth, parent, callsite)

    def run(self, inst, args=None, st=None, argnames=None):
        """analyse a root; returns (exits [(state, ret)], events, frame)"""
        st = st or State()
        fr = self.push_frame(inst, None, 'root', 0)
        if args is None:
            args = [self.param(inst, i) for i in range(1, inst['argc'] + 1)]
        for i, a in enumerate(args):
            if a.op == 'sym' and a.ty is None:
                a.ty = self.scalar(inst['tys'][i + 1])
            st.mem[('l', fr.id, i + 1)] = a
        ev = []
        ex = self.exec_body(fr, st, ev)
        return ex, ev, fr

    def param(self, inst, i, name=None):
        t = inst['tys'][i]
        return mk('sym', name or 'p%d' % i, ty=self.scalar(t))

    def exec_body(self, fr, st0, ev_out):
        inst = fr.inst
        self.stack.append(inst['id'])
        self.stats['inlined'].add(inst['id'])
        try:
            return self._exec_body(fr, st0, ev_out)
        finally:
            self.stack.pop()

    def _exec_body(self, fr, st0, ev_out):
        B = fr.inst['b']
        prep = fr.prep
        inc = {}        # (block,key) -> {edge: State}
        cur = {}        # (block,key) -> joined State
        sticky = {}     # (block,key) -> set of (root,path) forced to phi
        events = {}     # (block,key) -> [events]
        exits = {}      # (block,key) -> [(State, ret)]
        edges_from = {}
        rounds = {}
        npart = {}
        seqn = [0]
        wl = []
        inq = set()

        on_back = getattr(self.client, 'on_back', None)

        def arrive(src, cnt, b, st):
            # drop dead locals
            live = prep.live[b]
            mem = st.mem
            dead = [r for r in mem if r[0] == 'l' and r[1] == fr.id and r[2] not in live and r[2] not in prep.addr]
            if dead:
                for r in dead:
                    del mem[r]
            if on_back is not None and b in prep.heads and src != 'entry' and prep.rpo.get(src[0], 0) >= prep.rpo.get(b, 0):
                on_back(self, st)
            key = self.pkey(fr, st, b)
            ks = npart.setdefault(b, {})
            if key not in ks:
                if len(ks) >= self.max_part:
                    key = self.coarse(st, key)
                ks[key] = 1
            bk = (b, key)
            d = inc.setdefault(bk, {})
            n = cnt[bk] = cnt.get(bk, -1) + 1
            e = (src, n)
            old = d.get(e)
            if old is not None and old.same(st):
                return
            d[e] = st
            if bk not in inq:
                inq.add(bk)
                seqn[0] += 1
                heapq.heappush(wl, (prep.rpo.get(b, 10**6), seqn[0], bk))

        arrive('entry', {}, 0, st0)
        while wl:
            _, _, bk = heapq.heappop(wl)
            inq.discard(bk)
            b, key = bk
            d = inc[bk]
            if len(d) == 1 and bk not in sticky:
                new = next(iter(d.values())).copy()
            else:
                new = self.join(fr, bk, list(d.values()), sticky.setdefault(bk, set()), b in prep.heads, rounds.setdefault(bk, [0]))
            o = cur.get(bk)
            if o is not None and o.same(new):
                continue
            cur[bk] = new
            self.steps += 1
            self.stats['blocks'] += 1
            if self.budget is not None and self.steps > self.budget:
                raise TooBig(fr.inst['p'])
            evs = []
            st = new.copy()
            succ, ret = self.exec_block(fr, b, st, evs, bk)
            events[bk] = evs
            exits[bk] = ret
            cnt = {}
            for (s, stt) in succ:
                arrive(bk, cnt, s, stt)
        for bk in events:
            ev_out.extend(events[bk])
        res = []
        for bk in exits:
            res.extend(exits[bk])
        if fr.parent is None:
            return res
        return self.merge_exits(fr, res)

    def merge_exits(self, fr, res):
        """join the exit states of a callee by the shape of the returned value"""
        groups = {}
        for st, ret in res:
            for r in [r for r in st.mem if r[0] == 'l' and r[1] == fr.id]:
                del st.mem[r]
            k = (self.shape(st, ret), st.mon, self.watch(st))
            groups.setdefault(k, []).append((st, ret))
        out = []
        for n, (k, l) in enumerate(groups.items()):
            if len(l) == 1:
                out.append(l[0])
                continue
            RR = ('l', fr.id, 'ret')
            ss = []
            for st, ret in l:
                st.mem[RR] = ret
                ss.append(st)
            j = self.join(fr, ('exit', k), ss, set(), False, [0])
            ret = j.mem.pop(RR)
            out.append((j, ret))
        return out

    def phi(self, fr, bk, root, path, vals):
        n = mk('phi', fr.id, bk, root, path)
        al = self.alts.setdefault(n, {})
        for v in vals:
            if v is not n and v not in al:
                al[v] = 1
        if n.ty is None:
            # (the type noted on a constant is that of its first use)
            for v in vals:
                if v.op == 'int':
                    continue
                if v.ty is not None:
                    n.ty = v.ty
                    break
                if v.op in ('lt', 'le', 'eq', 'not'):
                    n.ty = 'bool'
            if n.ty is None and root[0] == 'l' and root[1] == fr.id and not path and isinstance(root[2], int) and root[2] < len(fr.inst['tys']):
                n.ty = self.scalar(fr.inst['tys'][root[2]])
            if n.ty is None and path:
                k = path[-1]
                if k[0] == 'len':
                    n.ty = 'usize'
                elif k[0] == 'f' and len(k) > 3 and isinstance(k[3], (int, str)):
                    n.ty = self.scalar(k[3]) if isinstance(k[3], int) else k[3]
            if n.ty is None and root[0] != 'm' and vals and all(v.op == 'int' for v in vals):
                n.ty = 'i128'
        # normalise an id type that is a scalar
        return n

    def joinval(self, fr, bk, root, path, vals, sticky, headphis, phis):
        v0 = vals[0]
        same = all(v is v0 for v in vals)
        pk = (root, path)
        if same and pk not in sticky:
            if not (v0.phis and headphis and (v0.phis & headphis)):
                return v0
            if v0.op == 'phi' and v0.id in headphis and v0.a[2] == root and v0.a[3] == path:
                phis[v0] = vals
                return v0
        # structural join
        if pk not in sticky and len(path) < 6:
            if all(v.op == 'agg' and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a) == len(v0.a) for v in vals):
                if not (v0.a[0] == 'array' and len(v0.a) > 18):
                    f = [self.joinval(fr, bk, root, path + (('f', v0.a[1], i - 2),), [v.a[i] for v in vals], sticky, headphis, phis)
                         for i in range(2, len(v0.a))]
                    return mk('agg', v0.a[0], v0.a[1], *f)
            if all(v.op in ('rec',) or v is (v0.a[0] if v0.op == 'rec' else v0) for v in vals) or \
               (any(v.op == 'rec' for v in vals)):
                base = None
                okk = True
                for v in vals:
                    bb = v.a[0] if v.op == 'rec' else v
                    if base is None:
                        base = bb
                    elif base is not bb:
                        okk = False
                if okk and base.op not in ('agg', 'uninit') and not (base.phis and headphis and base.phis & headphis):
                    keys = set()
                    for v in vals:
                        if v.op == 'rec':
                            for i in range(1, len(v.a), 2):
                                keys.add(v.a[i])
                    flat = []
                    for q in sorted(keys):
                        xs = [self.getk(v, ('f', q[0], q[1])) for v in vals]
                        ty = next((x.ty for x in xs if x.ty is not None), None)
                        j = self.joinval(fr, bk, root, path + (('f', q[0], q[1]),), xs, sticky, headphis, phis)
                        if j.ty is None:
                            j.ty = ty
                        flat += [q, j]
                    return mk('rec', base, *flat, ty=base.ty)
            if v0.op == 'ref' and all(v.op == 'ref' and v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) and
                                      all(x == y or x[0] == y[0] == 'i' for x, y in zip(v.a[1], v0.a[1])) for v in vals):
                # references to elements of one collection
                keys = []
                for k, x in enumerate(v0.a[1]):
                    if x[0] == 'i':
                        j = self.joinval(fr, bk, root, path + (('ri', k),), [v.a[1][k][1] for v in vals], sticky, headphis, phis)
                        if j.ty is None:
                            j.ty = 'usize'
                        x = ('i', j)
                    keys.append(x)
                return mk('ref', v0.a[0], tuple(keys), ty=v0.ty)
            if any(v.op == 'vec' or v.op == 'agg' and v.a[0] == 'array' for v in vals) and all(v.op == 'vec' or v.op == 'agg' and v.a[0] == 'array' for v in vals):
                # collections of different lengths
                vals = [v if v.op == 'vec' else mk('vec', num(len(v.a) - 2, 'usize'), self.anyofs(v.a[2:]), ty=v.ty) for v in vals]
                v0 = vals[0]
                ln = self.joinval(fr, bk, root, path + (('len',),), [v.a[0] for v in vals], sticky, headphis, phis)
                el = None
                for v in vals:
                    el = self.anyof(el, v.a[1]) if el is not None else v.a[1]
                if el.op != 'int':
                    el = self.joinval(fr, bk, root, path + (('el',),), [v.a[1] for v in vals], sticky, headphis, phis)
                return mk('vec', ln, el, ty=v0.ty)
        sticky.add(pk)
        # places that receive the same values share one phi (value numbering), until they differ
        vk = tuple(v.id for v in vals)
        p = self._share.get(vk)
        if p is None or (pk, 'own') in sticky:
            sticky.add((pk, 'own'))
            p = self.phi(fr, bk, root, path, vals)
            self._share.setdefault(vk, p)
        phis[p] = vals
        return p

    def join(self, fr, bk, sts, sticky, is_head, rounds):
        s0 = sts[0]
        out = State()
        out.mon = s0.mon
        headphis = frozenset(n.id for n in self.alts if n.a[0] == fr.id and n.a[1] == bk) if is_head else frozenset()
        phis = {}
        self._share = {}
        roots = {}
        for s in sts:
            for r in s.mem:
                # what a pointer that is rebound here pointed to before says nothing about it now
                if headphis and r[0] == 'p' and (r[1].id in headphis or r[1].phis and r[1].phis & headphis):
                    continue
                roots[r] = 1
        for r in roots:
            if r[0] in ('l', 'm') and not all(r in s.mem for s in sts):
                # absent on one side: dead or uninitialised there
                if r[0] == 'm':
                    vals = [s.mem.get(r, mk('uninit')) for s in sts]
                else:
                    continue
            else:
                vals = [s.mem[r] if r in s.mem else self.default(r) for s in sts]
            out.mem[r] = self.joinval(fr, bk, r, (), vals, sticky, headphis, phis)
        allphi = headphis | frozenset(p.id for p in phis)
        # variants: union of what is possible
        for v, vs in s0.var.items():
            if v.phis and allphi and v.phis & allphi:
                continue
            u = vs
            for s in sts[1:]:
                w = s.var.get(v)
                if w is None:
                    u = None
                    break
                u = u | w
            if u is not None:
                out.var[v] = u
        for p, vals in phis.items():
            if p.ty is not None and isinstance(p.ty, int):
                a = self.adt_of(p.ty)
            else:
                a = None
            u = frozenset()
            for s, v in zip(sts, vals):
                w = s.var.get(v)
                if v.op == 'agg' and isinstance(v.a[1], int) and isinstance(v.a[0], str):
                    w = frozenset((v.a[1],))
                if w is None:
                    u = None
                    break
                u = u | w
            if u is not None:
                out.var[p] = u
        for c, t in s0.bools.items():
            if c.phis and allphi and c.phis & allphi:
                continue
            if all(s.bools.get(c) == t for s in sts[1:]):
                out.bools[c] = t
        if self.numeric:
            self.join_lin(sts, phis, allphi, out, is_head, rounds)
        else:
            for e in s0.lin:
                if all(e in s.lin for s in sts[1:]) and not self.mentions(e, allphi):
                    out.lin[e] = True
        return out

    def mentions(self, e, ph):
        if not ph:
            return False
        for i, _ in e[1]:
            p = node(i).phis
            if p and p & ph:
                return True
        return False

    def join_lin(self, sts, phis, allphi, out, is_head, rounds):
        ip = []
        subs = [{} for _ in sts]
        value = {}
        for p in phis:
            if self.intlike(p, phis[p]):
                ip.append(p)
                value[p] = phis[p]
            else:
                t, vs = self.lenterm(p, phis[p], sts)
                if t is not None and t not in value:
                    ip.append(t)
                    value[t] = vs
        for k, s in enumerate(sts):
            for p in ip:
                subs[k][p.id] = self.lin(value[p][k])
        cands = {}
        rounds[0] += 1
        widen = rounds[0] > 4

        def nested(e):
            for i, _ in e[1]:
                n = node(i)
                if n in ipset:
                    continue
                if n.phis and n.phis & allphi or n in phis:
                    return True
            return False
        ipset = set(ip)
        # facts common to all, not about phis
        for e in sts[0].lin:
            if not self.mentions(e, allphi):
                cands[e] = 1
        if not is_head or len(sts) > 1:
            for s in sts[1:]:
                for e in s.lin:
                    if not self.mentions(e, allphi):
                        cands[e] = 1
        # equalities that follow by eliminating a value only one of the states knows about
        if len(sts) > 1:
            known = [frozenset(i for e in s.lin for i, _ in e[1]) for s in sts]
            for k, s in enumerate(sts):
                eqs = {}
                for e in s.lin:
                    if len(e[1]) == 2 and e[1][0][1] + e[1][1][1] == 0 and abs(e[1][0][1]) == 1 and (-e[0], tuple((i, -c) for i, c in e[1])) in s.lin:
                        for z, c in e[1]:
                            if c == 1:
                                eqs.setdefault(z, {})[e] = 1
                for z, es in eqs.items():
                    if len(es) < 2 or all(z in y for y in known) and not self.mentions((0, ((z, 1),)), allphi):
                        continue
                    es = list(es)[:6]
                    for x in range(len(es)):
                        for y in range(x + 1, len(es)):
                            e = L.ladd(es[x], es[y], -1)
                            if e[1] and not self.mentions(e, allphi):
                                cands[e] = 1
                                cands[(-e[0], tuple((i, -c) for i, c in e[1]))] = 1
        # facts about the values that became phis
        for k, s in enumerate(sts):
            for p in ip:
                v = value[p][k]
                le = self.lin(v)
                # single-atom value: c*x + d  with c = +-1
                if len(le[1]) == 1 and le[1][0][1] == 1:
                    a = le[1][0][0]
                    repl = {a: L.ladd((0, ((p.id, 1),)), (-le[0], ()))}
                    for e in s.lin:
                        if any(i == a for i, _ in e[1]):
                            c = L.lsubst(e, repl)
                            if not nested(c):
                                cands[c] = 1
                    cands[L.ladd((0, ((p.id, 1),)), le, -1)] = 1
                    cands[L.ladd(le, (0, ((p.id, 1),)), -1)] = 1
                elif not le[1]:
                    cands[(-le[0], ((p.id, 1),))] = 1
                    cands[(le[0], ((p.id, -1),))] = 1
                else:
                    cands[L.ladd((0, ((p.id, 1),)), le, -1)] = 1
                    cands[L.ladd(le, (0, ((p.id, 1),)), -1)] = 1
        for k, s in enumerate(sts):
            repl = {}
            for p in ip:
                le = self.lin(value[p][k])
                if len(le[1]) == 1 and le[1][0][1] == 1 and le[1][0][0] not in repl:
                    repl[le[1][0][0]] = L.ladd((0, ((p.id, 1),)), (-le[0], ()))
            if len(repl) > 1:
                for e in s.lin:
                    if sum(1 for i, _ in e[1] if i in repl) > 1:
                        c = L.lsubst(e, repl)
                        if not nested(c):
                            cands[c] = 1
        # differences between phis that move together
        for x in range(len(ip)):
            for y in range(x + 1, len(ip)):
                ds = [L.ladd(sb[ip[x].id], sb[ip[y].id], -1) for sb in subs]
                if all(d == ds[0] for d in ds):
                    e = L.ladd(L.ladd((0, ((ip[x].id, 1),)), (0, ((ip[y].id, 1),)), -1), ds[0], -1)
                    cands[e] = 1
                    cands[L.lneg(e)] = 1
                else:
                    # proportional counters: x = k*y + c
                    e = self.prop(ip[x], ip[y], [(sb[ip[x].id], sb[ip[y].id]) for sb in subs])
                    if e:
                        cands[e] = 1
                        cands[L.lneg(e)] = 1
                    if any(q.op == 'phi' and q.a[2][0] == 'm' for q in (ip[x], ip[y])):
                        # what one gains the other loses, or both gain the same
                        for sb in subs[:1] if is_head else subs:
                            for k in (1, -1):
                                e = L.ladd((0, ((ip[x].id, 1),)), (0, ((ip[y].id, 1),)), k)
                                e = L.ladd(e, L.ladd(sb[ip[x].id], sb[ip[y].id], k), -1)
                                cands[e] = 1
                                cands[L.lneg(e)] = 1
        if widen:
            keep = getattr(self, '_prevc', {}).get((id(rounds)), None)
            if keep is not None:
                cands = {c: 1 for c in cands if c in keep}
        res = {}
        for c in cands:
            if nested(c):
                continue
            if not c[1]:
                continue
            okk = True
            for k, s in enumerate(sts):
                g = L.lsubst(c, subs[k])
                if not self.entails_ge0(s, g):
                    okk = False
                    break
            if okk:
                res[c] = True
        if not hasattr(self, '_prevc'):
            self._prevc = {}
            self._keep = []
        self._prevc[id(rounds)] = res
        self._keep.append(rounds)
        # prune facts implied by type ranges
        for c in res:
            lo = c[0]
            for i, k in c[1]:
                a, b = self.rng(node(i))
                q = a if k > 0 else b
                if q is None:
                    lo = None
                    break
                lo += k * q
            if lo is not None and lo >= 0:
                continue
            out.lin[c] = True

    def lenterm(self, p, vals, sts):
        """the length of what a joined collection (or a joined reference to one) holds"""
        t = p.ty
        if not isinstance(t, int):
            return None, None
        T = self.P.T[t]
        byref = T['k'] == 'ref'
        if byref:
            T = self.P.T[T['a'][0]]
        if not (T['k'] in ('slice', 'str') or T['k'] == 'adt' and T['p'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'alloc::string::String')):
            return None, None
        if any(v.op in ('uninit', 'undef', 'anyof') for v in vals):
            return None, None
        if byref:
            term = self.length(self.default(('p', p)))
            vs = [self.length(self.content(s, v)) if v is not p else term for s, v in zip(sts, vals)]
        else:
            term = self.length(p)
            vs = [self.length(v) for v in vals]
        if term.op != 'len':
            return None, None
        return term, vs

    def prop(self, px, py, vals):
        """x - x0 = k*(y - y0) from the first and the last incoming values"""
        if len(vals) != 2:
            return None
        (x0, y0), (x1, y1) = vals
        # incoming values may be expressed over the phis themselves: x1 = px + a, y1 = py + b
        dx = L.ladd(x1, (0, ((px.id, 1),)), -1)
        dy = L.ladd(y1, (0, ((py.id, 1),)), -1)
        if dx[1] or dy[1] or dy[0] == 0 or dx[0] % dy[0]:
            return None
        k = dx[0] // dy[0]
        # x - x0 - k*(y - y0)
        e = L.ladd(L.ladd((0, ((px.id, 1),)), x0, -1), L.ladd((0, ((py.id, 1),)), y0, -1), -k)
        return e

    def intlike(self, p, vals):
        t = p.ty
        if isinstance(t, int):
            t = self.P.T[t]['s']
        if t in INT and t != 'bool':
            if p.ty != t:
                p.ty = t
                p.rng = None
            return True
        if p.a[2][0] == 'm' and p.ty is None and any(v.op == 'int' for v in vals):
            p.ty = 'usize'
            p.rng = None
            return True
        for v in vals:
            if v.op in ('len', 'add', 'sub'):
                return True
            if v.op == 'int' and v.ty in INT and v.ty != 'bool':
                p.ty = v.ty
                p.rng = None
                return True
        return False

    def exec_block(self, fr, b, st, ev, bk):
        stmts, t, line, cleanup = fr.inst['b'][b]
        for s in stmts:
            k = s[0]
            if k == '=':
                dty = self.place_ty(fr, s[1]) if not s[1][1] else None
                v = self.rvalue(fr, st, s[2], dty)
                if v.ty is None and not s[1][1] and v.op not in ('agg', 'int'):
                    v.ty = self.scalar(dty)
                r, p = self.place(fr, st, s[1])
                if self.client is not None and hasattr(self.client, 'on_assign'):
                    self.client.on_assign(self, st, fr, r, p, v, s, ev)
                self.write(st, r, p, v)
            elif k == 'sd':
                r, p = self.place(fr, st, s[1])
                v = self.read(st, r, p)
                adt = self.adt_of(self.place_ty(fr, s[1]))
                self.write(st, r, p, agg(adt, s[2]))
            elif k == 'dead':
                st.mem.pop(('l', fr.id, s[1]), None)
        k = t[0]
        if k == 'goto':
            return [(t[1], st)], []
        if k == 'drop':
            if self.client is not None and hasattr(self.client, 'on_drop'):
                self.client.on_drop(self, st, fr, t, line, ev)
            return [(t[2], st)], []
        if k == 'ret':
            r = st.mem.get(('l', fr.id, 0), UNIT)
            return [], [(st, r)]
        if k in ('unreach', 'unwind', 'asm'):
            return [], []
        if k == 'switch':
            return self.switch(fr, st, t), []
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            want = t[2]
            val = self.evalcond(st, c)
            if self.client is not None and hasattr(self.client, 'on_assert'):
                self.client.on_assert(self, st, fr, t, c, val, line, ev)
            if val is None or val != want:
                ev.append(Event('assert', (t[3][0], c, val), st.copy(), fr, line))
            if val is not None:
                return ([(t[4], st)] if val == want else []), []
            if not self.assume(st, c, want):
                return [], []
            return [(t[4], st)], []
        if k == 'yield':
            r, p = self.place(fr, st, t[3])
            self.write(st, r, p, mk('sym', 'resume'))
            return [(t[2], st)], []
        if k == 'call':
            return self.call(fr, st, t, line, ev, b), []
        if k == 'py':
            return t[1](self, fr, st, ev), []
        return [], []

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        out = []
        if v.op == 'int':
            for val, tg in t[2]:
                if val == v.a[0]:
                    return [(tg, st)]
            return [(t[3], st)]
        tn = self.P.T[t[4]]['s']
        if tn == 'bool':
            # targets: 0 -> false
            val = self.evalcond(st, v)
            f = None
            for x, tg in t[2]:
                if x == 0:
                    f = tg
            tt = t[3]
            if f is None:
                f, tt = t[3], t[2][0][1]
            res = []
            for truth, tg in ((False, f), (True, tt)):
                if val is not None and val != truth:
                    continue
                s = st.copy()
                if self.assume(s, v, truth):
                    res.append((tg, s))
            return res
        if v.op == 'discr':
            x, adt = v.a
            vs = self.variants(st, x, adt)
            rest = vs
            for val, tg in t[2]:
                vi = self.P.variant_of_discr(adt, val) if adt else val
                if vs is not None and vi not in vs:
                    continue
                s = st.copy()
                if self.assume_var(s, x, adt, vi, True):
                    out.append((tg, s))
                if rest is not None:
                    rest = rest - {vi}
            if rest is None or rest:
                s = st.copy()
                if rest is not None:
                    s.var[x] = rest
                out.append((t[3], s))
            return out
        # integer switch
        other = st.copy()
        okk = True
        for val, tg in t[2]:
            c = self.cmp('eq', v, num(val, v.ty))
            r = self.evalcond(st, c)
            if r is False:
                continue
            s = st.copy()
            if self.assume(s, c, True):
                out.append((tg, s))
            if r is True:
                okk = False
                break
            if okk and not self.assume(other, c, False):
                okk = False
        if okk:
            out.append((t[3], other))
        return out

    # ----------------------------------------------------------------- calls
    def call(self, fr, st, t, line, ev, b):
        f = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        c = Call()
        c.args = args
        c.argtys = [self.operand_ty(fr, o) for o in t[2]]
        c.fr = fr
        c.site = (fr.id, b)
        c.ev = ev
        c.line = line
        c.dty = self.place_ty(fr, t[3])
        c.user = None
        if f[0] == 'k' and f[2][0] == 'fn':
            c.fn = f[2][1]
        else:
            fv = self.operand(fr, st, f)
            if fv.op == 'fn':
                c.fn = fv.a[0].d
            else:
                c.fn = {'p': '<indirect>', 'k': 'ptr', 'a': []}
                c.args = [fv] + args
                c.argtys = [self.operand_ty(fr, f)] + c.argtys
        c.decl = c.fn['p']
        c.path = c.fn.get('rp', c.fn['p'])
        res = self.do_call(st, c)
        if t[4] is None:
            return []
        out = []
        for s, r in res:
            root, path = self.place(fr, s, t[3])
            if r.ty is None and r.op not in ('agg', 'int', 'ref', 'fn', 'str'):
                r.ty = self.scalar(c.dty)
            self.write(s, root, path, r)
            out.append((t[4], s))
        return out

    def do_call(self, st, c):
        """-> [(state, returned value)]"""
        if self.client is not None:
            r = self.client.on_call(self, st, c) if hasattr(self.client, 'on_call') else None
            if r is not None:
                return r
        r = self.models.apply(self, st, c)
        if r is None:
            r = self.do_inst(st, c)
        if self.client is not None and hasattr(self.client, 'on_result'):
            r = self.client.on_result(self, c, r)
        return r

    def do_inst(self, st, c):
        iid = c.fn.get('i')
        ctor = self.ctor(c.fn)
        if ctor is not None:
            args = self.untuple(st, c.args[1]) if len(c.args) == 2 and c.decl.startswith('core::ops::function::Fn') else c.args
            return [(st, agg(ctor[0], ctor[1], *args))]
        if iid is not None:
            inst = self.P.I[iid]
            if self.stack.count(iid) >= self.rec_limit:
                self.rec_hit.add(iid)
                return self.opaque(st, c)
            if 'err' not in inst and len(self.stack) < self.max_depth and inst['p'] not in self.no_inline:
                if self.client is None or not hasattr(self.client, 'inline') or self.client.inline(self, inst, c):
                    return self.inline(st, c, inst)
        return self.opaque(st, c)

    def inline(self, st, c, inst):
        args = list(c.args)
        wrap_poll = False
        if inst.get('cor') and c.decl == 'core::future::future::Future::poll':
            cv = self.unpin(st, args[0])
            args = [cv, mk('sym', 'cx')]
            wrap_poll = True
        elif c.decl.startswith('core::ops::function::Fn') and not inst.get('shim'):
            is_clo = self.P.T[inst['tys'][1]]['k'] == 'closure' or (
                self.P.T[inst['tys'][1]]['k'] == 'ref' and self.P.T[self.P.T[inst['tys'][1]]['a'][0]]['k'] == 'closure') if inst['argc'] else False
            if is_clo:
                args = [args[0]] + self.untuple(st, args[1])
            elif len(args) == 2 and inst['argc'] != 2 or inst.get('ctor'):
                args = self.untuple(st, args[1])
        if len(args) != inst['argc'] and not inst.get('shim'):
            return self.opaque(st, c)
        fr2 = self.push_frame(inst, c.fr, c.site + (c.path, ), c.fr.depth + 1)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('l', fr2.id, i + 1)] = a
        evs = []
        ex = self.exec_body(fr2, st, evs)
        c.ev.extend(evs)
        if self.client is not None and hasattr(self.client, 'on_return'):
            ex = self.client.on_return(self, c, inst, ex)
        if wrap_poll:
            ex = [(s, agg(POLL, 0, r)) for s, r in ex]
        return ex

    def unpin(self, st, p):
        """the future behind Pin<&mut F>"""
        for _ in range(6):
            if p.op == 'agg' and isinstance(p.a[0], str) and p.a[0].endswith('pin::Pin'):
                p = p.a[2]
                continue
            if p.op == 'ref' or p.op in ('sym', 'field', 'elem', 'phi'):
                return self.content(st, p)
            if p.op == 'agg' and p.a[0] == 'box':
                return p.a[2]
            break
        return p

    def untuple(self, st, t):
        if t.op == 'agg':
            return list(t.a[2:])
        n = 1
        if t.ty is not None and isinstance(t.ty, int) and self.P.T[t.ty]['k'] == 'tuple':
            n = len(self.P.T[t.ty]['a'])
        return [self.getk(t, ('f', 0, i)) for i in range(n)]

    def is_mutref(self, tid):
        if tid is None:
            return False
        T = self.P.T[tid]
        return T['k'] in ('ref', 'ptr') and T.get('mut')

    def norm(self, st, a, tid=None):
        """snapshot of an argument: references are replaced by what they point to"""
        if a.op == 'ref':
            return mk('call', '&', self.content(st, a))
        return a

    def opaque(self, st, c, name=None):
        """unknown function: result is a fresh symbol, pointees of &mut arguments are havocked"""
        path = name or c.path
        self.stats['opaque'][path] = self.stats['opaque'].get(path, 0) + 1
        muts = []
        for a, t in zip(c.args, c.argtys):
            if self.is_mutref(t):
                muts.append(a)
            elif t is not None and self.P.T[t]['k'] == 'adt' and a.op == 'agg':
                # aggregates that carry mutable references (readers, protocols)
                for x in a.a[2:]:
                    if isinstance(x, Node) and x.op == 'ref' and x.ty is not None and isinstance(x.ty, int) and self.is_mutref(x.ty):
                        muts.append(x)
        args = tuple(self.norm(st, a) for a in c.args)
        ty = self.scalar(c.dty) if c.dty is not None else None
        if not muts:
            return [(st, mk('call', path, *args, ty=ty))]
        r = mk('eff', path, c.site, *args, ty=ty)
        self.forget(st, r)
        for k, m in enumerate(muts):
            root, p = self.target(m)
            old = self.read(st, root, p)
            nv = mk('mut', path, c.site, k, *args, ty=old.ty)
            if self.fixed_len(m, c, old):
                nv = mk('store', old, nv, ty=old.ty)
            self.write(st, root, p, nv)
        return [(st, r)]

    def fixed_len(self, m, c, old):
        for a, t in zip(c.args, c.argtys):
            if a is m and t is not None:
                T = self.P.T[t]
                if T['k'] in ('ref', 'ptr') and self.P.T[T['a'][0]]['k'] in ('slice', 'array'):
                    return True
        return False

    def forget(self, st, s):
        """a site symbol is produced again: facts about its previous value are stale"""
        i = s.id
        for e in [e for e in st.lin if any(self.has(node(j), s) for j, _ in e[1])]:
            del st.lin[e]
        for v in [v for v in st.var if self.has(v, s)]:
            del st.var[v]
        for v in [v for v in st.bools if self.has(v, s)]:
            del st.bools[v]

    def has(self, n, s, d=0):
        if n is s:
            return True
        if n.id < s.id or d > 30:
            return False
        for x in n.a:
            if isinstance(x, Node):
                if self.has(x, s, d + 1):
                    return True
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Node) and self.has(y, s, d + 1):
                        return True
        return False

    # call a callable value with arguments
    def call_value(self, st, c, f, args, argtys=None, tag=''):
        """f: closure aggregate / reference to it / fn item / opaque callable"""
        P = self.P
        cand = f
        byref = None
        for _ in range(4):
            if cand.op == 'agg' and cand.a[0] == 'closure':
                break
            if cand.op == 'ref':
                byref = cand
                cand = self.content(st, cand)
                continue
            if cand.op == 'agg' and cand.a[0] == 'box':
                cand = cand.a[2]
                byref = None
                continue
            break
        if cand.op == 'agg' and cand.a[0] == 'closure':
            tid = cand.a[1]
            e = P.closures.get(tid)
            if e is not None:
                inst, wants_ref = e
                if self.stack.count(inst['id']) >= self.rec_limit or len(self.stack) > self.max_depth:
                    self.rec_hit.add(inst['id'])
                    return [(st, mk('call', 'closure', cand, *args))]
                st = st.copy()
                if wants_ref:
                    if byref is None:
                        root = ('l', ('tmp', c.site, tag), 'clo')
                        st.mem[root] = cand
                        selfv = self.ref(root, ())
                    else:
                        selfv = byref
                else:
                    selfv = cand
                fr2 = self.push_frame(inst, c.fr, c.site + ('clo', tag), c.fr.depth + 1)
                allargs = [selfv] + list(args)
                if len(allargs) != inst['argc']:
                    return [(st, mk('call', 'closure', cand, *args))]
                for i, a in enumerate(allargs):
                    st.mem[('l', fr2.id, i + 1)] = a
                evs = []
                ex = self.exec_body(fr2, st, evs)
                c.ev.extend(evs)
                if self.client is not None and hasattr(self.client, 'on_return'):
                    ex = self.client.on_return(self, c, inst, ex)
                return ex
        if cand.op == 'fn':
            return self.call_fn(st, c, cand.a[0].d, args, argtys, tag)
        if cand.op == 'agg' and cand.a[0] == 'ctor':
            return [(st, agg(cand.a[1], cand.a[2], *args))]
        # opaque callable
        argn = tuple(self.norm(st, a) for a in args)
        c2 = self.subcall(c, {'p': '<callable>', 'k': 'ptr', 'a': []}, [f] + list(args), None, tag)
        if self.client is not None and hasattr(self.client, 'on_call'):
            r = self.client.on_call(self, st, c2)
            if r is not None:
                return r
        r = mk('eff', '<callable>', c.site + (tag,), cand, *argn)
        self.forget(st, r)
        return [(st, r)]

    def subcall(self, c, fn, args, argtys, tag):
        c2 = Call()
        c2.fn = fn
        c2.decl = fn['p']
        c2.path = fn.get('rp', fn['p'])
        c2.args = list(args)
        c2.argtys = list(argtys) if argtys else [None] * len(args)
        c2.site = c.site + (tag,)
        c2.fr = c.fr
        c2.ev = c.ev
        c2.dty = None
        c2.line = c.line
        c2.user = None
        return c2

    def call_fn(self, st, c, fn, args, argtys=None, tag=''):
        ctor = self.ctor(fn)
        if ctor is not None:
            return [(st, agg(ctor[0], ctor[1], *args))]
        c2 = self.subcall(c, fn, args, argtys, tag)
        iid = fn.get('i')
        if iid is not None and not argtys:
            inst = self.P.I[iid]
            if 'err' not in inst and inst['argc'] == len(args):
                c2.argtys = [inst['tys'][i + 1] for i in range(len(args))]
                c2.dty = inst['tys'][0]
        return self.do_call(st, c2)

    def ctor(self, fn):
        """(enum, variant) when this function item is the constructor of a tuple variant"""
        p = fn.get('p') or ''
        if '::' not in p or fn.get('i') is not None:
            return None
        e, v = p.rsplit('::', 1)
        a = self.P.adts.get(e)
        if a is None or not a.get('enum'):
            return None
        for k, x in enumerate(a['variants']):
            if x['n'] == v:
                return e, k
        return None

    # provenance -------------------------------------------------------------
    def expand(self, n):
        """alternatives of a joined value (transitively); non-phi values expand to themselves"""
        out = {}
        seen = set()
        work = [n]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                work.extend(self.alts.get(x, {}))
            elif x.op in ('maybe', 'anyof'):
                work.extend(x.a)
            else:
                out[x] = 1
        return list(out)


class FnBox:
    """hash-consable wrapper of a function reference"""
    __slots__ = ('d', 'k')

    def __init__(self, d):
        self.d = d
        self.k = (d.get('rp', d['p']), d.get('i'), json.dumps(d.get('ra', d.get('a'))))

    def __eq__(self, o):
        return isinstance(o, FnBox) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __str__(self):
        return self.k[0]

    def __lt__(self, o):
        return self.k < o.k
