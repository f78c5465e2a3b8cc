"""following a function over a list of unknown length: ghost sums over its elements"""
from ..core import Engine, Event, TooBig, State, mk, num, agg, OPT, RES
from .. import models as M
from .tab import field, thrift, local

KINDS = (('v1', 0, 'data_page_header'), ('v2', 3, 'data_page_header_v2'), ('dict', 2, 'dictionary_page_header'), ('other', 1, 'index_page_header'))


def payload(E, st, v):
    """the payload of an Option known to be present"""
    if v.op == 'agg':
        return v.a[2]
    t = E.P.T[v.ty]['a'][0] if isinstance(v.ty, int) else None
    return E.getk(v, ('f', 1, 0, E.scalar(t) if t is not None else None), st)


class Client:
    """The list is what root refers to; `kind` splits an element into cases, `sums` gives the ghost
    sums advanced by an element.  When an iteration over the whole list ends, each ghost equals the
    sum over the list, a symbol."""

    first = False       # keep the first element apart from the others

    def __init__(self, P, root, sums, split=None):
        self.P, self.root, self.sums, self.split = P, root, sums, split
        self.total = {}
        self.cut = {}

    def watched(self, E, ref):
        return ref is not None and E.target(ref) == (self.root, ())

    def reset(self, E, st):
        for n, (ty, f) in self.sums.items():
            st.mem[('m', n)] = num(0, ty)
        st.mon = tuple(m for m in st.mon if m not in ('back', 'first') and not m.startswith('kind '))

    def on_back(self, E, st):
        # on the way to the next element nothing needs to know what kind the last one was
        st.mon = tuple(m for m in st.mon if not m.startswith('kind ') and m != 'first')

    def on_iter(self, E, st, ref, v):
        if self.watched(E, ref):
            self.reset(E, st)

    def step(self, E, s, ref, i, back):
        outs = []
        for s2, k in (self.split(E, s, ref) if self.split else [(s.copy(), None)]):
            s2.mem[('m', 'cur')] = ref
            s2.mon = tuple(sorted(set(m for m in s2.mon if not m.startswith('kind ')) | ({'back'} if back else set()) | ({'kind ' + k} if k else set()) | ({'first'} if self.first and i.op == 'int' and i.a[0] == 0 else set())))
            for n, (ty, f) in self.sums.items():
                g = s2.mem.get(('m', n), num(0, ty))
                s2.mem[('m', 'before ' + n)] = g
                d = f(E, s2, ref, k)
                if d is not None:
                    s2.mem[('m', n)] = E.arith('add', g, d, ty)
            outs.append(s2)
        return outs

    def on_elem(self, E, s, c, b, i, x, back):
        if not self.watched(E, b):
            return None
        return self.step(E, s, x, i, back)

    def finish(self, E, s):
        for n, (ty, f) in self.sums.items():
            t = self.total.get(n)
            if t is None:
                t = self.total[n] = mk('sym', 'total ' + n, ty=ty)
            g = s.mem.get(('m', n))
            if g is not None:
                E.assume(s, E.cmp('eq', g, t), True)
        s.mon = tuple(m for m in s.mon if not m.startswith('kind ') and m != 'first')

    def on_end(self, E, s, b, pos):
        if self.watched(E, b):
            return self.finish(E, s)

    def thelist(self, E, st):
        return E.read(st, self.root, ())

    def on_count(self, E, s, c, a, b):
        """a loop over the positions of the list"""
        if b is not E.length(self.thelist(E, s), s):
            return None
        if a is None:
            return self.finish(E, s)
        return self.step(E, s, E.ref(self.root, (('i', a),)), a, False)

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('ops::range::Range') and len(v.a) > 3 and v.a[2].op == 'int' and v.a[2].a[0] == 0 and v.a[3] is E.length(self.thelist(E, st), st):
            self.reset(E, st)

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is not None and i in self.cut:
            return self.cut[i](self, E, st, c)
        return None

    def tot(self, n):
        return self.total.get(n) or mk('sym', 'total ' + n, ty=self.sums[n][0])


def page_kinds(E, st, ref):
    """an element of a list of page descriptions is one of the kinds of page"""
    v = E.content(st, ref)
    h = field(E, st, v, 'header')
    t = E.getk(field(E, st, h, 'type_'), ('f', 0, 0, 'i32'), st)
    out = []
    for k, code, which in KINDS:
        s = st.copy()
        if not E.assume(s, E.cmp('eq', t, num(code, 'i32')), True):
            continue
        good = True
        for k2, code2, w2 in KINDS:
            good = good and E.assume_var(s, field(E, s, h, w2), OPT, 1 if w2 == which else 0, True)
        if good:
            out.append((s, k))
    return out


def kind_of(E, st):
    """the kind of the current page"""
    ref = st.mem.get(('m', 'cur'))
    if ref is None:
        return None
    for m in st.mon:
        if m.startswith('kind '):
            return m[5:]
    t = E.getk(field(E, st, field(E, st, E.content(st, ref), 'header'), 'type_'), ('f', 0, 0, 'i32'), st)
    return next((k for k, code, w in KINDS if E.evalcond(st, E.cmp('eq', t, num(code, 'i32')))), None)


def header(name, ty='i32'):
    def f(E, st, ref):
        h = field(E, st, E.content(st, ref), 'header')
        v = field(E, st, h, name)
        return v
    return f


def own(name, ty):
    def f(E, st, ref):
        v = field(E, st, E.content(st, ref), name)
        return v
    return f


def alts(E, v, seen=None, d=0):
    """the values a joined value may be"""
    seen = set() if seen is None else seen
    if v in seen:
        return []
    seen.add(v)
    if v.op == 'phi':
        return [x for y in E.alts.get(v, ()) for x in alts(E, y, seen)]
    if v.op == 'anyof':
        return [x for y in v.a for x in alts(E, y, seen)]
    return [v]


def by_sig(P, args, ret):
    """the crate's functions with these parameter types and this result type (module paths removed)"""
    import re
    from .tab import norm, tysig
    out = []
    for f in P.fns:
        if '{closure' in f['p']:
            continue
        i = P.inst(f['p'])
        if i is None or 'err' in i or not i.get('local') or i['argc'] != len(args):
            continue
        s = [norm(x) for x in tysig(P, i)]
        if all(re.fullmatch(a, x) for a, x in zip(args, s[1:])) and re.fullmatch(ret, s[0]):
            out.append(i)
    return out


def run_list(P, i, cl, start=None):
    """analyse a function whose first argument is the watched list"""
    E = Engine(P, cl, budget=400000)
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    cl.root = ('p', args[0])
    st0 = State()
    cl.reset(E, st0)
    if start:
        start(E, st0)
    ex, ev, fr = E.run(i, args, st0)
    return E, ex, ev, args


def same(E, st, a, b, d=0):
    """the same value, up to equal positions in lists"""
    if a is b:
        return True
    if d > 12:
        return False
    if E.is_int(a) or E.is_int(b):
        if E.entails_le(st, a, b) and E.entails_le(st, b, a):
            return True
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op == 'phi':
        return False
    return all(same2(E, st, x, y, d) for x, y in zip(a.a, b.a))


def same2(E, st, x, y, d):
    if hasattr(x, 'op') and hasattr(y, 'op'):
        return same(E, st, x, y, d + 1)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(same2(E, st, u, v, d) for u, v in zip(x, y))
    return not hasattr(x, 'op') and not hasattr(y, 'op') and x == y
