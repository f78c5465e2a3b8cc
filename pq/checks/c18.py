"""C18: reducing the statistics of pages.

The step that folds the statistics of one more page into those of the pages so far is evaluated on a
symbolic accumulator and page, for every physical type and every combination of present and missing
fields, on every outcome of the comparisons it makes."""
from ..core import Engine, Event, TooBig, State, Node, mk, num, agg, some, ok, err, NONE, UNIT, TRUE, FALSE, OPT, RES
from .. import models as M
from .tab import local, struct, variants, field, short
from . import c13
from .c13 import dispatchers, start

PAGE = ('min_value', 'max_value', 'null_count', 'distinct_count')


class Client(c13.Client):
    on = False

    def watch(self, E, st):
        if not self.on:
            return ()
        a, b = self.pair
        k = tuple(sorted((n.id, str(v)) for n, v in st.bools.items()))
        if a is not None and b is not None and E.is_int(a) and E.is_int(b):
            k += (E.entails_le(st, a, b), E.entails_le(st, b, a))
        return k

    def on_call(self, E, st, c):
        if self.on:
            return self.compared(E, st, c)
        if short(c.path) == 'fold' and len(c.args) == 3 and c.argtys[1] is not None:
            t = E.adt_of(c.argtys[1])
            if t in E.P.adts and 'min_value' in E.P.adts[t]['variants'][0]['f']:
                self.on = True
                self.step(E, st, c, t)
                self.on = False
                return [(st.copy(), mk('call', 'fold', *c.args))]
        return super().on_call(E, st, c)

    def compared(self, E, st, c):
        # comparisons of anything but numbers: every outcome, remembered
        n = short(c.path)
        if n not in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'total_cmp', 'max', 'min') or len(c.args) != 2:
            return None
        v = []
        for x in c.args:
            while x.op == 'ref' or x.op == 'call' and x.a[0] == '&':
                x = E.content(st, x)
            if x not in self.pair and not E.is_int(x):
                # an iterator over, or a slice of, one of the two
                l = {y for y in c13.values(E, x) if y in self.pair}
                whole = x.op != 'slc' and not (x.op == 'call' and x.a[0] not in ('clone', 'iter', 'into_iter', '&'))
                if len(l) == 1 and whole:
                    x = next(iter(l))
            v.append(x)
        x, y = v
        if x not in self.pair or y not in self.pair:
            return None
        out = []
        for o, r in (('<', -1), ('=', 0), ('>', 1)):
            s = st.copy()
            if E.is_int(x):
                if not (E.assume(s, E.cmp('lt', x, y), True) if r < 0 else E.assume(s, E.cmp('eq', x, y), True) if r == 0 else E.assume(s, E.cmp('lt', y, x), True)):
                    continue
            else:
                old = self.order(st, x, y)
                if old is not None and old != r:
                    continue
                s.mon = tuple(sorted(set(s.mon) | {'%d %s %d' % (x.id, o, y.id)}))
            if n in ('max', 'min'):
                w = c.args[0] if (r > 0) == (n == 'max') and r != 0 or r == 0 and n == 'min' else c.args[1]
            elif n in ('cmp', 'partial_cmp', 'total_cmp'):
                w = agg('core::cmp::Ordering', r + 1)
                w = some(w) if n == 'partial_cmp' else w
            else:
                w = TRUE if {'lt': r < 0, 'le': r <= 0, 'gt': r > 0, 'ge': r >= 0}[n] else FALSE
            out.append((s, w))
        return out

    def order(self, st, x, y):
        for o, r in (('<', -1), ('=', 0), ('>', 1)):
            if '%d %s %d' % (x.id, o, y.id) in st.mon:
                return r
            if '%d %s %d' % (y.id, o, x.id) in st.mon:
                return -r
        return None

    def step(self, E, st, c, t):
        ad = E.P.adts[t]['variants'][0]
        T = E.P.T[c.argtys[1]]
        sub = {'T': E.P.tys(T['a'][0])} if T.get('a') else {}
        kinds = {}
        for f, ty in zip(ad['f'], ad['t']):
            if f in PAGE and ty.startswith('core::option::Option<'):
                x = ty[len('core::option::Option<'):-1]
                kinds[f] = sub.get(x, x)
        where = '%s:%s (%s)' % (c.fr.inst['file'], c.line, c.fr.inst['p'])

        def one(f, side, have):
            k = kinds.get(f)
            if have is TRUE or have is FALSE:
                return some(have)
            if k is None or not have:
                return NONE
            ty = k if k in SCALARS else (E.scalar(E.P.tybystr[k]) if k in E.P.tybystr else None)
            return some(mk('sym', '%s of the %s: %s' % (f, side, k), ty=ty))
        for fs in (('min_value',), ('max_value',), ('null_count',), ('distinct_count',)):
            f = fs[0]
            if f not in kinds:
                continue
            opts = (False, True) if kinds[f] != 'bool' else (False, TRUE, FALSE)
            for ha in opts:
                for hb in opts:
                    va, vb = one(f, 'pages so far', ha), one(f, 'next page', hb)
                    other = {g: mk('sym', 'acc ' + g) for g in kinds if g != f}
                    other2 = {g: mk('sym', 'new ' + g) for g in kinds if g != f}
                    a = struct(E.P, t, 'acc.', **dict(other, **{f: va}))
                    b = struct(E.P, t, 'new.', **dict(other2, **{f: vb}))
                    s0 = st.copy()
                    out = []
                    self.pair = tuple(x.a[2] if x.a[1] == 1 else None for x in (va, vb))
                    for s, v in E.call_value(s0, c, c.args[2], [a, mk('call', '&', b)], [None, None], 'step %s %s %s' % (f, ha, hb)):
                        r = E.getk(v, ('f', 0, ad['f'].index(f)), s)
                        for s2, o in M.split_enum(E, s, r, OPT):
                            out.append((s2, o))
                    self.steps.append((f, kinds[f], va, vb, out, where))


SCALARS = ('i32', 'i64', 'f32', 'f64', 'bool', 'u64', 'usize', 'i128')


def first(cl, E, s, a, b, kind):
    """is it known that a comes no later than b"""
    if a is b:
        return True
    if E.is_int(a):
        return E.entails_le(s, a, b)
    o = cl.order(s, a, b)
    if o is not None:
        return o <= 0
    # floats (without NaN): a comparison that was made
    for n, v in s.bools.items():
        if n.op in ('flt', 'fle'):
            x, y = n.a
            if (x, y) == (a, b) and v or (x, y) == (b, a) and not v:
                return True
    return False


def alike(E, s, v, w):
    while v.op == 'call' and v.a[0] in ('clone', '&') and len(v.a) == 2:
        v = v.a[1]
    return v is w or (E.is_int(v) and E.is_int(w) and E.entails_le(s, v, w) and E.entails_le(s, w, v))


def check(c):
    P = c.P
    c.rule('The step that adds the statistics of a page to those of the pages before it is evaluated for every physical type, with every field present or missing on either side and on every outcome of its comparisons: '
           'a missing bound leaves the other side\'s; of two bounds one is kept, and that one is known to be the smaller (minimum) or larger (maximum); null counts are added; distinct counts are dropped.')
    n = steps = 0
    pt = local(P, 'PhysicalType')
    vs = variants(P, pt)
    for i, k, what in dispatchers(P):
        if what != 'reduce' or k != 'Statistics':
            continue
        n += 1
        c.analysed[i['p']] = 1
        for T in vs:
            v, cl0, E, st, args = start(P, i, what, pt, vs, T)
            cl = Client(P, cl0.types)
            cl.steps, cl.pair = [], (None, None)
            E = Engine(P, cl, budget=200000)
            E.run(i, args, st)
            for f, kind, va, vb, out, where in cl.steps:
                steps += 1
                key = '%s %s' % (T, f)
                a, b = (x.a[2] if x.a[1] == 1 else None for x in (va, vb))
                for s, o in out:
                    got = o.a[2] if o.a[1] == 1 else None
                    if f == 'distinct_count':
                        c.ob(got is None, key, 'the number of distinct values of several pages is made up', where, '%s: dropped' % key)
                        continue
                    if a is None and b is None:
                        c.ob(got is None, key + ' none', 'a %s is made up for pages that have none' % f, where, '%s: none of none' % key)
                        continue
                    if a is None or b is None:
                        x = b if a is None else a
                        c.ob(got is not None and alike(E, s, got, x), key + ' one', 'the %s of a page is lost or changed when the other pages have none' % f, where, '%s: one of one' % key)
                        continue
                    if f == 'null_count':
                        w = E.arith('add', a, b, kind if kind in ('i64', 'u64', 'usize') else 'i64')
                        c.ob(got is not None and alike(E, s, got, w), key + ' sum', 'the null count of two pages is not the sum of theirs', where, '%s: the sum' % key)
                        continue
                    c.ob(got is not None, key + ' both', 'the %s is lost although both pages have one' % f, where, '%s: kept' % key)
                    if got is None:
                        continue
                    if kind == 'bool':
                        bools(c, E, s, got, a, b, f, key, where)
                        continue
                    lo, hi = (got, None) if f == 'min_value' else (None, got)
                    is_a, is_b = alike(E, s, got, a), alike(E, s, got, b)
                    if not is_a and not is_b:
                        if E.is_int(got):
                            good = all((E.entails_le(s, got, x) if f == 'min_value' else E.entails_le(s, x, got)) for x in (a, b))
                        else:
                            good = False
                        c.ob(good, key + ' bound', 'the %s of two pages is not one of theirs' % f, where, '%s: bounds both' % key)
                        continue
                    other = b if is_a else a
                    mine = a if is_a else b
                    good = first(cl, E, s, mine, other, kind) if f == 'min_value' else first(cl, E, s, other, mine, kind)
                    c.ob(good, key + ' bound', 'the %s of two pages can be the one that does not bound the other page' % f, where, '%s: bounds both' % key)
    c.cov['steps'] = steps
    c.floor('functions that reduce statistics', n, 1)


def bools(c, E, s, got, a, b, f, key, where):
    w = (a is TRUE and b is TRUE) if f == 'min_value' else (a is TRUE or b is TRUE)
    s2 = s.copy()
    c.ob(not E.assume(s2, got, not w), key + ' bound', 'the %s of two pages does not bound both' % f, where, '%s of %s and %s is %s' % (key, a, b, w))
