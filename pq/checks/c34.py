"""C34: rows of pages, and which of them an interval selects."""
from ..core import Event, TooBig, Engine, State, num, mk, ok, err, TRUE
from . import lists as Ls
from .lists import alts
from .c07 import eq
from .common import carries
from .tab import field, norm

IV = 'Interval'


def is_iv(v, name=IV):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('::' + name)


class Base:
    def __init__(self, P):
        self.P = P
        self.cuts = {}
        self.lists = {}

    def watch(self, E, st):
        """which half of a chain of iterators is under way"""
        k = []

        def go(v, d):
            if v.op != 'agg' or d > 6:
                return
            if v.a[0] == 'it' and v.a[1] == 'chain':
                k.append(str(v.a[6]))
            for x in v.a[2:]:
                if hasattr(x, 'op'):
                    go(x, d + 1)
        for v in st.mem.values():
            if hasattr(v, 'op'):
                go(v, 0)
        return tuple(k)

    def of(self, E, s, v):
        """which of the lists this is: by reference or by value"""
        if v is None:
            return None
        for n, r in self.lists.items():
            if isinstance(r, tuple):
                if E.target(v) == (r, ()):
                    return n
            elif v is r or v.op == 'ref' and E.content(s, v) is r:
                return n
        return None

    def on_push(self, E, st, c, r, p, v, x):
        c.ev.append(Event('push', (v, x), st.copy(), c.fr, c.line))

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is not None and i in self.cuts:
            return self.cuts[i](E, st, c)


def minmax(E, st, kind, a, b):
    if E.entails_le(st, a, b):
        return b if kind == 'max' else a
    if E.entails_le(st, b, a):
        return a if kind == 'max' else b
    return None


def cases(E, st, pairs):
    """the state under every order of these pairs"""
    out = [(st, '')]
    for a, b in pairs:
        nxt = []
        for s, k in out:
            for x, y, op in ((a, b, 'le'), (b, a, 'lt')):
                s2 = s.copy()
                if E.assume(s2, E.cmp(op, x, y), True):
                    nxt.append((s2, k + op))
        out = nxt
    return out


def add(E, a, b):
    return E.arith('add', a, b, 'usize')


class Pages(Base):
    """a page that has a next one and the last one are followed separately"""

    def split(self, E, s, i):
        out = []
        n = E.length(E.read(s, self.lists['locs'], ()), s)
        j = E.arith('add', i, num(1, 'usize'), 'usize')
        for op, k in (('lt', 'more'), ('eq', 'last')):
            s2 = s.copy()
            if E.assume(s2, E.cmp(op, j, n), True):
                s2.mon = (k,)
                out.append(s2)
        return out

    def on_elem(self, E, s, c, b, i, x, back):
        if self.of(E, s, b) == 'locs':
            return self.split(E, s, i)

    def on_count(self, E, s, c, a, b):
        if a is not None and b is E.length(E.read(s, self.lists['locs'], ()), s):
            return self.split(E, s, a)

    def on_back(self, E, st):
        st.mon = ()

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if is_iv(v):
            ev.append(Event('made', v, st.copy(), fr, s[3] if len(s) > 3 else 0))


class Sel(Base):
    """going over the pages, and for each over the requested intervals"""
    TAGS = ('over', 'apart', 'done', 'any')

    def clean(self, s, *more):
        s.mon = tuple(sorted(set(m for m in s.mon if not m.startswith(self.TAGS)) | set(more)))

    def fresh(self, s):
        self.clean(s)
        s.mon = tuple(m for m in s.mon if m not in ('all', 'back'))
        s.mem[('m', 'found')] = num(0, 'usize')

    def on_iter(self, E, st, ref, v):
        if self.of(E, st, ref) == 'ivs':
            self.fresh(st)

    def leave(self, E, s, c):
        if any(m.startswith('over') for m in s.mon):
            self.ev.append(Event('lost', s.mem.get(('m', 'iv')), s.copy(), c.fr if c else None, c.line if c else 0))
        self.clean(s)

    def on_back(self, E, st):
        self.leave(E, st, None)
        st.mon = tuple(m for m in st.mon if m not in ('all', 'back'))

    def on_elem(self, E, s, c, b, i, x, back):
        n = self.of(E, s, b)
        if n == 'pages':
            s2 = s.copy()
            s2.mem[('m', 'page')] = x if x.op != 'ref' else E.content(s, x)
            s2.mem[('m', 'pos')] = i
            s2.mon = tuple(m for m in s2.mon if m != 'all')
            return [s2]
        if n != 'ivs':
            return None
        self.leave(E, s, c)
        return self.request(E, s, E.content(s, x) if x.op == 'ref' else x, back)

    def request(self, E, s, iv, back):
        pg = s.mem.get(('m', 'page'))
        s0 = s.copy()
        s0.mem[('m', 'iv')] = iv
        if pg is None:
            return [s0]
        is_, il, ps, pl = four(E, s0, iv, pg)
        ie, pe = add(E, is_, il), add(E, ps, pl)
        out = []
        bk = ['back'] if back else []
        s1 = s0.copy()
        if all([E.assume(s1, E.cmp('lt', a, b2), True) for a, b2 in ((is_, pe), (ps, ie), (is_, ie), (ps, pe))]):
            for s2, k in cases(E, s1, ((is_, ps), (ie, pe))):
                self.clean(s2, 'over ' + k, *bk)
                out.append(s2)
        for a, b2, tag in ((ie, ps, 'apart 1'), (pe, is_, 'apart 2'), (il, num(0, 'usize'), 'any 1'), (pl, num(0, 'usize'), 'any 2')):
            s2 = s0.copy()
            if tag[:5] == 'apart' and not all([E.assume(s2, E.cmp('lt', num(0, 'usize'), z), True) for z in (il, pl)]):
                continue
            if E.assume(s2, E.cmp('le', a, b2), True):
                self.clean(s2, tag, *bk)
                out.append(s2)
        return out

    def on_end(self, E, s, b, pos):
        if self.of(E, s, b) == 'ivs':
            self.leave(E, s, None)
            s.mon = tuple(sorted(set(s.mon) | {'all'}))

    def on_count(self, E, s, c, a, b):
        """a loop over the positions of one of the lists"""
        for n, r in self.lists.items():
            v = E.read(s, r, ()) if isinstance(r, tuple) else r
            if b is not E.length(v, s):
                continue
            if n == 'ivs' and a is None:
                self.leave(E, s, c)
                s.mon = tuple(sorted(set(s.mon) | {'all'}))
            elif a is not None and n in ('ivs', 'pages'):
                if n == 'ivs':
                    self.leave(E, s, c)
                    return self.request(E, s, E.getk(v, ('i', a), s), False)
                s.mem[('m', 'page')] = E.getk(v, ('i', a), s)
                s.mem[('m', 'pos')] = a
                s.mon = tuple(m for m in s.mon if m != 'all')
            return None

    def on_push(self, E, st, c, r, p, v, x):
        super().on_push(E, st, c, r, p, v, x)
        if is_iv(x):
            self.clean(st, 'done')
            st.mem[('m', 'found')] = E.arith('add', st.mem.get(('m', 'found'), num(0, 'usize')), num(1, 'usize'), 'usize')

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('ops::range::Range') and len(v.a) > 3 and v.a[3] is E.length(E.read(st, self.lists['ivs'], ()), st):
            self.fresh(st)


def four(E, s, iv, pg):
    return [field(E, s, v, f) for v in (iv, pg) for f in ('start', 'length')]


class Rows(Base):
    """going over the pages and the choice made for each"""
    TAGS = ('sel', 'page', 'done', 'not')

    def leave(self, E, s, c):
        if 'sel' in s.mon and 'page' in s.mon and 'done' not in s.mon:
            self.ev.append(Event('lost', None, s.copy(), c.fr if c else None, c.line if c else 0))
        s.mon = tuple(m for m in s.mon if m not in self.TAGS)

    def on_elem(self, E, s, c, b, i, x, back):
        n = self.of(E, s, b)
        if n == 'pages':
            if 'page' in s.mon:
                self.leave(E, s, c)
            s2 = s.copy()
            s2.mem[('m', 'rows')] = E.content(s, x) if x.op == 'ref' else x
            s2.mem[('m', 'row place')] = i
            s2.mon = tuple(sorted(set(s2.mon) | {'page'}))
            return [s2]
        if n != 'sel':
            return None
        if 'sel' in s.mon or 'not' in s.mon:
            self.leave(E, s, c)
        v = E.content(s, x) if x.op == 'ref' else x
        out = []
        for t in (True, False):
            s2 = s.copy()
            s2.mem[('m', 'place')] = i
            if E.assume(s2, v, t):
                s2.mon = tuple(sorted(set(s2.mon) | {'sel' if t else 'not'}))
                out.append(s2)
        return out

    def on_end(self, E, s, b, pos):
        n = self.of(E, s, b)
        if n == 'pages' and 'page' not in s.mon:
            # more choices than pages
            s.mon = tuple(m for m in s.mon if m not in self.TAGS)
        if n is not None:
            self.leave(E, s, None)

    def on_back(self, E, st):
        self.leave(E, st, None)

    def on_push(self, E, st, c, r, p, v, x):
        super().on_push(E, st, c, r, p, v, x)
        st.mon = tuple(sorted(set(st.mon) | {'done'}))


def check(c):
    c.rule('The rows of page k are those from its first row to the first row of page k+1, or to the end, for every page in order. For every page and every requested interval, in order: if the two overlap '
           'an interval is added to the selection of that page, and its start and length are those of the overlap, relative to the first row of the page; if they do not, none is. The page made carries '
           'that selection and the offset, size and number of rows of the page at its place. Rows are computed for exactly the selected pages.')
    P = c.P
    n = 0
    fs = Ls.by_sig(P, [r'&\[PageLocation\]', 'usize'], r'Result<Vec<Interval>, .*>')
    if not fs:
        c.violation('missing-anchor', 'no function makes the row intervals of pages from their locations')
    for i in fs:
        n += pages(c, P, i)
    ids = {P.I.index(i) for i in fs}
    for i in Ls.by_sig(P, [r'&\[Interval\]', r'&\[PageLocation\]', 'usize'], r'Result<Vec<FilteredPage>, .*>'):
        n += select(c, P, i, ids)
    for i in Ls.by_sig(P, [r'&\[bool\]', r'&\[PageLocation\]', 'usize'], r'Result<Vec<Interval>, .*>'):
        n += rows(c, P, i, ids)
    c.floor('obligations', n, 6)


def run(c, P, i, cl, k, before=None):
    name = i['p']
    c.analysed[name] = 1
    E = Engine(P, cl, budget=600000)
    args = [mk('sym', 'arg%d of %s' % (j, name), ty=E.scalar(i['tys'][j + 1])) for j in range(k)]
    cl.ev = []
    if before:
        before(E, args)
    try:
        ex, ev, fr = E.run(i, args, State())
    except TooBig:
        c.violation('too-big ' + name, 'function too large to analyse: ' + name)
        return E, args, [], []
    return E, args, ex, ev + cl.ev


def at(E, s, ref, k):
    """the k-th element of the list this refers to"""
    return E.read(s, E.target(ref)[0], E.target(ref)[1] + (('i', k),))


def pages(c, P, i):
    name = i['p']
    where = '%s:%s' % (i['file'], i['line'])
    cl = Pages(P)

    def before(E, args):
        cl.lists['locs'] = ('p', args[0])
    E, args, ex, ev = run(c, P, i, cl, 2, before)
    n = 0
    for e in ev:
        if e.kind == 'made':
            ln = field(E, e.st, e.data, 'length')
            good = ln.op != 'sub' or E.entails_le(e.st, ln.a[1], ln.a[0])
            c.ob(good, 'order ' + name, '%s makes an interval without knowing that the next page, or the end, is not before its start' % name, e.where(), '%s: the next page is not before this one' % name)
        if e.kind != 'push':
            continue
        v, x = e.data
        s, w = e.st, e.where()
        if v.op != 'vec' or not isinstance(v.ty, int) or norm(P.tys(v.ty)) != 'Vec<%s>' % IV:
            continue
        k = v.a[0]
        last = E.length(E.content(s, args[0]), s)
        first = lambda j: field(E, s, at(E, s, args[0], j), 'first_row_index')
        n += 1
        for y in opened(E, s, x):
            if isinstance(y.ty, int) and norm(P.tys(y.ty)) != IV or y.ty is None and not is_iv(y):
                c.ob(False, 'interval ' + name, '%s makes %s of a page' % (name, y), w)
                continue
            st, ln = (field(E, s, y, f) for f in ('start', 'length'))
            c.ob(eq(E, s, st, first(k)) or Ls.same(E, s, st, first(k)), 'start ' + name, '%s says that page k starts at %s' % (name, st), w, '%s: the first row of the page' % name)
            nxt = E.arith('add', k, num(1, 'usize'), 'usize')
            if E.entails_lt(s, nxt, last):
                to = first(nxt)
            elif E.entails_le(s, last, nxt):
                to = args[1]
            else:
                to = None
            c.ob(to is not None, 'end ' + name, '%s makes an interval for page k where it is not known whether there is a next page' % name, w)
            if to is not None:
                d = E.arith('sub', to, st, 'usize')
                c.ob(eq(E, s, ln, d) or Ls.same(E, s, ln, d), 'length ' + name, '%s says that page k has %s rows' % (name, ln), w, '%s: up to the next page or the end' % name)
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        n += 1
        l = E.getk(r, ('f', 0, 0, None), s) if r.op != 'agg' else r.a[2]
        c.ob(eq(E, s, E.length(l, s), E.length(E.content(s, args[0]), s)), 'count ' + name, '%s makes %s intervals' % (name, E.length(l, s)), where, '%s: one interval per page' % name)
    c.ob(oks > 0, 'succeeds ' + name, '%s never succeeds' % name, where)
    return n


def opened(E, s, x):
    """the values a pushed item can be, seen through joins"""
    out = []
    for y in alts(E, x):
        if y.op == 'field' and y.a[0].op == 'phi':
            for z in alts(E, y.a[0]):
                if z.op == 'agg' and z.a[1] == y.a[1] and len(z.a) > 2 + y.a[2]:
                    out.append(z.a[2 + y.a[2]])
                elif z.op != 'agg':
                    out.append(E.getk(z, ('f', y.a[1], y.a[2], None), s))
        else:
            out.append(y)
    return out


def cutter(P, cl):
    def cut(E, st, cc):
        v = mk('call', 'rows of pages', *cc.args, ty=P.T[cc.dty]['a'][0])
        cl.lists['pages'] = v
        s1, s2 = st.copy(), st.copy()
        E.assume(s1, E.cmp('eq', E.length(v, s1), E.length(E.content(s1, cc.args[0]), s1)), True)
        return [(s1, ok(v)), (s2, err(mk('sym', 'failure of rows')))]
    return cut


def select(c, P, i, ids):
    name = i['p']
    where = '%s:%s' % (i['file'], i['line'])
    cl = Sel(P)
    cl.cuts = dict.fromkeys(ids, cutter(P, cl))

    def before(E, args):
        cl.lists['ivs'] = ('p', args[0])
    E, args, ex, ev = run(c, P, i, cl, 3, before)
    pg = cl.lists.get('pages')
    if pg is None:
        c.violation('rows ' + name, '%s does not use the rows of the pages' % name, where)
        return 0
    c.ob(pg.a[1] is args[1] and pg.a[2] is args[2], 'rows of ' + name, '%s takes the rows of other pages' % name, where)
    n = 0
    for e in ev:
        s = e.st
        w = e.where() if e.fr and e.line else where
        if e.kind == 'lost':
            n += 1
            c.ob(False, 'lost ' + name, '%s does not select the rows of an interval that overlaps a page' % name, w)
        elif e.kind == 'push' and is_iv(e.data[1]):
            n += 1
            x = e.data[1]
            c.ob('done' not in s.mon and 'back' not in s.mon, 'once ' + name, '%s adds more than one selection for an interval, or not in order' % name, w)
            c.ob(not any(m.startswith('apart') for m in s.mon), 'apart ' + name, '%s selects rows of a page for an interval that does not overlap it' % name, w, '%s: nothing selected where nothing overlaps' % name)
            iv, p = s.mem.get(('m', 'iv')), s.mem.get(('m', 'page'))
            if iv is None or p is None:
                c.ob(False, 'current ' + name, '%s selects rows without an interval and a page at hand' % name, w)
                continue
            if not any(m.startswith('over') for m in s.mon):
                continue
            is_, il, ps, pl = four(E, s, iv, p)
            lo, hi = minmax(E, s, 'max', is_, ps), minmax(E, s, 'min', add(E, is_, il), add(E, ps, pl))
            st, ln = (field(E, s, x, f) for f in ('start', 'length'))
            c.ob(lo is not None and eq(E, s, add(E, st, ps), lo), 'start ' + name, '%s selects rows from %s on, relative to the page' % (name, st), w, '%s: from where the overlap begins' % name)
            c.ob(hi is not None and eq(E, s, add(E, lo, ln), hi), 'length ' + name, '%s selects %s rows' % (name, ln), w, '%s: to where the overlap ends' % name)
        elif e.kind == 'push':
            v, x = e.data
            for x in alts(E, x):
                if not is_iv(x, 'FilteredPage'):
                    continue
                n += 1
                k = v.a[0]
                p, j = s.mem.get(('m', 'page')), s.mem.get(('m', 'pos'))
                c.ob(p is not None and eq(E, s, k, j), 'place ' + name, '%s gives a page the selection of another page' % name, w)
                if p is None:
                    continue
                loc = at(E, s, args[1], k)
                f = {g: field(E, s, x, g) for g in ('start', 'length', 'num_rows', 'selected_rows')}
                for g, want in (('start', field(E, s, loc, 'offset')), ('length', field(E, s, loc, 'compressed_page_size')),
                                ('num_rows', field(E, s, p, 'length'))):
                    c.ob(eq(E, s, f[g], want) or Ls.same(E, s, f[g], want), g + ' of page ' + name, '%s gives the k-th page the %s %s' % (name, g, f[g]), w, '%s: the %s of the page' % (name, g))
                c.ob('all' in s.mon, 'all ' + name, '%s makes a page without having gone over all intervals for it' % name, w)
                got = s.mem.get(('m', 'found'))
                c.ob(got is not None and eq(E, s, E.length(f['selected_rows'], s), got), 'selection ' + name, '%s gives a page the selection %s' % (name, f['selected_rows']), w, '%s: all that was selected' % name)
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        n += 1
        l = r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, None), s)
        c.ob(eq(E, s, E.length(l, s), E.length(pg, s)), 'count ' + name, '%s makes %s pages' % (name, E.length(l, s)), where, '%s: as many as there are locations' % name)
    c.ob(oks > 0, 'succeeds ' + name, '%s never succeeds' % name, where)
    return n


def rows(c, P, i, ids):
    name = i['p']
    where = '%s:%s' % (i['file'], i['line'])
    cl = Rows(P)
    cl.cuts = dict.fromkeys(ids, cutter(P, cl))

    def before(E, args):
        cl.lists['sel'] = ('p', args[0])
    E, args, ex, ev = run(c, P, i, cl, 3, before)
    pg = cl.lists.get('pages')
    if pg is None:
        c.violation('rows ' + name, '%s does not use the rows of the pages' % name, where)
        return 0
    c.ob(pg.a[1] is args[1] and pg.a[2] is args[2], 'rows of ' + name, '%s takes the rows of other pages' % name, where)
    n = 0
    for e in ev:
        s = e.st
        w = e.where() if e.fr and e.line else where
        if e.kind == 'lost':
            n += 1
            c.ob(False, 'lost ' + name, '%s leaves out the rows of a selected page' % name, w)
        elif e.kind == 'push':
            n += 1
            x = e.data[1]
            k, j = s.mem.get(('m', 'place')), s.mem.get(('m', 'row place'))
            if 'sel' in s.mon and 'page' in s.mon and Ls.same(E, s, x, s.mem[('m', 'rows')]):
                c.ob(eq(E, s, k, j), 'chosen ' + name, '%s gives the rows of a page when another one is selected' % name, w, '%s: of a selected page' % name)
            else:
                while x.op == 'agg' and is_iv(x) and all(y.op == 'field' for y in x.a[2:4]) and x.a[2].a[0] is x.a[3].a[0]:
                    x = x.a[2].a[0]
                good = x.op == 'elem' and x.a[0] is pg
                c.ob(good, 'page ' + name, '%s gives %s as rows of a page' % (name, x), w, '%s: the rows of a page' % name)
                if good:
                    c.ob(E.evalcond(s, at(E, s, args[0], x.a[1])) is True, 'chosen ' + name, '%s gives the rows of a page that is not known to be selected' % name, w, '%s: of a selected page' % name)
            c.ob('done' not in s.mon, 'once ' + name, '%s gives the rows of a page twice' % name, w)
    c.ob(any(not carries(E, s, r) for s, r in ex), 'succeeds ' + name, '%s never succeeds' % name, where)
    return n
