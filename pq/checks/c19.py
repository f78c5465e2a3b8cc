"""C19: the four lists of a column index have one entry per data page, from that page's statistics."""
from ..core import Event, TooBig, num, mk, agg, OPT, NONE, some
from .. import models as M
from . import lists as Ls
from .lists import own, alts
from .c07 import eq
from .common import carries
from .tab import field, norm

DATA = ('v1', 'v2')
LISTS = ('null_pages', 'min_values', 'max_values', 'null_counts')
STATS = 'page statistics'


class Client(Ls.Client):
    def on_call(self, E, st, c):
        r = super().on_call(E, st, c)
        if r is not None:
            return r
        i = c.fn.get('i')
        if i is not None:
            T = E.P
            if E.P.I[i].get('local') and c.dty is not None and norm(E.P.tys(c.dty)) == 'Statistics' and len(c.args) == 1 and '::parquet_format::' in E.P.tys(c.dty):
                # conversion of a page's statistics: a function of them
                v = E.content(st, c.args[0])
                n = mk('call', STATS, v, ty=c.dty)
                # pages with and without a minimum are followed separately
                out = []
                for k in (0, 1):
                    s = st.copy()
                    if E.assume_var(s, field(E, s, n, 'min_value'), OPT, k, True):
                        s.mon = tuple(sorted(set(m for m in s.mon if not m.startswith('min ')) | {'min %d' % k}))
                        out.append((s, n))
                return out
        return None

    def on_back(self, E, st):
        super().on_back(E, st)
        st.mon = tuple(m for m in st.mon if not m.startswith('min '))

    def step(self, E, s, ref, i, back):
        s.mon = tuple(m for m in s.mon if not m.startswith('min '))
        return super().step(E, s, ref, i, back)

    def finish(self, E, s):
        s.mon = tuple(m for m in s.mon if not m.startswith('min '))
        return super().finish(E, s)

    def on_push(self, E, st, c, r, p, v, x):
        c.ev.append(Event('push', (v, x), st.copy(), c.fr, c.line))


def statof(E, st, ref):
    """the converted statistics of this page, if it has some: a predicate on nodes"""
    s = own('statistics', None)(E, st, ref)

    def is_it(n):
        if not (n.op == 'call' and n.a[0] == STATS):
            return False
        x = n.a[1]
        for _ in range(8):
            if Ls.same(E, st, x, s):
                return True
            if x.op in ('field', 'deref', 'elem', 'call', 'cast'):
                x = next((y for y in x.a if hasattr(y, 'op')), None)
                if x is None:
                    return False
                continue
            if x.op == 'ref':
                x = E.content(st, x)
                continue
            return False
        return False
    return is_it


def source(E, st, x):
    """(statistics node, field name) this value is the payload of, or None"""
    P = E.P
    v = x
    for _ in range(4):
        if v.op == 'field' and v.a[0].op == 'field' and v.a[0].a[0].op == 'call' and v.a[0].a[0].a[0] == STATS:
            n = v.a[0].a[0]
            names = P.adts[E.adt_of(n.ty)]['variants'][0]['f']
            return n, names[v.a[0].a[2]]
        if v.op in ('cast',):
            v = v.a[0]
            continue
        return None
    return None


def check(c):
    c.rule('Over a list of pages of any length, with ghost counts: on each successful path every one of the four lists of the column index is as long as the number of data pages; every entry is put in while going over a '
           'data page, in order, and is the minimum, maximum or null count of the statistics of that very page (or the filler of a null page, put in only where the page has no minimum); a page without '
           'statistics leads to an error.')
    P = c.P
    fs = Ls.by_sig(P, [r'&\[PageWriteSpec\]'], r'Result<ColumnIndex, .*>')
    if not fs:
        c.violation('missing-anchor', 'no function makes a ColumnIndex from a list of page descriptions')
    n = 0
    for i in fs:
        name = i['p']
        c.analysed[name] = 1
        where = '%s:%s' % (i['file'], i['line'])
        cl = Client(P, None, {'pages': ('usize', lambda E, s, r, k: num(1, 'usize') if k in DATA else None)}, Ls.page_kinds)
        try:
            E, ex, ev, args = Ls.run_list(P, i, cl)
        except TooBig:
            c.violation('too-big ' + name, 'function too large to analyse: ' + name)
            continue
        for e in ev:
            if e.kind != 'push':
                continue
            v, x = e.data
            s, w = e.st, e.where()
            t = norm(P.tys(v.ty)) if isinstance(v.ty, int) else ''
            src = source(E, s, x)
            if src is None and not (t == 'Vec<bool>' or x.op == 'vec' or x.op == 'agg' and x.a[0] == 'box'):
                continue
            cur = s.mem.get(('m', 'cur'))
            if cur is None:
                continue
            n += 1
            c.ob('back' not in s.mon, 'order ' + name, '%s goes over the pages from the last to the first' % name, w)
            c.ob(Ls.kind_of(E, s) in DATA, 'kind ' + name, '%s makes an entry for a %s page' % (name, Ls.kind_of(E, s)), w)
            if src is not None:
                c.ob(statof(E, s, cur)(src[0]), 'page of ' + name, '%s lists the statistics of another page: %s' % (name, src[0]), w, '%s lists %s of the current page' % (name, src[1]))
            elif t == 'Vec<bool>' and x.op == 'int':
                k = mins(E, s, cur, ev)
                c.ob(k is None or k == {1 - x.a[0]}, 'null page ' + name, '%s marks a page %s minimum as %s null page' % (name, 'with a' if k != {0} else 'without', 'a' if x.a[0] else 'no'), w)
            else:
                k = mins(E, s, cur, ev)
                c.ob(k is None or k == {0}, 'filler ' + name, '%s lists a filler for a page with a minimum' % name, w)
        oks = 0
        for s, r in ex:
            if carries(E, s, r):
                continue
            oks += 1
            ci = r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, None), s)
            for f in LISTS:
                n += 1
                l = field(E, s, ci, f)
                if l.op == 'agg' and l.a[0] == OPT:
                    if l.a[1] == 0:
                        c.violation('no %s %s' % (f, name), '%s leaves out %s' % (name, f), where)
                        continue
                    l = l.a[2]
                c.ob(eq(E, s, E.length(l, s), cl.tot('pages')), '%s length %s' % (f, name), '%s makes %s entries of %s; there must be one for each data page' % (name, E.length(l, s), f), where,
                     '%s: one %s per data page' % (name, f))
                els = alts(E, l.a[1]) if l.op == 'vec' else [l]
                for x in els:
                    src = source(E, s, x)
                    if f == 'null_pages':
                        good = x.op in ('int', 'not', 'isvar', 'lt', 'le', 'eq') or x.ty == 'bool'
                    elif src is not None:
                        good = src[1] == {'min_values': 'min_value', 'max_values': 'max_value', 'null_counts': 'null_count'}[f]
                    else:
                        good = f != 'null_counts' and x.op in ('vec', 'bytes', 'agg')
                    c.ob(good, '%s source %s' % (f, name), '%s lists %s in %s' % (name, '%s of the statistics' % src[1] if src else str(x)[:100], f), where)
                if f != 'null_pages':
                    c.ob(any(source(E, s, x) for x in els) or not els, '%s empty %s' % (f, name), '%s never lists the statistics in %s' % (name, f), where)
        c.ob(oks > 0, 'succeeds ' + name, '%s never succeeds' % name, where)
        # a page without statistics is an error: no entry was made for it, yet lists are complete
    c.floor('obligations', n, 12)


def mins(E, st, cur, ev):
    """may the current page have a minimum: set of the possible variants of the option"""
    is_it = statof(E, st, cur)
    for k, vs in st.var.items():
        if k.op == 'field' and k.a[0].op == 'call' and k.a[0].a[0] == STATS and is_it(k.a[0]):
            names = E.P.adts[E.adt_of(k.a[0].ty)]['variants'][0]['f']
            if names[k.a[2]] == 'min_value':
                return set(vs)
    return None
