"""C20: the offset index has one entry per data page with its place, size and first row."""
from ..core import Event, TooBig, num, mk, OPT
from . import lists as Ls
from .lists import KINDS, own, payload, alts
from .c07 import eq
from .common import carries
from .tab import field

DATA = ('v1', 'v2')


def rows(E, st, ref):
    return payload(E, st, own('num_rows', None)(E, st, ref))


def nrows(E, st, ref, k):
    if k not in DATA:
        return None
    v = rows(E, st, ref)
    return E.int_cast(st, v, 'usize', 'i64')


class Client(Ls.Client):
    def on_assign(self, E, st, fr, r, p, v, s, ev):
        super().on_assign(E, st, fr, r, p, v, s, ev)
        if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('::PageLocation'):
            ev.append(Event('made', v, st.copy(), fr, 0))


def check(c):
    c.rule('Over a list of pages of any length, with ghost sums of the data pages and of their rows: wherever a page location is made its offset and size are those recorded for the current page, that page is a data page, '
           'and its first row equals the sum of the rows of the data pages before it; the list of locations has as many entries as there are data pages, made in order of the pages.')
    P = c.P
    fs = Ls.by_sig(P, [r'&\[PageWriteSpec\]'], r'Result<OffsetIndex, .*>')
    if not fs:
        c.violation('missing-anchor', 'no function makes an OffsetIndex from a list of page descriptions')
    n = 0
    for i in fs:
        name = i['p']
        c.analysed[name] = 1
        where = '%s:%s' % (i['file'], i['line'])
        cl = Client(P, None, {'pages': ('usize', lambda E, s, r, k: num(1, 'usize') if k in DATA else None), 'rows': ('i64', nrows)}, Ls.page_kinds)
        try:
            E, ex, ev, args = Ls.run_list(P, i, cl)
        except TooBig:
            c.violation('too-big ' + name, 'function too large to analyse: ' + name)
            continue
        made = [e for e in ev if e.kind == 'made']
        c.ob(bool(made), 'made ' + name, '%s makes no page location' % name, where)
        vals = set()
        for e in made:
            n += 1
            s, v = e.st, e.data
            vals.add(v)
            cur = s.mem.get(('m', 'cur'))
            kind = Ls.kind_of(E, s)
            w = e.where() if e.line else where
            if cur is None or kind is None:
                c.violation('page ' + name, '%s makes a page location while going over no page' % name, w)
                continue
            c.ob(kind in DATA, 'kind ' + name, '%s makes a page location for a %s page' % (name, kind), w, '%s: location of a %s page' % (name, kind))
            c.ob('back' not in s.mon, 'order ' + name, '%s goes over the pages from the last to the first' % name, w)
            off, size, first = (field(E, s, v, x) for x in ('offset', 'compressed_page_size', 'first_row_index'))
            c.ob(Ls.same(E, s, off, own('offset', 'u64')(E, s, cur)), 'offset ' + name, '%s records %s as the offset of a page' % (name, off), w)
            size2 = own('bytes_written', 'u64')(E, s, cur)
            hs = E.arith('add', own('header_size', 'u64')(E, s, cur), Ls.header('compressed_page_size')(E, s, cur), 'u64')
            c.ob(Ls.same(E, s, size, size2) or Ls.same(E, s, size, hs), 'size ' + name, '%s records %s as the size of a page, header included' % (name, size), w)
            before = s.mem[('m', 'before rows')]
            c.ob(eq(E, s, first, before), 'first row ' + name, '%s records %s as the first row of a page; the data pages before it have %s rows' % (name, first, before), w)
        oks = 0
        for s, r in ex:
            if carries(E, s, r):
                continue
            oks += 1
            n += 1
            l = field(E, s, r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, None), s), 'page_locations')
            c.ob(eq(E, s, E.length(l, s), cl.tot('pages')), 'count ' + name, '%s makes %s locations; the chunk has one data page per location' % (name, E.length(l, s)), where)
            els = alts(E, l.a[1]) if l.op == 'vec' else [l]
            c.ob(l.op == 'vec' and all(x.op == 'agg' and str(x.a[0]).endswith('::PageLocation') for x in els), 'entries ' + name, '%s lists %s' % (name, [str(x)[:80] for x in els]), where)
        c.ob(oks > 0, 'succeeds ' + name, '%s never succeeds' % name, where)
    c.floor('obligations', n, 3)
