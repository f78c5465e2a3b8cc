"""following the file writers: which row groups and page lists they keep, what the footer says"""
from ..core import Engine, TooBig, State, mk, num
from . import writer as Wr
from . import c07
from .c07 import eq, bare
from .common import carries, runfn, reaches, body_of
from .tab import field, norm

GROUPS = ('Vec<RowGroup', '[RowGroup')
PGROUPS = ('Vec<Vec<Vec<PageWriteSpec', '[Vec<Vec<PageWriteSpec')
KINDS = (('G', GROUPS), ('PG', PGROUPS))


class Client(c07.Client):
    total = mk('sym', 'rows of all groups', ty='i64')

    def kind(self, E, s, b):
        v = E.content(s, b) if b.op == 'ref' else b
        if not isinstance(v.ty, int):
            return None
        n = norm(E.P.tys(v.ty))
        return next((k for k, p in KINDS if n.startswith(p)), None)

    def effect(self, st, what):
        if isinstance(what, tuple) and what[0] == 'thrift':
            st.mem[('m', 'meta')] = self.E.content(st, what[1])

    def on_call(self, E, st, c):
        self.E = E
        r = super().on_call(E, st, c)
        i = c.fn.get('i')
        if r is not None and i is not None and i in self.cut:
            if c07.base(E.P.I[i]['p']) == 'write_row_group' and len(r) == 2:
                r[0][0].mem[('m', 'group')] = r[0][1].a[2]
        return r

    # -- the rows of all groups
    def on_iter(self, E, st, ref, v):
        if self.kind(E, st, ref) == 'G':
            st.mem[('m', 'rows')] = num(0, 'i64')

    def on_elem(self, E, s, c, b, i, x, back):
        if self.kind(E, s, b) != 'G':
            return None
        v = E.content(s, x) if x.op == 'ref' else x
        s = s.copy()
        s.mem[('m', 'rows')] = E.arith('add', s.mem.get(('m', 'rows'), num(0, 'i64')), field(E, s, v, 'num_rows'), 'i64')
        return [s]

    def on_end(self, E, s, b, pos):
        if self.kind(E, s, b) == 'G':
            g = s.mem.get(('m', 'rows'))
            if g is not None:
                E.assume(s, E.cmp('eq', g, self.total), True)

    # -- lists kept by the writer
    def on_push(self, E, st, c, r, p, v, x):
        if r is not None and isinstance(v.ty, int):
            n = norm(E.P.tys(v.ty))
            for k, pre in KINDS:
                if n.startswith(pre):
                    st.mem[('m', 'push ' + k)] = x
                    st.mem[('m', 'pushes ' + k)] = E.arith('add', st.mem.get(('m', 'pushes ' + k), num(0, 'usize')), num(1, 'usize'), 'usize')


def setup(P):
    us = Wr.units(P)
    eff = reaches(P, lambda n: n.split('::')[-1] in ('write_all', 'write_to_out_protocol', 'write_to_out_stream_protocol'))
    us = {p: i for p, i in us.items() if i['id'] in eff or body_of(P, i) is not None}
    cut = {p: i for p, i in us.items() if 'FileWriter' not in p and 'FileStreamer' not in p and c07.resty(P, i) is not None and c07.sized(P, c07.resty(P, i)) and c07.base(p).startswith('write_') and c07.base(p) != 'write_metadata_sidecar'}
    return us, eff, cut


METHODS = ('FileWriter::<W>::write', 'FileWriter::<W>::end', 'FileStreamer::<W>::write', 'FileStreamer::<W>::end')


def items(P):
    out = []
    for p in Wr.units(P):
        if p.endswith('::write') and p.endswith(METHODS):
            out.append((p, None))
        elif p.endswith(METHODS):
            out += [(p, 'stats'), (p, 'nostats')]
    return out


def task(item):
    """obligations (property, good, key, what, where) of a method of a file writer"""
    from .. import frame
    P = frame.prog('full')
    name, mode = item
    us, eff, cut = setup(P)
    i = us[name]
    where = '%s:%s' % (i['file'], i['line'])
    cl = Client(P, cut, eff)
    E = Engine(P, cl, budget=400000)
    cl.E = E
    st0 = State()
    st0.mem[Wr.W] = num(0, 'u64')
    args = [mk('sym', 'w%d of %s' % (k, name), ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    me = E.content(st0, args[0])
    if mode is not None:
        ws = field(E, st0, field(E, st0, me, 'options'), 'write_statistics')
        E.assume(st0, ws, mode == 'stats')
        st0.bools[ws] = mode == 'stats'
    before = {k: field(E, st0, me, f) for k, f in (('G', 'row_groups'), ('PG', 'page_specs'))}
    try:
        ex, ev, fr = runfn(E, i, args, st0)
    except TooBig:
        return [(p, False, 'too-big', 'function too large to analyse: ' + name, where) for p in ('C08',)]
    obs = []
    A = lambda p, good, key, what: obs.append((p, good, key, '%s: %s' % (name, what), where))
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        now = E.content(s, args[0])
        if mode is None:
            g = s.mem.get(('m', 'group'))
            for k, f, j in (('G', 'row_groups', 0), ('PG', 'page_specs', 1)):
                x = s.mem.get(('m', 'push ' + k))
                good = g is not None and x is not None and x is E.getk(g, ('f', 0, j, x.ty), s) and eq(E, s, s.mem[('m', 'pushes ' + k)], num(1, 'usize'))
                l = field(E, s, now, f)
                good = good and eq(E, s, E.length(l, s), E.arith('add', E.length(before[k], s), num(1, 'usize'), 'usize'))
                what = 'does not append the row group written to its list' if k == 'G' else 'does not append the pages of the row group written to its list'
                A('C08', good, f, what)
            continue
        m = s.mem.get(('m', 'meta'))
        if m is None:
            A('C08', False, 'footer', 'writes no file metadata')
            continue
        for mm in split(E, m):
          footer(A, E, s, cl, mm, field(E, s, now, 'row_groups'), before, me, args, i, P)
    A('C08', oks > 0, 'file succeeds %s' % mode, 'never succeeds')
    return obs


def split(E, m):
    from .lists import alts
    return [x for x in alts(E, m) if x.op != 'uninit']


def footer(A, E, s, cl, m, cur, before, me, args, i, P):
        g = lambda f: member(E, s, m, f)
        A('C08', g('num_rows') is not None and eq(E, s, g('num_rows'), cl.total), 'file num_rows', 'the footer has %s rows, not the sum of the rows of the row groups' % g('num_rows'))
        rg = g('row_groups')
        A('C08', rg is not None and eq(E, s, E.length(rg, s), E.length(before['G'], s)) and rg.op not in ('perm', 'slc', 'sorted'), 'file row groups', 'the footer lists %s and not all the row groups' % str(rg)[:100])
        kv = next((a for a, t in zip(args, i['tys'][1:]) if 'KeyValue' in P.tys(t)), None)
        x = g('key_value_metadata')
        A('C08', kv is not None and x is not None and thesame(E, s, x, kv), 'file key-value metadata', 'the footer has the key-value metadata %s, not the one given' % str(x)[:100])
        x = g('created_by')
        A('C08', x is not None and thesame(E, s, x, field(E, s, me, 'created_by')), 'file created_by', 'the footer has the creator %s, not the one given' % str(x)[:100])


def thesame(E, s, x, y, d=0):
    if x is y:
        return True
    if x.op == 'call' and x.a[0] == 'clone' and d < 4:
        return thesame(E, s, next(z for z in x.a if hasattr(z, 'op')), y, d + 1)
    if x.op == 'ref' and d < 4:
        return thesame(E, s, E.content(s, x), y, d + 1)
    xs = list(E.alts.get(x, ())) if x.op == 'phi' else []
    if xs and d < 4:
        return all(thesame(E, s, z, y, d + 1) for z in xs)
    # taken apart and put together again: present exactly when the other is, with its content
    if x.op == 'agg' and x.a[0] == 'core::option::Option':
        vs = E.variants(s, y, 'core::option::Option')
        return vs == frozenset((x.a[1],)) and (x.a[1] == 0 or E.getk(y, ('f', 1, 0, None), s) in (x.a[2], E.content(s, x.a[2]) if x.a[2].op == 'ref' else None))
    return False


FILE = ('version', 'schema', 'num_rows', 'row_groups', 'key_value_metadata', 'created_by', 'column_orders', 'encryption_algorithm', 'footer_signing_key_metadata')


def member(E, s, m, f):
    """a field of the file metadata, made by its constructor (which takes the fields in order) or written out"""
    if m.op == 'call' and len([x for x in m.a if hasattr(x, 'op')]) == len(FILE):
        x = [x for x in m.a if hasattr(x, 'op')][FILE.index(f)]
        while x.op == 'cast':
            x = x.a[0]
        return x
    return field(E, s, m, f)
