"""following a row-group writer: which chunk is written under which descriptor, what is made of the chunks"""
from ..core import Engine, Event, TooBig, State, FnBox, mk, num, agg, ok, err, node
from .. import models as M
from . import writer as Wr
from .c07 import eq
from .common import carries, runfn
from .tab import field, norm

SUMS = {'total_byte_size': 'total_uncompressed_size', 'total_compressed_size': 'total_compressed_size'}
CHUNK = 'a column chunk'


def made(P, tid, pref):
    return tid is not None and norm(P.tys(tid)).startswith(pref)


class Client(Wr.Client):
    """j: an arbitrary position among the chunks"""

    def __init__(self, P, chunks, rows, desc):
        super().__init__(P)
        self.chunks, self.rows, self.desc = chunks, rows, desc
        self.j = mk('sym', 'j', ty='usize')
        self.rj = mk('sym', 'rows of chunk j', ty='i64')
        self.total = {n: mk('sym', 'total ' + n, ty='i64') for n in SUMS}

    def calls(self, st):
        return st.mem.get(('m', 'calls'), num(0, 'usize'))

    # -- chunks
    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i in self.chunks:
            P = E.P
            if c.dty is not None and P.T[c.dty]['k'] in ('coroutine', 'alias'):
                return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
            r = mk('eff', CHUNK, c.site, ty=E.scalar(P.T[c.dty]['a'][0]))
            E.forget(st, r)
            k = self.calls(st)
            # under which descriptor, and from which pages
            d = next((a for a, t in zip(c.args, c.argtys) if norm(P.tys(t)) == '&ColumnDescriptor'), None)
            pg = next((a for a, t in zip(c.args, c.argtys) if 'DynStreamingIterator' in P.tys(t)), None)
            good = False
            if d is not None and d.op == 'ref':
                root, path = E.target(d)
                good = root == ('p', self.desc) and len(path) == 1 and path[0][0] == 'i' and eq(E, st, path[0][1], k)
            self.ob(c, st, good, 'descriptor', 'the %s-th chunk is written under the descriptor %s' % (k, d))
            last = st.mem.get(('m', 'last'))
            n = st.mem.get(('m', 'nexts'), num(0, 'usize'))
            from .c08 import mentions
            good = last is not None and pg is not None and mentions(pg, lambda x: x is last)
            self.ob(c, st, good, 'pages', 'the pages written are not those of the column taken last from the iterator')
            self.ob(c, st, eq(E, st, n, E.arith('add', k, num(1, 'usize'), 'usize')), 'columns taken', '%s columns were taken from the iterator when the %s-th is written' % (n, k))
            s1, s2 = st.copy(), st.copy()
            s1.mem[('m', 'calls')] = E.arith('add', k, num(1, 'usize'), 'usize')
            s1.mem[('m', 'chunk')] = r
            return [(s1, ok(r)), (s2, err(mk('eff', 'failed', c.site)))]
        if i in self.rows:
            r = mk('call', 'rows', E.content(st, c.args[0]), ty='i64')
            return [(st.copy(), ok(r)), (st.copy(), err(mk('eff', 'failed', c.site)))]
        return super().on_call(E, st, c)

    def ob(self, c, st, good, key, what):
        c.ev.append(Event('ob', (good, key, what), st, c.fr, c.line))

    def on_next(self, E, st, c, root, path, v, tag):
        n = st.mem.get(('m', 'nexts'), num(0, 'usize'))
        base = v
        while base.op == 'mut' and base.a[0] == 'next':
            base = base.a[3]
        r = mk('eff', 'next', c.site + (tag,), base, ty=c.dty if tag == 'direct' else None)
        E.forget(st, r)
        st.mem[('m', 'nexts')] = E.arith('add', n, num(1, 'usize'), 'usize')
        st.mem[('m', 'last')] = r
        E.write(st, root, path, mk('mut', 'next', c.site + (tag,), 0, base, ty=v.ty))
        return M.split_opt(E, [(st, r)], c, tag)

    # -- lists of chunks
    def chunk_of(self, E, st, v):
        """the chunk in an element of a list, and its pages"""
        if v.op == 'agg' and v.a[0] == 'tuple' or isinstance(v.ty, int) and E.P.T[v.ty]['k'] == 'tuple':
            ty = norm(E.P.tys(v.ty)) if isinstance(v.ty, int) else None
            if ty is not None and not ty.startswith('(ColumnChunk'):
                return None
            ts = E.P.T[v.ty]['a'] if isinstance(v.ty, int) else (None, None)
            x = E.getk(v, ('f', 0, 0, ts[0]), st)
            if isinstance(x.ty, int) and norm(E.P.tys(x.ty)) == 'ColumnChunk':
                return x
            return None
        return v if isinstance(v.ty, int) and norm(E.P.tys(v.ty)) == 'ColumnChunk' else None

    def islist(self, E, v):
        if not isinstance(v.ty, int):
            return False
        s = norm(E.P.tys(v.ty))
        return s.startswith(('Vec<ColumnChunk', 'Vec<(ColumnChunk', '[ColumnChunk', '[(ColumnChunk'))

    def on_iter(self, E, st, ref, v):
        if self.islist(E, v):
            for n in SUMS:
                st.mem[('m', n)] = num(0, 'i64')
                st.mem[('m', 'late ' + n)] = num(0, 'i64')
            whole = eq(E, st, E.length(v, st), self.calls(st))
            st.mon = tuple(sorted(set(m for m in st.mon if m not in ('j', 'whole', 'pending')) | ({'whole'} if whole else set())))

    def flush(self, E, s):
        """add the chunk seen last to the late ghost sums, which follow code that adds a chunk after looking at it"""
        if 'pending' not in s.mon:
            return
        x = s.mem[('m', 'cur')]
        v = E.content(s, x) if x.op == 'ref' else x
        md = field(E, s, self.chunk_of(E, s, v), 'meta_data')
        md = md.a[2] if md.op == 'agg' else E.getk(md, ('f', 1, 0, E.P.T[md.ty]['a'][0]), s)
        for n, f in SUMS.items():
            s.mem[('m', 'late ' + n)] = E.arith('add', s.mem.get(('m', 'late ' + n), num(0, 'i64')), field(E, s, md, f), 'i64')
        s.mon = tuple(m for m in s.mon if m != 'pending')

    def on_elem(self, E, s, c, b, i, x, back):
        v = E.content(s, x) if x.op == 'ref' else x
        cc = self.chunk_of(E, s, v)
        if cc is None:
            return None
        md = field(E, s, cc, 'meta_data')
        md = md.a[2] if md.op == 'agg' else E.getk(md, ('f', 1, 0, E.P.T[md.ty]['a'][0]), s)
        for n, f in SUMS.items():
            s.mem[('m', n)] = E.arith('add', s.mem.get(('m', n), num(0, 'i64')), field(E, s, md, f), 'i64')
        self.flush(E, s)
        s.mem[('m', 'cur')] = x
        s.mon = tuple(sorted(set(s.mon) | {'pending'} | ({'first'} if i.op == 'int' and i.a[0] == 0 else set())))
        out = []
        a = s.copy()
        if 'j' not in a.mon and E.assume(a, E.cmp('eq', i, self.j), True):
            if isinstance(v.ty, int) and E.P.T[v.ty]['k'] == 'tuple':
                pages = E.getk(v, ('f', 0, 1, E.P.T[v.ty]['a'][1]), a)
                E.assume(a, E.cmp('eq', mk('call', 'rows', pages, ty='i64'), self.rj), True)
            a.mon = tuple(sorted(set(a.mon) | {'j', 'now'}))
            out.append(a)
        if E.assume(s, E.cmp('eq', i, self.j), False):
            out.append(s)
        return out

    def on_back(self, E, st):
        st.mon = tuple(m for m in st.mon if m not in ('first', 'now'))

    def on_end(self, E, s, b, pos):
        v = E.content(s, b) if b.op == 'ref' else b
        s.mon = tuple(m for m in s.mon if m not in ('first', 'now'))
        if not self.islist(E, v) or 'whole' not in s.mon:
            return None
        self.flush(E, s)
        for n in SUMS:
            for g in (s.mem.get(('m', n)), s.mem.get(('m', 'late ' + n))):
                if g is not None:
                    E.assume(s, E.cmp('eq', g, self.total[n]), True)
        return 'j' in s.mon

    def on_push(self, E, st, c, r, p, v, x):
        if self.chunk_of(E, st, x) is not None or isinstance(v.ty, int) and self.islist(E, v):
            from .c08 import mentions
            last = st.mem.get(('m', 'chunk'))
            k = E.length(v, st)


def functions(P):
    us = Wr.units(P)
    groups = [i for i in us.values() if made(P, Wr.resty(P, i), '(RowGroup,')]
    chunks = set()
    for i in us.values():
        if made(P, Wr.resty(P, i), '(ColumnChunk,'):
            chunks |= {j['id'] for j in P.bypath.get(i['p'], ())}
    from .lists import by_sig
    rows = set()
    for i in by_sig(P, [r'&\[PageWriteSpec\]'], r'Result<i64, .*>'):
        rows |= {j['id'] for j in P.bypath.get(i['p'], ())}
    return groups, chunks, rows


def analyse(P, i, chunks, rows):
    """obligations (property, good, key, what, where)"""
    from .c08 import path_of, alts, flat, mentions, INT, strip
    from .lists import payload
    E = None
    args = None
    obs = []
    where = '%s:%s' % (i['file'], i['line'])
    ka = [k for k in range(i['argc']) if norm(P.tys(i['tys'][k + 1])) == '&[ColumnDescriptor]']
    if not ka:
        return [('C36', False, 'descriptors', '%s takes no list of column descriptors' % i['p'], where)]
    cl = Client(P, chunks, rows, None)
    E = Engine(P, cl, budget=400000)
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    cl.desc = args[ka[0]]
    st = State()
    st.mem[('m', 'calls')] = num(0, 'usize')
    st.mem[('m', 'nexts')] = num(0, 'usize')
    n = E.length(E.content(st, cl.desc), st)
    E.assume(st, E.cmp('lt', cl.j, n), True)
    try:
        ex, ev, fr = runfn(E, i, args, st)
    except TooBig:
        return [(p, False, 'too-big', 'function too large to analyse: ' + i['p'], where) for p in ('C08', 'C36')]
    for e in ev:
        if e.kind == 'ob':
            obs.append(('C36', e.data[0], e.data[1], e.data[2], e.where()))
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        t = r.a[2]
        g, specs = t.a[2], t.a[3]
        k = cl.calls(s)
        A = lambda p, good, key, what: obs.append((p, good, key, '%s: %s' % (i['p'], what), where))
        A('C36', eq(E, s, k, n), 'one chunk per column', 'succeeds after writing %s chunks for %s columns' % (k, n))
        last = s.mem.get(('m', 'last'))
        A('C36', last is not None and E.variants(s, last, 'core::option::Option') == frozenset((0,)), 'no columns left', 'may succeed without having seen the end of the columns')
        rws = field(E, s, g, 'num_rows')
        if rows:
            A('C36', eq(E, s, rws, cl.rj), 'equal rows', 'succeeds though the chunks may have different numbers of rows (%s rows are recorded)' % rws)
            A('C08', eq(E, s, rws, cl.rj), 'num_rows', 'records %s rows, not the rows of its chunks' % rws)
        cols = field(E, s, g, 'columns')
        A('C08', eq(E, s, E.length(cols, s), k), 'columns', 'records %s chunks, %s were written' % (E.length(cols, s), k))
        A('C08', all(path_of2(E, x)[1] == '0' for x in flat(E, cols)), 'chunks', 'records as chunks %s' % [str(x)[:80] for x in flat(E, cols)])
        A('C08', eq(E, s, E.length(specs, s), k) and all(path_of2(E, x)[1] == '1' for x in flat(E, specs)), 'pages', 'reports as pages of the chunks %s' % [str(x)[:80] for x in flat(E, specs)])
        v = field(E, s, g, 'total_byte_size')
        A('C08', eq(E, s, v, cl.total['total_byte_size']), 'total_byte_size', 'records %s as the uncompressed size, not the sum over its chunks' % v)
        v = field(E, s, g, 'total_compressed_size')
        good = v.op == 'agg' and (v.a[1] == 0 or eq(E, s, v.a[2], cl.total['total_compressed_size']))
        A('C08', good, 'total_compressed_size', 'records %s as the compressed size, not the sum over its chunks' % v)
        v = field(E, s, g, 'file_offset')
        srcs = set()
        for x in deep(E, v):
            if x.op == 'agg' and x.a[1] == 0:
                continue
            b = x.a[2] if x.op == 'agg' else x
            for y in deep(E, b):
                q = path_of2(E, y)
                srcs.add(q[1].rstrip('.?') + (' of chunk %s' % q[2] if q[2] != '0' else ''))
        want = {'0.meta_data.?.dictionary_page_offset', '0.meta_data.?.data_page_offset'}
        A('C08', srcs <= want, 'file_offset', 'records %s as its position, not that of the first page of its first chunk' % sorted(srcs))
    for p in ('C08', 'C36'):
        obs.append((p, oks > 0, 'succeeds', '%s never succeeds' % i['p'], where))
    return obs


def deep(E, n, d=0):
    """alternatives of a value, also of a field of a joined value"""
    from .lists import alts
    out = []
    for x in alts(E, n):
        if x.op == 'field' and d < 8:
            bs = [b for b in deep(E, x.a[0], d + 1)]
            if len(bs) == 1 and bs[0] is x.a[0]:
                out.append(x)
                continue
            for b in bs:
                if b.op == 'agg':
                    if b.a[1] == x.a[1] and len(b.a) > 2 + x.a[2]:
                        out += deep(E, b.a[2 + x.a[2]], d + 1)
                else:
                    out.append(E.getk(b, ('f', x.a[1], x.a[2], None)))
        else:
            out.append(x)
    return out


def path_of2(E, n):
    """fields from the result of writing a chunk (or an element of the list of chunks) to this value, and the element's position"""
    from .c08 import path_of
    base, p = path_of(E, n)
    pos = '0'
    x = n
    for _ in range(16):
        if x.op == 'elem':
            if x.a[0].op == 'vec':
                pos = str(x.a[1])
            x = x.a[0]
            break
        if x.op in ('field', 'deref', 'cast'):
            x = x.a[0]
        else:
            break
    p = p.split('[]')[-1].strip('.')
    return base, p, pos


# ------------------------------------------------------------------ one chunk
class ChunkClient(Wr.Client):
    def __init__(self, P, pages, builders):
        super().__init__(P)
        self.pages, self.builders = pages, builders

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i in self.pages:
            P = E.P
            if c.dty is not None and P.T[c.dty]['k'] in ('coroutine', 'alias'):
                return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
            r = mk('eff', 'a page', c.site, ty=E.scalar(P.T[c.dty]['a'][0]))
            E.forget(st, r)
            k = st.mem[('m', 'calls')]
            s1, s2 = st.copy(), st.copy()
            s1.mem[('m', 'calls')] = E.arith('add', k, num(1, 'usize'), 'usize')
            return [(s1, ok(r)), (s2, err(mk('eff', 'failed', c.site)))]
        if i in self.builders:
            l = M.seq(E, st, c.args[0])
            c.ev.append(Event('build', (l, c.args[1], st.mem[('m', 'calls')]), st.copy(), c.fr, c.line))
            r = mk('call', CHUNK, l, ty=E.scalar(E.P.T[c.dty]['a'][0]))
            return [(st.copy(), ok(r)), (st.copy(), err(mk('eff', 'failed', c.site)))]
        return super().on_call(E, st, c)

    def effect(self, st, what):
        if isinstance(what, tuple) and what[0] == 'thrift':
            st.mem[('m', 'meta')] = self.E.content(st, what[1])


def chunk_writers(P):
    us = Wr.units(P)
    from .lists import by_sig
    writers = [i for i in us.values() if made(P, Wr.resty(P, i), '(ColumnChunk,')]
    pages = set()
    for i in us.values():
        t = Wr.resty(P, i)
        if t is not None and norm(P.tys(t)) == 'PageWriteSpec':
            pages |= {j['id'] for j in P.bypath.get(i['p'], ())}
    builders = set()
    for i in by_sig(P, [r'&\[PageWriteSpec\]', r'&ColumnDescriptor'], r'Result<ColumnChunk, .*>'):
        builders |= {j['id'] for j in P.bypath.get(i['p'], ())}
    return writers, pages, builders


def analyse_chunk(P, i, pages, builders):
    from .c08 import flat, unref, deepsame
    obs = []
    where = '%s:%s' % (i['file'], i['line'])
    cl = ChunkClient(P, pages, builders)
    E = Engine(P, cl, budget=400000)
    cl.E = E
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    desc = [args[k] for k in range(i['argc']) if norm(P.tys(i['tys'][k + 1])) == '&ColumnDescriptor']
    st = State()
    st.mem[('m', 'calls')] = num(0, 'usize')
    try:
        ex, ev, fr = runfn(E, i, args, st)
    except TooBig:
        return [('C08', False, 'too-big', 'function too large to analyse: ' + i['p'], where)]
    A = lambda good, key, what, w=where: obs.append(('C08', good, key, '%s: %s' % (i['p'], what), w))
    built = [e for e in ev if e.kind == 'build']
    A(bool(built), 'metadata', 'computes no metadata of the chunk')
    ispage = lambda x: x.op == 'eff' and x.a[0] == 'a page'
    for e in built:
        l, d, k = e.data
        A(eq(E, e.st, E.length(l, e.st), k), 'all pages', 'computes the metadata from %s pages when %s were written' % (E.length(l, e.st), k), e.where())
        A(all(ispage(unref(E, e.st, x)) for x in flat(E, l)), 'its pages', 'computes the metadata from %s' % [str(x)[:80] for x in flat(E, l)], e.where())
        A(bool(desc) and (d is desc[0] or E.content(e.st, d) is E.content(e.st, desc[0])), 'descriptor', 'computes the metadata for the column %s' % d, e.where())
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        t = r.a[2]
        cc, sp = t.a[2], t.a[3]
        A(cc.op == 'call' and cc.a[0] == CHUNK, 'chunk', 'returns %s as the metadata of the chunk' % str(cc)[:80])
        A(eq(E, s, E.length(sp, s), s.mem[('m', 'calls')]) and all(ispage(x) for x in flat(E, sp)), 'pages', 'returns %s as the pages of the chunk' % str(sp)[:80])
        m = s.mem.get(('m', 'meta'))
        md = field(E, s, cc, 'meta_data')
        md = md.a[2] if md.op == 'agg' else E.getk(md, ('f', 1, 0, P.T[md.ty]['a'][0]), s)
        A(m is not None and deepsame(E, s, m, md), 'metadata written', 'writes %s behind the pages, not the metadata of the chunk' % str(m)[:80])
    A(oks > 0, 'succeeds', 'never succeeds')
    return obs


def rows_obs(P):
    """the functions that count the rows of a list of pages"""
    from . import lists as Ls
    from .c20 import nrows
    obs = []
    for i in Ls.by_sig(P, [r'&\[PageWriteSpec\]'], r'Result<i64, .*>'):
        where = '%s:%s' % (i['file'], i['line'])
        cl = Ls.Client(P, None, {'rows': ('i64', nrows)}, Ls.page_kinds)
        try:
            E, ex, ev, args = Ls.run_list(P, i, cl)
        except TooBig:
            obs.append(('C08', False, 'too-big', 'function too large to analyse: ' + i['p'], where))
            continue
        oks = 0
        for s, r in ex:
            if carries(E, s, r):
                continue
            oks += 1
            v = r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, 'i64'), s)
            obs.append(('C08', eq(E, s, v, cl.tot('rows')), 'rows', '%s counts %s rows, not those of the data pages' % (i['p'], v), where))
        obs.append(('C08', oks > 0, 'succeeds', '%s never succeeds' % i['p'], where))
    return obs


def task(item):
    """obligations of one function of the write path, in a process of its own"""
    from .. import frame
    P = frame.prog('full')
    kind, p = item
    if kind == 'rows':
        return rows_obs(P)
    if kind == 'group':
        g, ch, ro = functions(P)
        return analyse(P, next(i for i in g if i['p'] == p), ch, ro)
    w, pg, b = chunk_writers(P)
    return analyse_chunk(P, next(i for i in w if i['p'] == p), pg, b)


def items(P):
    return [('group', i['p']) for i in functions(P)[0]] + [('chunk', i['p']) for i in chunk_writers(P)[0]] + [('rows', '')]
