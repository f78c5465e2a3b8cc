"""C27: file framing."""
from ..core import Engine, State, Event, mk, num, node, agg, ok, err, UNIT, FnBox
from .. import models as M
from .. import lin as L
from . import writer as Wr
from . import c07
from .c07 import eq
from .common import carries, runfn, reaches, body_of
from .tab import local, short

MAGIC = (80, 65, 82, 49)


def blist(E, v, st):
    """the single bytes of a short constant-length piece of output, or None"""
    n = E.length(v, st)
    if n.op != 'int' or n.a[0] > 64:
        return None
    n = n.a[0]
    if v.op == 'bytes':
        return [num(x, 'u8') for x in v.a[0]]
    if v.op == 'agg' and v.a[0] == 'array':
        return list(v.a[2:])
    return [E.getk(v, ('i', num(k, 'usize')), st) for k in range(n)]


class Writer(c07.Client):
    """remembers the bytes in front of the metadata and behind it"""

    def effect(self, st, what):
        m = set(st.mon)
        m.discard('flushed')
        if what == 'flush':
            m.add('flushed')
        elif what[0] == 'thrift' and self.ismeta(st, what[1]):
            m.add('twice' if 'meta' in m else 'meta')
            st.mem[('m', 'n')] = what[2]
        elif what[0] == 'bytes':
            c = ('m', 'tail' if 'meta' in m else 'head')
            if c[1] == 'head' and 'body' in m:
                pass
            else:
                b = blist(self.E, what[1], st)
                old = st.mem.get(c, agg('tuple', 0))
                st.mem[c] = agg('tuple', 0, *(list(old.a[2:]) + (b if b is not None else [what[1]])))
        else:
            m.add('body')
        st.mon = tuple(sorted(m, key=str))

    def ismeta(self, st, v):
        return True

    def on_call(self, E, st, c):
        self.E = E
        i = c.fn.get('i')
        if i is not None and i in self.cut and not (c.dty is not None and E.P.T[c.dty]['k'] in ('coroutine', 'alias')):
            out = []
            for s, r in self.cut[i](self, E, st, c):
                if not carries(E, s, r):
                    s.mon = tuple(sorted(set(s.mon) - {'flushed'} | {'body'}, key=str))
                out.append((s, r))
            return out
        return super().on_call(E, st, c)

    def on_assign(self, *a):
        pass


class Reader:
    def __init__(self):
        self.src = {}

    def on_io(self, E, st, c, op):
        if op == 'io::seek':
            v = c.args[1]
            if v.op != 'agg':
                return None
            k = mk('eff', 'seekpos', c.site, ty='u64')
            E.forget(st, k)
            s1, s2 = st.copy(), st.copy()
            if v.a[1] == 1:
                s1.mem[('m', 'dist')] = E.arith('sub', num(0, 'i64'), v.a[2], 'i64')
                if E.lin(v.a[2]) == (0, ()):
                    s1.mem[('m', 'size')] = k
            elif v.a[1] == 0 and ('m', 'size') in s1.mem:
                s1.mem[('m', 'dist')] = E.arith('sub', s1.mem[('m', 'size')], v.a[2], 'i64')
            else:
                s1.mem.pop(('m', 'dist'), None)
            s1.mon = s1.mon + (('seek', c.line),)
            return [(s1, ok(k)), (s2, err(mk('eff', 'ioerr', c.site)))]
        if op == 'io::read_to_end':
            d = st.mem.get(('m', 'dist'))
            out = []
            for s, v in M.io_read_to_end(E, st, c):
                if v.op == 'agg' and v.a[1] == 0 and d is not None:
                    r, p = E.target(c.args[1])
                    w = E.read(s, r, p)
                    if w.op == 'vec' and w.a[1].op == 'eff':
                        self.src[w.a[1]] = d
                    s.mem[('m', 'dist')] = E.arith('sub', d, v.a[2], 'i64')
                out.append((s, v))
            return out
        return None

    def on_call(self, E, st, c):
        if c.path.endswith('FileMetaData::read_from_in_protocol'):
            pr = E.content(st, c.args[0])
            x = pr
            if pr.op == 'call' and len(pr.a) > 1:
                x = pr.a[1]
            elif pr.op == 'agg':
                x = next((y for y in pr.a[2:] if y.op == 'ref' or isinstance(y.ty, int) and 'u8' in E.P.tys(y.ty)), pr)
            c.ev.append(Event('decode', M.seq(E, st, x), st.copy(), c.fr, c.line))
            return [(st.copy(), ok(mk('eff', 'metadata', c.site))), (st, err(mk('eff', 'thrifterr', c.site)))]
        return None

    def inline(self, E, inst, c):
        return 'try_from_thrift' not in inst['p']


def distance(cl, E, v, a):
    """how far from the end of the file a position of this buffer is, as a linear expression"""
    while v.op == 'slc':
        a = L.ladd(a, E.lin(v.a[1]))
        v = v.a[0]
    d = cl.src.get(v.a[1]) if v.op == 'vec' else None
    return None if d is None else L.ladd(E.lin(d), a, -1)


def iseq(E, st, x, k):
    d = L.ladd(x, (k, ()), -1)
    return E.entails_ge0(st, d) and E.entails_ge0(st, L.lneg(d))


def reader(c, i, n):
    P = c.P
    cl = Reader()
    E = Engine(P, cl, budget=400000)
    st0 = State()
    args = [mk('sym', 'p%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    for k in range(i['argc']):
        if P.tys(i['tys'][k + 1]) == 'u64':
            st0.mem[('m', 'size')] = args[k]
    ex, ev, fr = runfn(E, i, args, st0)
    dec = [e for e in ev if e.kind == 'decode']
    c.ob(bool(dec), 'decodes ' + i['p'], '%s never decodes the metadata' % i['p'])
    for e in dec:
        v, st = e.data, e.st
        where = e.where()
        name = i['p']
        at = distance(cl, E, v, (0, ()))
        size = st.mem.get(('m', 'size'))
        if at is None or size is None:
            c.violation('source ' + name, 'the bytes %s decodes are not known to come from the end of the file: %s' % (name, str(v)[:150]), where)
            continue
        # 8 + the little-endian number in front of the magic
        decl = None
        for j, k in at[1]:
            x = node(j)
            while x.op == 'cast':
                x = x.a[0]
            if k != 1 or x.op != 'call' or x.a[0] != 'from_le_bytes' or x.ty not in ('i32', 'u32') or not iseq(E, st, L.ladd(at, (0, ((j, 1),)), -1), 8):
                continue
            b = next((y for y in x.a if hasattr(y, 'op') and y.op == 'slc'), None)
            if b is not None:
                d0, d1 = distance(cl, E, b.a[0], E.lin(b.a[1])), distance(cl, E, b.a[0], E.lin(b.a[2]))
                if d0 and iseq(E, st, d0, 8) and iseq(E, st, d1, 4):
                    decl = x
        c.ob(decl is not None, 'start of the metadata ' + name, '%s decodes from %s bytes before the end of the file instead of the declared length + 8' % (name, ' '.join(['%d' % at[0]] + ['%+d*%s' % (k, str(node(j))[:60]) for j, k in at[1]])), where,
             '%s decodes from 8 + %s before the end' % (name, str(decl)[:80]))
        fits = E.entails_ge0(st, L.ladd(E.lin(size), at, -1))
        c.ob(fits, 'length checked ' + name, '%s goes on although the declared length may exceed the file' % name, where)
        good = False
        for k, truth in st.bools.items():
            if not truth or k.op != 'eq' and not (k.op == 'call' and k.a[0] == 'eq'):
                continue
            xs = [y for y in k.a if hasattr(y, 'op')]
            m = [y for y in xs if y.op == 'bytes' and tuple(y.a[0]) == MAGIC]
            o = [y for y in xs if y.op == 'slc']
            if m and o:
                d0, d1 = distance(cl, E, o[0].a[0], E.lin(o[0].a[1])), distance(cl, E, o[0].a[0], E.lin(o[0].a[2]))
                good = good or d0 is not None and iseq(E, st, d0, 4) and iseq(E, st, d1, 0)
        c.ob(good, 'magic checked ' + name, '%s goes on without the last four bytes of the file being the magic' % name, where)
        n[0] += 3
    for s, r in ex:
        if not carries(E, s, r):
            c.ob(any(e.line for e in dec) and any(str(m).startswith("('seek'") for m in s.mon), 'accepted ' + i['p'], '%s succeeds without reading a footer' % i['p'], '%s:%s' % (i['file'], i['line']))


def writer(c, i, cut, keep, n, fresh):
    P = c.P
    cl = Writer(P, cut, keep)
    E = Engine(P, cl, budget=400000)
    st0 = State()
    st0.mem[Wr.W] = num(0, 'u64')
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    if fresh is not None:
        st0.mem[('p', args[0])] = fresh(E)
    ex, ev, fr = runfn(E, i, args, st0)
    got = 0
    where = '%s:%s' % (i['file'], i['line'])
    for s, r in ex:
        if carries(E, s, r):
            continue
        got += 1
        n[0] += 3
        name = i['p']
        head = s.mem.get(('m', 'head'), agg('tuple', 0)).a[2:]
        c.ob([x.a[0] if x.op == 'int' else None for x in head] == list(MAGIC), 'header ' + name, '%s starts the file with %s instead of the magic' % (name, [str(x) for x in head]), where)
        c.ob('meta' in s.mon and 'twice' not in s.mon, 'metadata ' + name, '%s does not write the metadata exactly once' % name, where)
        tail = s.mem.get(('m', 'tail'), agg('tuple', 0)).a[2:]
        nn = s.mem.get(('m', 'n'))
        good = len(tail) == 8 and [x.a[0] if x.op == 'int' else None for x in tail[4:]] == list(MAGIC) and nn is not None and \
            all(x.op == 'call' and x.a[0] == 'to_le_bytes' and eq(E, s, x.a[1], nn) and x.a[2].op == 'int' and x.a[2].a[0] == k for k, x in enumerate(tail[:4]))
        c.ob(good, 'footer ' + name, '%s writes %s behind the metadata instead of its length and the magic' % (name, [str(x)[:60] for x in tail]), where, '%s: %s' % (name, [str(x)[:40] for x in tail]))
        c.ob('flushed' in s.mon, 'flushed ' + name, '%s may succeed without flushing' % name, where)
    c.ob(got > 0, 'succeeds ' + i['p'], '%s never succeeds' % i['p'], where)


def check(c):
    c.rule('Writers: on every successful path of write_metadata_sidecar, and of end on a new file, the output is exactly the magic, (indexes,) the metadata, four bytes that are the little-endian bytes of the count the '
           'serialiser reported, the magic, and a flush. Readers: at the point where the metadata is decoded, the last four bytes read from the end of the file have been compared equal to the magic, 8 + the '
           'little-endian number before them is at most the file size, and decoding starts exactly that far from the end.')
    P = c.P
    us = Wr.units(P)
    eff = reaches(P, lambda n: n.split('::')[-1] in ('write_all', 'write_to_out_protocol', 'write_to_out_stream_protocol'))
    us = {p: i for p, i in us.items() if i['id'] in eff or body_of(P, i) is not None}
    cut = {p: i for p, i in us.items() if c07.base(p) in c07.INDEX}
    n = [0]
    for want in ('write_metadata_sidecar', 'FileWriter::<W>::end', 'FileStreamer::<W>::end'):
        i = next((i for p, i in us.items() if p.endswith(want)), None)
        if i is None:
            c.violation('missing-anchor ' + want, want + ' was not found')
            continue
        c.analysed[i['p']] = 1
        fresh = None
        if want != 'write_metadata_sidecar':
            new = P.inst(i['p'][:-3] + 'new')
            if new is None:
                c.violation('missing-anchor new', 'the constructor of %s was not found' % i['p'])
                continue

            def fresh(E, new=new):
                cl, E.client = E.client, None
                ex, ev, fr = E.run(new, [mk('sym', 'n%d' % k, ty=E.scalar(new['tys'][k + 1])) for k in range(new['argc'])])
                E.client = cl
                return ex[0][1]
        writer(c, i, cut, eff, n, fresh)
    rd = 0
    for f in P.fns:
        i = P.inst(f['p'])
        if not f['pub'] or i is None or 'err' in i or short(f['p']) not in ('read_metadata', 'read_metadata_with_size', 'read_metadata_async'):
            continue
        rd += 1
        c.analysed[i['p']] = 1
        reader(c, i, n)
    c.floor('metadata readers', rd, 3)
    c.floor('obligations', n[0], 18)
