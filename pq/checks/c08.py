"""C08: the metadata of a column chunk and of a row group describe what was written."""
from ..core import Event, TooBig, num, mk, agg, node, OPT, RES, NONE, some, ok, err, Engine, State, INT
from .. import models as M
from .. import frame
from . import lists as Ls
from . import writer as Wr
from .lists import own, header, payload, alts, by_sig
from .c07 import eq
from .common import carries, runfn
from .tab import field, norm

DATA = ('v1', 'v2')
PURE = (('codec', r'CompressionCodec', r'Compression'), ('physical', r'\(Type, Option<i32>\)', r'PhysicalType'))
REDUCED = 'reduced statistics'


def nvals(E, st, ref, k):
    if k not in DATA:
        return None
    which = dict((a, w) for a, b, w in Ls.KINDS)[k]
    h = payload(E, st, header(which)(E, st, ref))
    return field(E, st, h, 'num_values')


def i64(E, st, v):
    return E.int_cast(st, v, v.ty, 'i64') if v.ty in INT else v


def size(which):
    def f(E, st, ref, k):
        return E.arith('add', i64(E, st, own('header_size', 'u64')(E, st, ref)), header(which)(E, st, ref), 'i64')
    return f


SUMS = {'values': ('i64', nvals),
        'values2': ('i64', lambda E, s, r, k: i64(E, s, own('num_values', 'usize')(E, s, r)) if k in DATA else None),
        'compressed': ('i64', size('compressed_page_size')), 'uncompressed': ('i64', size('uncompressed_page_size')),
        'written': ('i64', lambda E, s, r, k: i64(E, s, own('bytes_written', 'u64')(E, s, r))),
        'written64': ('u64', lambda E, s, r, k: own('bytes_written', 'u64')(E, s, r)),
        'compressed64': ('u64', lambda E, s, r, k: E.arith('add', own('header_size', 'u64')(E, s, r), header('compressed_page_size')(E, s, r), 'u64')),
        'pages': ('usize', lambda E, s, r, k: num(1, 'usize')), 'data pages': ('usize', lambda E, s, r, k: num(1, 'usize') if k in DATA else None)}


def sym(n, ty):
    return mk('sym', n, ty=ty)


class Client(Ls.Client):
    """has: whether the list has data pages and dictionary pages"""
    has = None

    def step(self, E, s, ref, i, back):
        outs = []
        if self.has is None:
            return [s2 for s2 in super().step(E, s, ref, i, back) if 'kind other' not in s2.mon]
        for s2 in super().step(E, s, ref, i, back):
            k = next(m[5:] for m in s2.mon if m.startswith('kind '))
            what = {'v1': 'data', 'v2': 'data', 'dict': 'dict'}.get(k)
            if what is None or not self.has[what] or what == 'data' and self.has.get('only') not in (None, k):
                continue
            if ('seen ' + what) not in s2.mon and not back:
                off = own('offset', 'u64')(E, s2, ref)
                E.assume(s2, E.cmp('eq', off, sym('first %s' % what, 'u64')), True)
                E.assume(s2, E.cmp('eq', i64(E, s2, off), sym('first %s i64' % what, 'i64')), True)
                s2.mon = tuple(sorted(set(s2.mon) | {'seen ' + what}))
            outs.append(s2)
        return outs

    def reset(self, E, st):
        super().reset(E, st)
        st.mon = tuple(m for m in st.mon if not m.startswith('seen '))

    def finish(self, E, s):
        super().finish(E, s)
        return self.has is None or all('seen ' + what in s.mon for what in ('data', 'dict') if self.has[what])

    def on_call(self, E, st, c):
        r = super().on_call(E, st, c)
        if r is not None:
            return r
        if c.dty is None or len(c.args) != 1 or c.argtys[0] is None:
            return None
        d, a = norm(E.P.tys(c.dty)), norm(E.P.tys(c.argtys[0]))
        import re
        for name, dst, src in PURE:
            if re.fullmatch(dst, d) and re.fullmatch(src, a) and c.fn.get('i') is not None:
                return [(st, mk('call', name, c.args[0], ty=c.dty))]
        i = c.fn.get('i')
        if i is not None and E.P.I[i].get('local'):
            if d == 'Statistics' and '::parquet_format::' in E.P.tys(c.dty):
                v = E.content(st, c.args[0])
                return [(st, mk('call', 'page statistics', v, ty=c.dty))]
            if re.fullmatch(r"&\[.*Option<Arc<dyn .*Statistics.*>>\]", a) and d.startswith('Result<'):
                l = M.seq(E, st, c.args[0])
                c.ev.append(Event('reduce', l, st.copy(), c.fr, c.line))
                r = mk('call', REDUCED, l, ty=E.scalar(E.P.T[c.dty]['a'][0]))
                return [(st.copy(), ok(r)), (st, err(mk('eff', 'failed', c.site)))]
        return None


def through(E, v):
    """the value sorting, boxing and unwrapping steps were applied to"""
    for _ in range(12):
        if v.op in ('cast', 'perm', 'sorted') or v.op == 'call' and v.a[0] in ('sort', 'perm', '&') or v.op == 'mut' and str(v.a[0]).split('::')[-1] in ('dedup', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key'):
            v = next(x for x in v.a if hasattr(x, 'op'))
        else:
            break
    return v


def mentions(v, pred, d=0):
    if d > 14:
        return False
    if pred(v):
        return True
    return any(mentions(x, pred, d + 1) if hasattr(x, 'op') else isinstance(x, tuple) and any(mentions(y, pred, d + 1) for y in x if hasattr(y, 'op')) for x in v.a)


def path_of(E, n):
    """names of the fields from an element of the list (or a parameter) to this value"""
    out = []
    for _ in range(16):
        if n.op == 'field':
            b = n.a[0]
            ad = E.adt_of(b.ty) if isinstance(b.ty, int) else None
            a = E.P.adts.get(ad) if ad else None
            vi = n.a[1] if isinstance(n.a[1], int) else 0
            if ad == OPT:
                out.append('?')
            else:
                out.append(a['variants'][vi]['f'][n.a[2]] if a and vi < len(a['variants']) and n.a[2] < len(a['variants'][vi]['f']) else str(n.a[2]))
            n = b
        elif n.op in ('deref', 'cast'):
            n = n.a[0]
        elif n.op == 'elem':
            out.append('[]')
            n = n.a[0]
        elif n.op == 'call' and n.a[0] in ('clone', '&', 'codec', 'physical', 'page statistics') or n.op == 'elems':
            if n.op == 'elems':
                out.append('[]')
            n = next(x for x in n.a if hasattr(x, 'op'))
        else:
            break
    return n, '.'.join(reversed(out))


class Codecs(Client):
    """a list in which a page after the first has another codec than the first"""
    first = True

    def step(self, E, s, ref, i, back):
        outs = []
        for s2 in super().step(E, s, ref, i, back):
            if back:
                outs.append(s2)
                continue
            v = own('compression', None)(E, s2, ref)
            for k in (0,) if i.op == 'int' and i.a[0] == 0 else (0, 1):
                s3 = s2.copy()
                if E.assume_var(s3, v, E.adt_of(v.ty), k, True):
                    if k:
                        s3.mon = tuple(sorted(set(s3.mon) | {'other codec'}))
                    outs.append(s3)
        return outs

    def reset(self, E, st):
        super().reset(E, st)
        st.mon = tuple(m for m in st.mon if m != 'other codec')

    def finish(self, E, s):
        super().finish(E, s)
        return 'other codec' in s.mon

    def on_set(self, E, s, v):
        # a set of the codecs of all pages has at least these two
        if 'other codec' in s.mon and all(path_of(E, x)[1].endswith('compression') for x in flat(E, v)):
            E.assume(s, E.cmp('le', num(2, 'usize'), v.a[0]), True)


TASKS = [('has', dict(data=d, dict=k), ()) for d in (0, 1) for k in (0, 1)] + [('has', dict(data=1, dict=0, only=v), ()) for v in DATA] + [('codec', None, ())] + \
    [('sum', f, sums) for f, sums in (('num_values', ('values', 'values2')), ('total_compressed_size', ('compressed', 'written', 'written64', 'compressed64')),
                                      ('total_uncompressed_size', ('uncompressed',)), ('file_offset', ('compressed', 'written')), ('reduce', ('pages', 'data pages')))]
WHAT = {'num_values': 'the number of values of all data pages', 'total_compressed_size': 'the compressed sizes of all pages with their headers',
        'total_uncompressed_size': 'the uncompressed sizes of all pages with their headers', 'file_offset': 'the position behind the pages of the chunk'}


def chunk(c, i, n, task):
    name = i['p']
    c.analysed[name] = 1
    where = '%s:%s' % (i['file'], i['line'])
    kind, what, sums = task
    if kind == 'codec':
        cl = Codecs(c.P, None, {}, Ls.page_kinds)
        x = run(c, i, cl, lambda E, st: E.assume(st, E.cmp('le', num(2, 'usize'), E.length(cl.thelist(E, st), st)), True))
        if x is not None:
            E, ex, ev, args = x
            n[0] += 1
            c.ob(all(carries(E, s, r) for s, r in ex if 'other codec' in s.mon), 'one codec ' + name, '%s succeeds for pages of different codecs' % name, where, '%s: pages of different codecs are an error' % name)
        return set()
    if kind == 'has':
        return chunk1(c, i, n, name, where, what)
    bad = None
    for sm in sums:
        bad = sums1(c, i, n, name, where, what, sm)
        if not bad:
            break
    n[0] += 1
    if what != 'reduce':
        c.ob(not bad, '%s %s' % (what, name), '%s records %s as %s; it must be %s' % (name, bad, what, WHAT[what]), where, '%s: %s is %s' % (name, what, WHAT[what]))
    else:
        c.ob(not bad, 'reduced pages ' + name, '%s %s' % (name, bad), where, '%s: the statistics of every page are reduced' % name)
    return set()


def run(c, i, cl, start):
    try:
        return Ls.run_list(c.P, i, cl, start)
    except TooBig:
        c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
        return None


def meta(E, s, r):
    """the column chunk, and its metadata"""
    cc = r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, None), s)
    md = field(E, s, cc, 'meta_data')
    return cc, md.a[2] if md.op == 'agg' and md.a[1] == 1 else None


def sums1(c, i, n, name, where, what, sm):
    """what differs from the ghost sum, if anything"""
    cl = Client(c.P, None, {sm: SUMS[sm]}, Ls.page_kinds)

    def start(E, st):
        if what == 'file_offset':
            E.assume(st, E.cmp('le', num(1, 'usize'), E.length(cl.thelist(E, st), st)), True)
    x = run(c, i, cl, start)
    if x is None:
        return None
    E, ex, ev, args = x
    t = cl.tot(sm)
    if what == 'reduce':
        red = [e for e in ev if e.kind == 'reduce']
        if not red:
            return 'reduces no statistics'
        for e in red:
            l, s = e.data, e.st
            ps = {path_of(E, unref(E, s, x))[1] for x in flat(E, l)}
            if not (ps and ps <= {'[].statistics', '[].statistics.?'} and (l.op != 'vec' or eq(E, s, l.a[0], t))):
                return 'reduces the statistics of %s: %s' % (E.length(l, s), sorted(ps))
        return None
    for s, r in ex:
        if carries(E, s, r):
            continue
        cc, md = meta(E, s, r)
        if md is None:
            return None
        if what == 'file_offset':
            v = field(E, s, cc, what)
            first = i64(E, s, own('offset', 'u64')(E, s, E.ref(cl.root, (('i', num(0, 'usize')),))))
            if not eq(E, s, v, E.arith('add', first, t, 'i64')):
                return str(v)[:120]
        else:
            v = field(E, s, md, what)
            if not eq(E, s, v, t):
                return str(v)[:120]
    return None


def chunk1(c, i, n, name, where, has):
    empty = not has['data'] and not has['dict']
    cl = Client(c.P, None, {}, Ls.page_kinds)
    cl.has = has
    cl.first = True
    encodings = set()

    def start(E, st):
        ln = E.length(cl.thelist(E, st), st)
        E.assume(st, E.cmp('eq', ln, num(0, 'usize')) if empty else E.cmp('le', num(1, 'usize'), ln), True)
    x = run(c, i, cl, start)
    if x is None:
        return encodings
    E, ex, ev, args = x
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        cc, md = meta(E, s, r)
        if md is None:
            c.violation('metadata ' + name, '%s may leave out the metadata of the chunk' % name, where)
            continue
        g = lambda f: field(E, s, md, f)
        dp = g('data_page_offset')
        if has['data']:
            n[0] += 1
            c.ob(any(eq(E, s, y, sym('first data' + x, t)) for y in (dp, strip(dp)) for x, t in (('', 'u64'), (' i64', 'i64'))), 'data_page_offset ' + name,
                 '%s records %s as the offset of the first data page' % (name, str(dp)[:120]), where, '%s: data_page_offset is that of the first data page' % name)
        for t, dd in M.split_enum(E, s, g('dictionary_page_offset'), OPT):
            n[0] += 1
            if dd.a[1] == 0:
                c.ob(not has['dict'], 'dictionary_page_offset ' + name, '%s may leave out the offset of the dictionary page' % name, where)
            else:
                x = dd.a[2]
                c.ob(bool(has['dict']) and any(eq(E, t, y, sym('first dict' + z, ty)) for y in (x, strip(x)) for z, ty in (('', 'u64'), (' i64', 'i64'))), 'dictionary_page_offset ' + name,
                     '%s records %s as the offset of the dictionary page%s' % (name, str(x)[:120], '' if has['dict'] else ', and there is none'), where, '%s: dictionary_page_offset is that of the dictionary page' % name)
        # codec, type and path
        for f, want in (('codec', ('[].compression',)), ('type_', ('descriptor.primitive_type.physical_type.0', 'descriptor.primitive_type.physical_type')), ('path_in_schema', ('path_in_schema',))):
            if f == 'codec' and empty:
                continue
            n[0] += 1
            srcs = set()
            for x in alts(E, g(f)):
                v = x
                if v.op == 'call' and v.a[0] == 'codec':
                    srcs |= {path_of(E, y)[1] if y.op != 'agg' else 'const %s' % y.a[1] for y in flat1(E, v.a[1])}
                else:
                    srcs.add(path_of(E, v)[1] if v.op not in ('agg', 'int') else 'const ' + str(v))
            srcs = {x for x in srcs if not (f == 'codec' and x == 'const 0')}
            c.ob(bool(srcs) and srcs <= set(want), '%s %s' % (f, name), '%s takes the %s from %s instead of %s' % (name, f, sorted(srcs), want[0]), where, '%s: %s from %s' % (name, f, sorted(srcs)))
        # encodings
        odd = []
        rle = False
        for x in [through(E, x) for x in flat(E, g('encodings'))]:
            e = E.getk(x, ('f', 0, 0, 'i32'), s) if x.op == 'agg' else x
            if x.op == 'agg' and e.op == 'int':
                if e.a[0] != 3:
                    odd.append(x)
                else:
                    rle = True
                continue
            p = path_of(E, e)[1]
            p = p[:-2] if p.endswith('.0') else p
            if '[]' in p:
                encodings.add(p.split(']')[-1].strip('.'))
            else:
                odd.append(x)
        n[0] += 1
        c.ob(not odd and encodings <= {'header.%s.?.encoding' % w for k, code, w in Ls.KINDS[:3]}, 'encodings ' + name, '%s lists other encodings than those of its pages and RLE: %s' % (name, [str(x)[:80] for x in odd] + sorted(encodings)), where)
        if has.get('only'):
            n[0] += 1
            mine = 'header.%s.?.encoding' % {k: w for k, code, w in Ls.KINDS}[has['only']]
            c.ob(rle and mine in encodings, 'encodings of %s pages %s' % (has['only'], name), '%s leaves out, for %s pages, %s' % (name, has['only'], 'the encoding of the levels (RLE)' if mine in encodings else 'the encoding of the page'), where,
                 '%s: %s pages list their encoding and RLE' % (name, has['only']))
        # statistics
        st = g('statistics')
        n[0] += 1
        good = all(x.op == 'agg' and (x.a[1] == 0 or mentions(x, lambda y: y.op == 'call' and y.a[0] == REDUCED)) for x in alts(E, st)) and any(mentions(x, lambda y: y.op == 'call' and y.a[0] == REDUCED) for x in alts(E, st)) \
            if not any(mentions(x, lambda y: y.op == 'call' and y.a[0] == REDUCED) and x.op != 'agg' for x in alts(E, st)) else True
        red = [e for e in ev if e.kind == 'reduce']
        none = st.op == 'agg' and st.a[1] == 0
        c.ob(good or none and some_reduced_none(E, s), 'statistics ' + name, '%s records %s as the statistics, which are not the reduction of its pages' % (name, str(st)[:120]), where)
    c.ob(oks > 0, 'succeeds ' + name, '%s never succeeds' % name, where)
    return encodings


def some_reduced_none(E, s):
    return any(k.op == 'call' and k.a[0] == REDUCED and vs == frozenset((0,)) for k, vs in s.var.items())


def unref(E, s, x):
    for _ in range(3):
        if x.op == 'ref':
            x = E.content(s, x)
    return x


def strip(v):
    while v.op == 'cast':
        v = v.a[0]
    return v


def flat1(E, v, d=0):
    """alternatives of a value taken out of a collection"""
    out = []
    for x in alts(E, v):
        if x.op in ('elem', 'elems') and d < 8:
            for y in alts(E, x.a[0]):
                if y.op == 'vec':
                    out += flat1(E, y.a[1], d + 1)
                elif y.op == 'agg' and y.a[0] == 'array':
                    out += [w for z in y.a[2:] for w in flat1(E, z, d + 1)]
                else:
                    out.append(x)
        else:
            out.append(x)
    return out


def flat(E, v):
    """alternatives of the elements of a collection"""
    out = []
    for x in alts(E, through(E, v)):
        x = through(E, x)
        if x.op == 'vec':
            for y in flat1(E, x.a[1]):
                out.append(y)
        elif x.op == 'agg' and x.a[0] == 'array':
            out += [y for z in x.a[2:] for y in flat1(E, z)]
        else:
            out.append(x)
    return out


def check(c):
    c.rule('Over a list of page descriptions of any length (with and without data and dictionary pages), with ghost sums over the list: the number of values, the compressed and uncompressed totals, the offsets, encodings, codec, type, path, '
           'statistics and file offset recorded for a chunk are the sums, the first positions and the values of exactly these pages; a written page is its header followed by its buffer and is described by that header; '
           'the chunk is described from all pages written; the totals, rows, position and chunks of a row group are those of all chunks written; '
           'the file writers append each row group written to their list, and the footer has that list, the sum of its rows, and the key-value metadata and creator given.')
    P = c.P
    n = [0]
    fs = by_sig(P, [r'&\[PageWriteSpec\]', r'&ColumnDescriptor'], r'Result<ColumnChunk, .*>')
    if not fs:
        c.violation('missing-anchor chunk', 'no function makes a ColumnChunk from a list of page descriptions and a column descriptor')
    ps = [i for i in Wr.units(P).values() if Wr.resty(P, i) is not None and norm(P.tys(Wr.resty(P, i))) == 'PageWriteSpec']
    c.ob(len(ps) >= 2, 'missing-anchor pages', 'the sync and the async function that write a page were not found')
    items = [(i['p'], t) for i in fs for t in range(len(TASKS))]
    allitems = items + [(i['p'], None) for i in ps]
    done = frame.pmap(task, allitems, fresh=True)
    from . import rowgroup
    ri = rowgroup.items(P)
    for it, obs in zip(ri, frame.pmap(rowgroup.task, ri, fresh=True)):
        if it[1]:
            c.analysed[it[1]] = 1
        for prop, good, key, what, where in obs:
            if prop == 'C08':
                n[0] += 1
                c.ob(good, '%s %s' % (key, it[1] or it[0]), what, where, '%s: %s' % (it[1] or it[0], key))
    from . import filemeta
    fi = filemeta.items(P)
    c.ob(len(fi) >= 6, 'missing-anchor files', 'the methods of the sync and async file writers were not found')
    for it, obs in zip(fi, frame.pmap(filemeta.task, fi, fresh=True)):
        c.analysed[it[0]] = 1
        for prop, good, key, what, where in obs:
            if prop == 'C08':
                n[0] += 1
                c.ob(good, '%s %s' % (key, it[0]), what, where, '%s: %s' % (it[0], key))
    kinds = [it[0] for it in ri]
    c.ob(kinds.count('group') >= 2 and kinds.count('chunk') >= 2, 'missing-anchor groups', 'the sync and the async writers of row groups and chunks were not found')
    for viol, cov, k, e in done[len(items):]:
        frame.merge(c, viol, cov)
        n[0] += k
    for i in fs:
        encodings = set()
        for (p, t), (viol, cov, k, e) in zip(items, done):
            if p == i['p']:
                frame.merge(c, viol, cov)
                n[0] += k
                encodings |= e
        name = i['p']
        want = {'header.%s.?.encoding' % w for k, code, w in Ls.KINDS[:3]}
        c.ob(want <= encodings, 'encodings missing ' + name, '%s leaves out the encodings %s' % (name, sorted(want - encodings)), '%s:%s' % (i['file'], i['line']), '%s: encodings are %s' % (name, sorted(encodings)))
    c.floor('obligations', n[0], 60)


def task(item):
    return chunk_task(item) if item[1] is not None else page_task(item[0])


def chunk_task(item):
    p, t = item
    c = frame.Check('C08')
    n = [0]
    e = chunk(c, c.P.inst(p), n, TASKS[t])
    return c.viol, (c.counts, c.samples, c.analysed), n[0], e or set()


# ------------------------------------------------------------------ one page
class PageClient(Wr.Client):
    def effect(self, st, what):
        st.mon = (st.mon + (what[0] if isinstance(what, tuple) else what,))[-4:]
        if isinstance(what, tuple) and what[0] == 'thrift':
            st.mem[('m', 'header')] = self.E.content(st, what[1])
        if isinstance(what, tuple) and what[0] == 'bytes':
            st.mem[('m', 'data')] = what[1]

    def on_call(self, E, st, c):
        self.E = E
        r = super().on_call(E, st, c)
        if r is not None:
            return r
        if c.dty is not None and len(c.args) == 1:
            d = norm(E.P.tys(c.dty))
            if d.startswith('Option<Result<Arc<dyn ') and 'Statistics' in d and c.fn.get('i') is not None and E.P.I[c.fn['i']].get('local'):
                return [(st, mk('call', 'statistics', E.content(st, c.args[0]), ty=c.dty))]
        return None


PAGES = {'v1': (0, 'data_page_header'), 'v2': (3, 'data_page_header_v2'), 'dict': (2, 'dictionary_page_header')}


def page(c, i, n):
    P = c.P
    name = i['p']
    c.analysed[name] = 1
    where = '%s:%s' % (i['file'], i['line'])
    E = Engine(P, PageClient(P), budget=300000)
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    pa = next(a for k, a in enumerate(args) if norm(P.tys(i['tys'][k + 1])) == '&CompressedPage')
    pt = E.P.T[i['tys'][args.index(pa) + 1]]['a'][0]
    T = Wr.resty(P, i)
    for kind, v in (('v1', ('Data', 'V1')), ('v2', ('Data', 'V2')), ('dict', ('Dict',))):
        st = State()
        whole = E.content(st, pa)
        adt = E.adt_of(pt)
        vs = [x['n'] for x in P.adts[adt]['variants']]
        if not E.assume_var(st, whole, adt, vs.index(v[0]), True):
            continue
        inner = E.getk(whole, ('f', vs.index(v[0]), 0, P.tybystr.get(P.adts[adt]['variants'][vs.index(v[0])]['t'][0])), st)
        hd = None
        if kind != 'dict':
            h = field(E, st, inner, 'header')
            ha = E.adt_of(h.ty)
            hv = [x['n'] for x in P.adts[ha]['variants']].index(v[1])
            E.assume_var(st, h, ha, hv, True)
            hd = E.getk(h, ('f', hv, 0, P.tybystr.get(P.adts[ha]['variants'][hv]['t'][0])), st)
        try:
            ex, ev, fr = runfn(E, i, args, st)
        except TooBig:
            c.violation('too-big ' + name, 'function too large to analyse: ' + name)
            return
        oks = 0
        for s, r in ex:
            if carries(E, s, r):
                continue
            oks += 1
            n[0] += 1
            spec = r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, T), s)
            where_ = '%s page %s' % (kind, name)

            def ob(good, key, what):
                c.ob(good, '%s %s' % (key, where_), '%s: %s' % (name, what), where, '%s, %s page: %s' % (name, kind, key))
            ob([x for x in s.mon if x in ('thrift', 'bytes')] == ['thrift', 'bytes'], 'order', 'a %s page is written as %s, not as its header followed by its data' % (kind, list(s.mon)))
            hw = s.mem.get(('m', 'header'))
            header_ = field(E, s, spec, 'header')
            hw = hw if hw is not None else mk('none')
            code, which = PAGES[kind]
            ob(deepsame(E, s, hw, header_), 'header kept', 'the header kept for the metadata is not the one written')
            t = E.getk(field(E, s, header_, 'type_'), ('f', 0, 0, 'i32'), s)
            ob(t.op == 'int' and t.a[0] == code, 'page type', 'the header of a %s page has type %s' % (kind, t))
            for w in ('data_page_header', 'index_page_header', 'dictionary_page_header', 'data_page_header_v2'):
                x = field(E, s, header_, w)
                if w != which:
                    ob(x.op == 'agg' and x.a[1] == 0, 'no ' + w, 'the header of a %s page also has a %s' % (kind, w))
                elif kind != 'dict':
                    ob(x.op == 'agg' and x.a[1] == 1 and deepsame(E, s, E.content(s, x.a[2]) if x.a[2].op == 'ref' else x.a[2], hd), 'header content', 'the %s written is %s and not the header of the page' % (w, str(x)[:100]))
                else:
                    good = x.op == 'agg' and x.a[1] == 1
                    ob(good, 'header content', 'the header of a dictionary page has no %s' % w)
                    if good:
                        d = x.a[2]
                        ob(eq(E, s, strip(field(E, s, d, 'num_values')), field(E, s, inner, 'num_values')), 'num_values', 'the header of a dictionary page has %s values' % field(E, s, d, 'num_values'))
                        e = E.getk(field(E, s, d, 'encoding'), ('f', 0, 0, 'i32'), s)
                        ob(e.op == 'int' and e.a[0] in (0, 2), 'encoding', 'the header of a dictionary page has encoding %s' % e)
            buf = field(E, s, inner, 'buffer')
            dw = s.mem.get(('m', 'data'))
            ob(dw is not None and (dw is buf or path_of(E, dw)[1] == path_of(E, buf)[1]), 'data', 'the data written is %s and not the buffer of the page' % str(dw)[:80])
            cs, us = (strip(field(E, s, header_, x)) for x in ('compressed_page_size', 'uncompressed_page_size'))
            ob(eq(E, s, cs, E.length(buf, s)), 'compressed size', 'the compressed size recorded is %s %s' % (cs, E.length(buf, s)))
            ob(eq(E, s, us, field(E, s, inner, 'uncompressed_page_size')), 'uncompressed size', 'the uncompressed size recorded is %s' % us)
            nv = strip(field(E, s, spec, 'num_values'))
            want = field(E, s, inner, 'num_values') if kind == 'dict' else field(E, s, hd, 'num_values')
            if kind == 'dict':
                ob(eq(E, s, nv, want) or nv.op == 'int', 'values', 'a dictionary page is recorded with %s values' % nv)
            else:
                ob(eq(E, s, nv, want), 'values', '%s values are recorded for a page with %s' % (nv, want))
            ob(path_of(E, field(E, s, spec, 'compression'))[1] == path_of(E, field(E, s, inner, 'compression'))[1], 'codec', 'the codec recorded is %s' % field(E, s, spec, 'compression'))
            sv = field(E, s, spec, 'statistics')
            if kind == 'dict':
                ob(sv.op == 'agg' and sv.a[1] == 0, 'statistics', 'statistics are recorded for a dictionary page')
            else:
                st_ = mk('call', 'statistics', inner)
                own_ = lambda x: mentions(x, lambda y: y.op == 'call' and y.a[0] == 'statistics' and y.a[1] is inner)
                vs_ = alts(E, sv)
                ob(all(own_(x) or x is NONE for x in vs_) and (any(own_(x) for x in vs_) or var_none(E, s, inner)), 'statistics', 'the statistics recorded are %s and not those of the page' % [str(x)[:100] for x in vs_])
        c.ob(oks > 0, 'succeeds %s %s' % (kind, name), '%s never succeeds for a %s page' % (name, kind), where)


def var_none(E, s, inner):
    return any(k.op == 'call' and k.a[0] == 'statistics' and k.a[1] is inner and vs == frozenset((0,)) for k, vs in s.var.items())


def deepsame(E, s, a, b, d=0):
    """equal values, references looked through"""
    if a.op == 'ref':
        a = E.content(s, a)
    if b.op == 'ref':
        b = E.content(s, b)
    if a is b:
        return True
    if d > 8 or a.op != b.op:
        return E.is_int(a) and E.is_int(b) and eq(E, s, a, b)
    if a.op == 'agg':
        return a.a[:2] == b.a[:2] and len(a.a) == len(b.a) and all(deepsame(E, s, x, y, d + 1) for x, y in zip(a.a[2:], b.a[2:]))
    return Ls.same(E, s, a, b)


def page_task(p):
    c = frame.Check('C08')
    n = [0]
    page(c, c.P.inst(p), n)
    return c.viol, (c.counts, c.samples, c.analysed), n[0], set()
