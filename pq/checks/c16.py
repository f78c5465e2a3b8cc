"""C16: the levels of version-2 pages are stored verbatim in front of the compressed values."""
from ..core import Engine, Event, agg, mk, num, node, Node, RES
from .. import models as M
from .. import lin as L
from .common import carries
from .tab import local, thrift, variants, var, struct, field, fn_sig


class Page:
    def __init__(self, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        if c.fn.get('i') is not None and E.P.I[c.fn['i']] is self.inst:
            c.ev.append(Event('low', [(M.seq(E, st, a), E.target(a)) for a in c.args[1:]] + [dict((x[0], x[1:]) for x in st.mon)], st.copy(), c.fr, c.line))
        elif c.decl.split('::')[-1] in ('copy_from_slice', 'clone_from_slice') and len(c.args) == 2:
            r, p = E.target(c.args[0])
            st.mon = st.mon + ((('copy', len(st.mon)), r, p, M.seq(E, st, c.args[1])),)
        return None

    def inline(self, E, inst, c):
        return inst is not self.inst


def slices(n, base, out=None, d=0):
    out = {} if out is None else out
    if d > 20:
        return out
    if n.op == 'slc' and n.a[0] is base:
        out[n] = 1
        return out
    for x in n.a:
        if isinstance(x, Node):
            slices(x, base, out, d + 1)
    return out


def check(c):
    c.rule('At every call of the byte codec for a version-2 page the compressed part starts exactly at the sum of the two level lengths of the page header and the bytes before it have been copied, unchanged and to the same place; '
           'version-1 and dictionary pages are handed to the codec as a whole; the page splitter cuts version-2 pages at the same positions.')
    P = c.P
    hp = local(P, 'DataPageHeader')
    h2 = thrift(P, 'DataPageHeaderV2')
    fs = P.adts[h2]['variants'][0]['f']

    def levels(E, hdr):
        x, y = (E.getk(hdr, ('f', 0, fs.index(k), 'i32')) for k in ('repetition_levels_byte_length', 'definition_levels_byte_length'))
        return x, y, L.ladd(E.lin(x), E.lin(y))

    def eq(E, st, a, e):
        # the level lengths of a header that is written are not negative and fit the page
        x = E.lin(a)
        x = L.lsubst(x, {i: E.lin(node(i).a[0]) for i, _ in x[1] if node(i).op == 'cast'})
        d = L.ladd(x, e, -1)
        return E.entails_ge0(st, d) and E.entails_ge0(st, L.lneg(d))
    n = 0
    for way, low, high in (('compress', fn_sig(c, 'compress', ['CompressionOptions', r'&\[u8\]', r'&mut Vec<u8>']), fn_sig(c, 'compress', ['Page', r'Vec<u8>', 'CompressionOptions'])),
                           ('decompress', fn_sig(c, 'decompress', ['Compression', r'&\[u8\]', r'&mut \[u8\]']), fn_sig(c, 'decompress', ['CompressedPage', r'&mut Vec<u8>']))):
        if low is None or high is None:
            continue
        for kind, ver in [('Data', v) for v in variants(P, hp)] + [('Dict', None)]:
            hdr = mk('sym', 'hdr', ty=None)
            if way == 'compress':
                pt = local(P, 'Page')
                pg = struct(P, local(P, 'DataPage'), header=var(P, hp, ver, hdr)) if kind == 'Data' else struct(P, local(P, 'DictPage'))
                args = [var(P, pt, kind, pg), mk('sym', 'scratch'), var(P, local(P, 'CompressionOptions'), 'Snappy')]
            else:
                pt = local(P, 'CompressedPage')
                co = var(P, local(P, 'Compression'), 'Snappy')
                pg = struct(P, local(P, 'CompressedDataPage'), header=var(P, hp, ver, hdr), compression=co) if kind == 'Data' else struct(P, local(P, 'CompressedDictPage'), compression=co)
                args = [var(P, pt, kind, pg), mk('sym', 'scratch')]
            E = Engine(P, Page(low), budget=200000)
            ex, ev, fr = E.run(high, args)
            lows = [e for e in ev if e.kind == 'low']
            name = '%s %s %s' % (way, kind, ver or '')
            c.ob(bool(lows), name + ' calls', 'no call of the codec found for ' + name)
            if lows:
                buf = field(E, lows[0].st, pg, 'buffer')
            for e in lows:
                n += 1
                src, dst, mon = e.data
                st = e.st
                sv, dv = src[0], dst[0]
                whole = E.length(buf, st)
                if ver != 'V2':
                    c.ob(sv is buf or sv.op == 'slc' and sv.a[0] is buf and eq(E, st, sv.a[1], (0, ())) and eq(E, st, sv.a[2], E.lin(whole)),
                         name + ' whole', '%s: the codec is given %s instead of the whole page' % (name, str(sv)[:150]), e.where())
                    if way == 'compress':
                        c.ob(eq(E, st, E.length(dv, st), (0, ())), name + ' first', '%s: %s bytes precede the compressed page' % (name, E.length(dv, st)), e.where())
                    continue
                rep, de, want = levels(E, hdr)
                c.ob(sv.op == 'slc' and sv.a[0] is buf and eq(E, st, sv.a[1], want) and eq(E, st, sv.a[2], E.lin(whole)),
                     name + ' start', '%s: the codec is given %s; it has to be the page from the sum of the level lengths on' % (name, str(sv)[:200]), e.where(), '%s: %s' % (name, str(sv)[:160]))
                if way == 'compress':
                    c.ob(eq(E, st, E.length(dv, st), want), name + ' levels length', '%s: %s bytes precede the compressed values instead of the levels' % (name, E.length(dv, st)), e.where())
                    sl = slices(dv, buf)
                    good = chain(E, st, [(x.a[1], x.a[2]) for x in sl], want, eq)
                    c.ob(good, name + ' levels', '%s: the bytes in front of the compressed values are %s instead of the levels' % (name, str(dv)[:200]), e.where())
                else:
                    root, path = dst[1]
                    at = path[-1] if path and path[-1][0] == 's' else None
                    c.ob(at is not None and eq(E, st, at[1], want), name + ' target', '%s: the values are decompressed to %s instead of behind the levels' % (name, str(at)[:150]), e.where())
                    parts = []
                    okk = True
                    for k, (r, p, s) in mon.items():
                        d = p[-1] if p and p[-1][0] == 's' else None
                        if d is None or s.op != 'slc' or s.a[0] is not buf or r != root or p[:-1] != path[:-1] or \
                                not (eq(E, st, d[1], E.lin(s.a[1]))):
                            okk = False
                            continue
                        parts.append((s.a[1], s.a[2]))
                    c.ob(okk and chain(E, st, parts, want, eq), name + ' levels', '%s: the levels are not copied verbatim to the start of the page (%s)' % (name, str(list(mon.values()))[:200]), e.where())
    # reading pages
    i = fn_sig(c, 'split_buffer', ['&DataPage'])
    if i is not None:
        hdr = mk('sym', 'hdr')
        pg = struct(P, local(P, 'DataPage'), header=var(P, hp, 'V2', hdr))
        E = Engine(P, None, budget=100000)
        ex, ev, fr = E.run(i, [mk('call', '&', pg)])
        rep, de, want = levels(E, hdr)
        got = 0
        for st, r in ex:
            if carries(E, st, r):
                continue
            got += 1
            n += 1
            t = E.getk(r, ('f', 0, 0, None), st)
            buf = field(E, st, pg, 'buffer')
            cuts = []
            for k in range(3):
                v = M.seq(E, st, E.getk(t, ('f', 0, k, None), st))
                if v is buf:
                    v = mk('slc', buf, num(0, 'usize'), E.length(buf, st))
                cuts.append((v.a[1], v.a[2]) if v.op == 'slc' and v.a[0] is buf else None)
            ends = [(0, ()), E.lin(rep), want, E.lin(E.length(buf, st))]
            good = all(x is not None for x in cuts) and all(eq(E, st, cuts[k][0], ends[k]) and eq(E, st, cuts[k][1], ends[k + 1]) for k in range(3))
            c.ob(good, 'split v2', 'a version-2 page is split at %s instead of after the repetition and after the definition levels' % str(cuts)[:200], '%s:%s' % (i['file'], i['line']), 'split_buffer: %s' % str(cuts)[:200])
        c.ob(got > 0, 'split v2 possible', 'version-2 pages are never split')
    c.floor('codec calls and splits', n, 7)


def chain(E, st, parts, want, eq):
    """the parts cover [0, want) without gaps"""
    at = (0, ())
    left = list(parts)
    if not left:
        return E.entails_ge0(st, L.lneg(want))
    while left:
        k = next((x for x in left if eq(E, st, x[0], at)), None)
        if k is None:
            return False
        left.remove(k)
        at = E.lin(k[1])
        at = L.lsubst(at, {i: E.lin(node(i).a[0]) for i, _ in at[1] if node(i).op == 'cast'})
    d = L.ladd(at, want, -1)
    return E.entails_ge0(st, d) and E.entails_ge0(st, L.lneg(d))
