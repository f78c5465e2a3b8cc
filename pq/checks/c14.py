"""C14: the decompressor of a codec undoes what the compressor of that codec did."""
from ..core import Engine, Event, agg, mk, num, Node, RES, ok, err, UNIT, FALSE, TRUE
from ..frame import prog, pmap, Check, merge
from .common import carries
from . import codec
from .tab import local, variants, var, struct, field, fn_sig, term, norm, tysig

ALGO = {'Snappy': 'snappy', 'Gzip': 'gzip', 'Brotli': 'brotli', 'Lz4Raw': 'lz4', 'Zstd': 'zstd', 'Lz4': 'lz4'}
# what each feature configuration can do; the legacy LZ4 framing is only read
ENC = {'full': ('Snappy', 'Gzip', 'Brotli', 'Lz4Raw', 'Zstd'), 'flex': ('Snappy', 'Gzip', 'Brotli', 'Lz4Raw', 'Zstd'), 'none': ()}
DEC = {'full': ENC['full'] + ('Lz4',), 'flex': ENC['flex'] + ('Lz4',), 'none': ()}
ENDS = {'zstd': ('finish', 'try_finish', 'do_finish')}


def mentions(n, what, d=0, seen=None):
    if n is what:
        return True
    seen = set() if seen is None else seen
    if id(n) in seen or d > 30:
        return False
    seen.add(id(n))
    return any(isinstance(x, Node) and mentions(x, what, d + 1, seen) for x in n.a)


def check(c):
    c.rule('compress and decompress are analysed for every codec under three feature sets: a path that succeeds has called exactly the algorithm of that codec, in the right direction, '
           'with the whole input and the caller\'s output (and finished the stream where the library needs it); for unsupported codecs no path succeeds. '
           'Pages record exactly the codec their contents were compressed with and are decompressed with the codec they record.')
    n = 0
    for viol, cov, k in pmap(config, ('full', 'flex', 'none'), fresh=True):
        n += k
        merge(c, viol, cov)
    pages(c)
    c.floor('codec configurations', n, 48)


def config(cfg):
    c = Check('C14')
    n = 0
    P = prog(cfg)
    for fn, en, table, way, sig in (
            ('compress', 'CompressionOptions', ENC[cfg], 'enc', ['CompressionOptions', r'&\[u8\]', r'&mut Vec<u8>']),
            ('decompress', 'Compression', DEC[cfg], 'dec', ['Compression', r'&\[u8\]', r'&mut \[u8\]'])):
        i = fn_sig(c, fn, sig, cfg=cfg)
        if i is None:
            continue
        ep = local(P, en)
        vs = variants(P, ep)
        where = '%s:%s' % (i['file'], i['line'])
        for v in vs:
            inp, out = mk('sym', 'input'), mk('sym', 'output')
            nf = len(P.adts[ep]['variants'][vs.index(v)]['f'])
            E = Engine(P, codec.Client(), budget=200000)
            ex, ev, fr = E.run(i, [var(P, ep, v, *[mk('sym', 'level') for _ in range(nf)]), inp, out])
            n += 1
            key = '%s %s %s' % (cfg, fn, v)
            oks = [(s, r) for s, r in ex if not carries(E, s, r)]
            if v not in table:
                c.ob(not oks and not any(s.mon for s, _ in ex), key, '%s of %s must fail without these features (%s); it may return %s after %s' % (
                    fn, v, cfg, [str(r)[:60] for _, r in oks], sorted({m for s, _ in ex for m in s.mon})), where)
                continue
            want = (ALGO[v], way)
            c.ob(bool(oks), key + ' succeeds', '%s of %s never succeeds (%s)' % (fn, v, cfg), where)
            for s, r in oks:
                did = {m[:2] for m in s.mon}
                if not did and v == 'Lz4' and E.entails_le(s, E.length(E.content(s, out), s), num(0, 'usize')):
                    continue  # no frame, no output
                c.ob(did == {want}, key, '%s of %s succeeds after %s instead of %s' % (fn, v, sorted(s.mon), want), where, '%s: %s' % (key, sorted(s.mon)))
                ends = ENDS.get(ALGO[v]) if way == 'enc' else None
                if ends:
                    c.ob(any(m[2] in ends for m in s.mon), key + ' end', '%s of %s succeeds without finishing the stream' % (fn, v), where)
            evs = [e for e in ev if e.kind == 'codec']
            # the data given to the codec and the place its result goes to
            c.ob(any(mentions(a, inp) for e in evs for a in e.data[2]), key + ' input', '%s of %s does not use the given input' % (fn, v), where)
            c.ob(any(mentions(a, out) for e in evs for a in e.data[2]), key + ' output', '%s of %s does not fill the given output' % (fn, v), where)
            if v != 'Lz4':
                for e in evs:
                    for a in e.data[2]:
                        # a byte-slice argument taken from the input is the whole input
                        if mentions(a, inp) and a.op == 'call' and a.a[0] == '&' and a.a[1].op in ('subslice', 'slice'):
                            c.ob(a is inp, key + ' whole', '%s of %s gives the codec a part of the input: %s' % (fn, v, str(a)[:120]), e.where())
    return (c.viol, (c.counts, c.samples, c.analysed), n)


class Page:
    """records the calls of the byte-level compress / decompress"""

    def __init__(self, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        if c.fn.get('i') is not None and E.P.I[c.fn['i']] is self.inst:
            a = c.args[0]
            st.mon = tuple(sorted(set(st.mon) | {('call', str(term(E, st, a)))}))
            c.ev.append(Event('codec', tuple(E.norm(st, x) for x in c.args), st, c.fr, c.line))
        return None

    def inline(self, E, inst, c):
        return inst is not self.inst


def pages(c):
    P = c.P
    low = fn_sig(c, 'compress', ['CompressionOptions', r'&\[u8\]', r'&mut Vec<u8>'])
    high = fn_sig(c, 'compress', ['Page', r'Vec<u8>', 'CompressionOptions'])
    lowd = fn_sig(c, 'decompress', ['Compression', r'&\[u8\]', r'&mut \[u8\]'])
    highd = fn_sig(c, 'decompress', ['CompressedPage', r'&mut Vec<u8>'])
    if None in (low, high, lowd, highd):
        return
    op, cp, pp, cpp = (local(P, x) for x in ('CompressionOptions', 'Compression', 'Page', 'CompressedPage'))
    dp, hp = local(P, 'DataPage'), local(P, 'DataPageHeader')
    where = '%s:%s' % (high['file'], high['line'])

    def kinds(build):
        for ver in variants(P, hp):
            yield 'data ' + ver, build('Data', ver)
        yield 'dictionary', build('Dict', None)

    for v in variants(P, op):
        vv = P.adts[op]['variants'][variants(P, op).index(v)]
        opt = var(P, op, v, *[mk('sym', 'level') for _ in vv['f']])

        def mkpage(kind, ver):
            if kind == 'Data':
                return var(P, pp, 'Data', struct(P, dp, header=var(P, hp, ver, mk('sym', 'hdr'))))
            return var(P, pp, 'Dict', struct(P, local(P, 'DictPage')))
        for kind, pg in kinds(mkpage):
            E = Engine(P, Page(low), budget=200000)
            ex, ev, fr = E.run(high, [pg, mk('sym', 'buffer'), opt])
            got = False
            for s, r in ex:
                if carries(E, s, r):
                    continue
                got = True
                page = r.a[2].a[2] if r.op == 'agg' and r.a[2].op == 'agg' else E.getk(E.getk(r, ('f', 0, 0, None), s), ('f', 0, 0, None), s)
                rec = term(E, s, field(E, s, page, 'compression'))
                c.ob(rec == ('Compression::' + v,), 'records %s %s' % (v, kind), 'a %s page compressed with %s records the codec %s' % (kind, v, rec), where)
                want = set() if v == 'Uncompressed' else {('call', str(term(E, s, opt)))}
                c.ob(set(s.mon) == want, 'page compress %s %s' % (v, kind), 'a %s page with %s is compressed by %s' % (kind, v, sorted(s.mon)), where)
                if v == 'Uncompressed':
                    src = field(E, s, pg.a[2], 'buffer')
                    c.ob(field(E, s, page, 'buffer') is src, 'page verbatim ' + kind, 'an uncompressed %s page does not hold the given buffer' % kind, where)
            c.ob(got, 'page compress %s %s possible' % (v, kind), 'a %s page is never compressed with %s' % (kind, v), where)
    where = '%s:%s' % (highd['file'], highd['line'])
    for v in variants(P, cp):
        co = var(P, cp, v)

        def mkc(kind, ver):
            if kind == 'Data':
                return var(P, cpp, 'Data', struct(P, local(P, 'CompressedDataPage'), header=var(P, hp, ver, mk('sym', 'hdr')), compression=co))
            return var(P, cpp, 'Dict', struct(P, local(P, 'CompressedDictPage'), compression=co))
        for kind, pg in kinds(mkc):
            E = Engine(P, Page(lowd), budget=200000)
            ex, ev, fr = E.run(highd, [pg, mk('sym', 'buffer')])
            got = False
            for s, r in ex:
                if carries(E, s, r):
                    continue
                got = True
                want = {('call', str(term(E, s, co)))}
                if v == 'Uncompressed':
                    good = not s.mon
                elif kind == 'data V2':
                    good = set(s.mon) in (want, set())
                else:
                    good = set(s.mon) == want
                c.ob(good, 'page decompress %s %s' % (v, kind), 'a %s page of codec %s is decompressed by %s' % (kind, v, sorted(s.mon)), where)
                if v == 'Uncompressed':
                    page = r.a[2].a[2] if r.op == 'agg' and r.a[2].op == 'agg' else E.getk(E.getk(r, ('f', 0, 0, None), s), ('f', 0, 0, None), s)
                    c.ob(field(E, s, page, 'buffer') is field(E, s, pg.a[2], 'buffer'), 'page verbatim read ' + kind, 'an uncompressed %s page is not returned as stored' % kind, where)
            c.ob(got, 'page decompress %s %s possible' % (v, kind), 'a %s page of codec %s is never decompressed' % (kind, v), where)
