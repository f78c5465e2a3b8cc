"""C15: a successful decompression produced exactly the declared number of bytes."""
from ..core import State, Engine, Event, agg, mk, num, Node, RES, ok, err, UNIT, some, NONE
from .. import models as M
from .. import lin as L
from ..frame import prog, pmap, Check, merge
from .common import carries
from . import codec
from .tab import local, variants, var, struct, field, fn_sig

CELL = ('m', 'produced')


class Client(codec.Client):
    """counts the bytes the codec reports as written"""

    def __init__(self, total=None):
        self.total = total

    def on_call(self, E, st, c):
        k = codec.classify(E.P, c)
        if k is None:
            return None
        last = c.path.split('::')[-1]
        if k[1] != 'dec' or last in ('new', 'default', 'with_buffer', 'with_dictionary'):
            return None
        oi = self.outarg(E, c)
        if oi is None:
            return None
        room = E.length(M.seq(E, st, c.args[oi]), st)
        r, p = E.target(c.args[oi])
        old = E.read(st, r, p)
        before = st.mem.get(CELL, num(0, 'usize'))
        c.ev.append(Event('op', (k, c.path, room, before), st.copy(), c.fr, c.line))
        E.write(st, r, p, mk('store', old, mk('call', 'decoded', *[E.norm(st, a) for a in c.args[:oi]]), ty=old.ty))
        out = []
        # an Ok result
        s = st.copy()
        if last == 'read_exact':
            n, okv = room, ok(UNIT)
            good = True
        else:
            n = mk('eff', 'ndecoded', c.site, ty='usize')
            E.forget(s, n)
            okv = ok(n)
            good = E.assume(s, E.cmp('le', num(0, 'usize'), n), True) and E.assume(s, E.cmp('le', n, room), True)
            if k[0] == 'snappy':
                # the raw format declares its own size and the library insists on it
                for x in list(s.mon):
                    if isinstance(x, tuple) and x[0] == 'declared' and x[1] == str(E.norm(s, c.args[oi - 1])):
                        good = good and E.assume(s, E.cmp('eq', n, x[2]), True)
        if good:
            at = E.arith('add', before, room, 'usize')
            if self.total is not None and not (E.entails_le(s, self.total, at) and E.entails_le(s, at, self.total)) and E.entails_le(s, self.total, room):
                before = num(0, 'usize')  # starts over
            s.mem[CELL] = E.arith('add', before, n, 'usize')
            out.append((s, okv))
        out.append((st, err(mk('eff', 'codecerr', c.site))))
        return out

    def on_result(self, E, c, r):
        if c.path.split('::')[-1] == 'decompress_len' and c.path.startswith('snap'):
            out = []
            for s, v in r:
                for s2, w in M.split_enum(E, s, v, RES):
                    if w.a[1] == 0:
                        s2 = s2.copy()
                        s2.mon = tuple(sorted(set(s2.mon) | {('declared', str(E.norm(s2, c.args[0])), w.a[2])}, key=str))
                    out.append((s2, w))
            return out
        return r

    def outarg(self, E, c):
        """index of the mutable byte slice"""
        for i, t in reversed(list(enumerate(c.argtys))):
            if E.P.tys(t).replace("'static ", '') == '&mut [u8]':
                return i
        return None


def check(c):
    c.rule('Every successful path of decompress, for every codec and feature set, has had the codec report (or guarantee, for read_exact) as many bytes as the output has, each call writing behind the earlier ones; '
           'every successful path of the page decompressor passes the codec a buffer of exactly the declared uncompressed size (less the verbatim levels of version 2) and returns a page buffer of that size.')
    n = 0
    for viol, cov, k in pmap(config, ('full', 'flex'), fresh=True):
        n += k
        merge(c, viol, cov)
    pages(c)
    c.floor('obligations on byte counts', n, 18)


def config(cfg):
    c = Check('C15')
    n = 0
    P = prog(cfg)
    i = fn_sig(c, 'decompress', ['Compression', r'&\[u8\]', r'&mut \[u8\]'], cfg=cfg)
    if i is None:
        return (c.viol, (c.counts, c.samples, c.analysed), n)
    ep = local(P, 'Compression')
    where = '%s:%s' % (i['file'], i['line'])
    for v in variants(P, ep):
        inp, out = mk('sym', 'input'), mk('sym', 'output')
        cl = Client()
        E = Engine(P, cl, budget=300000)
        cl.total = E.length(E.default(('p', out)))
        st0 = State()
        st0.mem[CELL] = num(0, 'usize')
        ex, ev, fr = E.run(i, [var(P, ep, v), inp, out], st0)
        for s, r in ex:
            if carries(E, s, r):
                continue
            total = E.length(mk('deref', out), s)
            got = s.mem.get(CELL, num(0, 'usize'))
            n += 1
            full = E.entails_le(s, total, got)
            c.ob(full, '%s %s short' % (cfg, v), 'decompress of %s (%s) may succeed with %s of %s bytes' % (v, cfg, got, total), where, '%s %s: produced %s = %s' % (cfg, v, got, total))
        for e in ev:
            if e.kind != 'op':
                continue
            k, path, room, before = e.data
            total = E.length(mk('deref', out), e.st)
            n += 1
            at = E.arith('add', before, room, 'usize')
            c.ob(E.entails_le(e.st, total, room) or E.entails_le(e.st, total, at) and E.entails_le(e.st, at, total), '%s %s position' % (cfg, v),
                 'decompress of %s (%s) writes at another place than behind the %s bytes already produced (room for %s)' % (v, cfg, before, room), e.where())
    return (c.viol, (c.counts, c.samples, c.analysed), n)


class Page:
    def __init__(self, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        if c.fn.get('i') is not None and E.P.I[c.fn['i']] is self.inst:
            c.ev.append(Event('low', tuple(M.seq(E, st, a) for a in c.args[1:]), st.copy(), c.fr, c.line))
            self.wrote(E, st, c.args[2])
        elif c.decl.split('::')[-1] in ('copy_from_slice', 'clone_from_slice') and len(c.args) == 2:
            self.wrote(E, st, c.args[0])
        return None

    def wrote(self, E, st, dst):
        """remembers which part of which buffer has been given its content"""
        r, p = E.target(dst)
        base = p[:-1] if p and p[-1][0] == 's' else p
        total = E.length(E.read(st, r, base), st)
        lo, hi = (p[-1][1], p[-1][2]) if base is not p else (num(0, 'usize'), total)
        st.mon = st.mon + (('wrote', (r, base), lo, hi),)

    def inline(self, E, inst, c):
        return inst is not self.inst


def covers(E, s, buf, size):
    """the recorded writes to this buffer leave no gap from 0 to size"""
    at, parts = num(0, 'usize'), [m[2:] for m in s.mon if m[1] == buf]
    while not E.entails_le(s, size, at):
        k = next((x for x in parts if E.entails_le(s, x[0], at)), None)
        if k is None:
            return False
        parts.remove(k)
        at = k[1]
    return True


def pages(c):
    P = c.P
    low = fn_sig(c, 'decompress', ['Compression', r'&\[u8\]', r'&mut \[u8\]'])
    high = fn_sig(c, 'decompress', ['CompressedPage', r'&mut Vec<u8>'])
    if low is None or high is None:
        return
    cp, cpp, hp = (local(P, x) for x in ('Compression', 'CompressedPage', 'DataPageHeader'))
    where = '%s:%s' % (high['file'], high['line'])
    for kind, ver in [('Data', v) for v in variants(P, hp)] + [('Dict', None)]:
        size = mk('sym', 'declared', ty='usize')
        co = var(P, cp, 'Gzip')
        if kind == 'Data':
            hdr = mk('sym', 'hdr')
            pg = struct(P, local(P, 'CompressedDataPage'), header=var(P, hp, ver, hdr), compression=co, uncompressed_page_size=size)
        else:
            pg = struct(P, local(P, 'CompressedDictPage'), compression=co, uncompressed_page_size=size)
        E = Engine(P, Page(low), budget=200000)
        ex, ev, fr = E.run(high, [var(P, cpp, kind, pg), mk('sym', 'buffer')])
        name = '%s %s' % (kind, ver or '')
        got = 0
        for s, r in ex:
            if carries(E, s, r):
                continue
            got += 1
            page = r.a[2].a[2] if r.op == 'agg' and r.a[2].op == 'agg' else E.getk(E.getk(r, ('f', 0, 0, None), s), ('f', 0, 0, None), s)
            ln = E.length(field(E, s, page, 'buffer'), s)
            c.ob(E.entails_le(s, ln, size) and E.entails_le(s, size, ln), 'page size ' + name, 'a decompressed %s page holds %s bytes instead of the declared %s' % (name, ln, size), where,
                 'page %s: len %s' % (name, ln))
            c.ob(any(covers(E, s, w, size) for w in {m[1] for m in s.mon}), 'page filled ' + name,
                 'a %s page is returned although only %s of its %s bytes have been produced' % (name, [(str(m[2])[:60], str(m[3])[:60]) for m in s.mon], size), where,
                 'page %s filled by %s' % (name, [(str(m[2])[:60], str(m[3])[:60]) for m in s.mon]))
        lows = [e for e in ev if e.kind == 'low']
        c.ob(got > 0 and lows, 'page decompress ' + name, 'a %s page is never decompressed' % name, where)
        for e in lows:
            src, dst = e.data
            ln = E.length(dst, e.st)
            if ver == 'V2':
                fs = P.adts[P.adts and hdr_ty(P)]['variants'][0]['f']
                lv = [E.getk(hdr, ('f', 0, fs.index(x), 'i32')) for x in ('definition_levels_byte_length', 'repetition_levels_byte_length')]
                off = mk('cast', E.arith('add', lv[0], lv[1], 'i32'), 'usize')
                skipped = E.arith('sub', E.length(field(E, e.st, pg, 'buffer'), e.st), E.length(src, e.st), 'usize')
                want = E.arith('sub', size, skipped, 'usize')
            else:
                want = size
            c.ob(E.entails_le(e.st, want, ln) and E.entails_le(e.st, ln, want), 'page room ' + name,
                 'the codec is given room for %s bytes of a %s page, %s are declared' % (ln, name, want), e.where())


def hdr_ty(P):
    from .tab import thrift
    return thrift(P, 'DataPageHeaderV2')
