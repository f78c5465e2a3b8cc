"""C23: what a scratch buffer held before never becomes part of a result."""
from ..core import Engine, Event, TooBig, agg, mk, num, node, Node, RES
from .. import models as M
from .. import lin as L
from ..frame import pmap
from .common import carries, top_functions
from .c04 import READS, IOTRAITS
from .tab import local, thrift, variants, var, struct, field, fn_sig


class Reads:
    """every appending read finds its buffer empty; every overwriting read has its own room"""

    def on_io(self, E, st, c, op):
        if op == 'stream::yield':
            for a in c.args:
                note(E, st, a, c.ev, c.fr, c.line)
        if op in ('io::read_to_end', 'io::copy'):
            k = 1
            r, p = E.target(c.args[k])
            if op == 'io::copy' and not self.isvec(E, c.argtys[k]):
                return None
            old = E.read(st, r, p)
            n = E.length(old, st)
            good = E.entails_le(st, n, num(0, 'usize')) or self.fresh(old)
            c.ev.append(Event('append', (op, good, str(n)[:100], str(old)[:100]), st, c.fr, c.line))
        return None

    def on_call(self, E, st, c):
        if c.decl.endswith('::read_to_end') or c.decl.endswith('::read_to_string'):
            return self.on_io(E, st, c, 'io::read_to_end')
        return None

    def isvec(self, E, t):
        return 'alloc::vec::Vec<u8>' in E.P.tys(t) and 'Cursor' not in E.P.tys(t)

    def fresh(self, v):
        return False


def analyse(P, i):
    E = Engine(P, Reads(), budget=400000)
    try:
        ex, ev, fr = E.run(i)
    except TooBig:
        return 'big'
    for s, r in ex:
        note(E, s, r, ev, fr, i['line'])
    return sorted({(e.kind, e.data, e.fr.inst['p'], e.where()) for e in ev if e.kind in ('append', 'page')}, key=str)


def note(E, st, r, ev, fr, line):
    """the contents of the buffers of the pages in this result"""
    found = []

    def walk(v, d, seen):
        if d > 12 or id(v) in seen:
            return
        seen.add(id(v))
        if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].split('::')[-1] in ('CompressedDataPage', 'CompressedDictPage'):
            found.append((v.a[0].split('::')[-1], field(E, st, v, 'buffer')))
            return
        if v.op == 'phi':
            for x in E.alts.get(v) or ():
                walk(x, d + 1, seen)
            return
        for x in v.a:
            if isinstance(x, Node):
                walk(x, d + 1, seen)
    walk(r, 0, set())
    for k, b in found:
        ev.append(Event('page', (k, stale(E, b, 0, set())), st, fr, line))


def stale(E, v, d, seen):
    """does this value hold elements of a byte vector that the caller (or an earlier call) provided?"""
    if d > 40 or id(v) in seen or v.op == 'len':
        return None
    seen.add(id(v))
    if rooted(v) and isinstance(v.ty, int) and E.P.tys(v.ty) in ('alloc::vec::Vec<u8>',):
        return str(v)[:100]
    for x in (E.alts.get(v) or ()) if v.op == 'phi' else v.a:
        if isinstance(x, Node):
            h = stale(E, x, d + 1, seen)
            if h:
                return h
    return None


class Low:
    def __init__(self, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        if c.fn.get('i') is not None and E.P.I[c.fn['i']] is self.inst:
            c.ev.append(Event('low', (M.seq(E, st, c.args[2]), E.target(c.args[2]), tuple(st.mon)), st.copy(), c.fr, c.line))
        elif c.decl.split('::')[-1] in ('copy_from_slice', 'clone_from_slice', 'fill') and len(c.args) == 2:
            r, p = E.target(c.args[0])
            st.mon = st.mon + ((('copy', len(st.mon)), r, p),)
        return None

    def inline(self, E, inst, c):
        return inst is not self.inst


def check(c):
    P = c.P
    c.rule('Every read that appends to a buffer finds that buffer empty, on every path from every reading entry point; the compressor appends to a buffer that holds nothing but the levels of the page itself; '
           'the decompressor overwrites its whole buffer, from the start or from where the copied levels end to its length.')
    rs = top_functions(P, lambda p: p.split('::')[-1] in READS and any(x in p for x in IOTRAITS))
    sites, pages = set(), set()
    for i, r in zip(rs, pmap(lambda i: analyse(P, i), rs)):
        if r == 'big':
            c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
            continue
        c.analysed[i['p']] = 1
        for kind, data, p, where in r:
            if kind == 'page':
                pages.add((p, data[0]))
                c.ob(data[1] is None, 'page %s %s' % (i['p'], data[0]), 'a %s is returned whose buffer may still hold bytes of %s' % data, where, '%s: %s buffer is new' % (i['p'], data[0]))
                continue
            op, good, n, old = data
            sites.add(p)
            c.ob(good, 'append ' + p, 'a read appends to a buffer that may already hold %s bytes (%s), reached from %s' % (n, old, i['p']), where, '%s in %s: empty before' % (op, p))
    n = 0
    hp = local(P, 'DataPageHeader')
    scratch = mk('sym', 'scratch')
    for way, low, high in (('compress', fn_sig(c, 'compress', ['CompressionOptions', r'&\[u8\]', r'&mut Vec<u8>']), fn_sig(c, 'compress', ['Page', r'Vec<u8>', 'CompressionOptions'])),
                           ('decompress', fn_sig(c, 'decompress', ['Compression', r'&\[u8\]', r'&mut \[u8\]']), fn_sig(c, 'decompress', ['CompressedPage', r'&mut Vec<u8>']))):
        if low is None or high is None:
            continue
        for kind, ver in [('Data', v) for v in variants(P, hp)] + [('Dict', None)]:
            hdr = mk('sym', 'hdr')
            if way == 'compress':
                pg = struct(P, local(P, 'DataPage'), header=var(P, hp, ver, hdr)) if kind == 'Data' else struct(P, local(P, 'DictPage'))
                args = [var(P, local(P, 'Page'), kind, pg), scratch, var(P, local(P, 'CompressionOptions'), 'Snappy')]
            else:
                co = var(P, local(P, 'Compression'), 'Snappy')
                pg = struct(P, local(P, 'CompressedDataPage'), header=var(P, hp, ver, hdr), compression=co) if kind == 'Data' else struct(P, local(P, 'CompressedDictPage'), compression=co)
                args = [var(P, local(P, 'CompressedPage'), kind, pg), scratch]
            E = Engine(P, Low(low), budget=200000)
            ex, ev, fr = E.run(high, args)
            name = '%s %s %s' % (way, kind, ver or '')
            for e in ev:
                if e.kind != 'low':
                    continue
                n += 1
                dv, (root, path), mon = e.data
                if way == 'compress':
                    c.ob(not holds(dv, scratch), name, '%s: the codec appends to a buffer that still holds earlier contents: %s' % (name, str(dv)[:200]), e.where(), '%s: buffer holds %s' % (name, str(dv)[:150]))
                else:
                    base = path[:-1] if path and path[-1][0] == 's' else path
                    lo, hi = (path[-1][1], path[-1][2]) if path and path[-1][0] == 's' else (num(0, 'usize'), None)
                    total = E.length(E.read(e.st, root, base), e.st)
                    good = hi is None or E.entails_le(e.st, total, hi)
                    # covered in front of the decompressed part
                    at = num(0, 'usize')
                    parts = [p[-1][1:3] if p and p[-1][0] == 's' and p[:-1] == base else None for _, r, p in mon if r == root]
                    parts = [x for x in parts if x is not None]
                    while not E.entails_le(e.st, lo, at):
                        k = next((x for x in parts if E.entails_le(e.st, x[0], at)), None)
                        if k is None:
                            good = False
                            break
                        parts.remove(k)
                        at = k[1]
                    c.ob(good, name, '%s: only a part (%s..) of the scratch buffer is overwritten' % (name, str(lo)[:120]), e.where(), '%s: overwritten from %s' % (name, str(lo)[:100]))
    c.floor('codec calls', n, 6)
    c.floor('appending reads', len(sites), 6)
    c.floor('pages returned by readers', len(pages), 3)


def holds(v, scratch, d=0):
    if v is scratch:
        return True
    if d > 25 or v.op == 'len':
        return False
    return any(isinstance(x, Node) and holds(x, scratch, d + 1) for x in v.a)


def rooted(v):
    """a place inside what the caller passed"""
    while v.op in ('deref', 'field') and isinstance(v.a[0], Node):
        v = v.a[0]
    return v.op == 'sym'
