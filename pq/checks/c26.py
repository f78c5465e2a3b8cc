"""C26: byte order.  Which byte-order functions the code calls, and how composed values are laid out."""
import re
from ..core import Engine, num
from .common import callgraph

BAD = re.compile(r'^core::(num|f32|f64)::<impl (\w+)>::(to_ne_bytes|from_ne_bytes|to_be_bytes|from_be_bytes|to_be|from_be|swap_bytes|reverse_bits)$')
LE = re.compile(r'^core::(num|f32|f64)::<impl (\w+)>::(to_le_bytes|from_le_bytes)$')


def check(c):
    P = c.P
    c.rule('No call of a native- or big-endian conversion, byte swap or reversal of bytes anywhere in the crate, except the big-endian frame lengths in the LZ4 (Hadoop) decompression; every '
           'implementation of the native-type trait converts with the little-endian functions, an INT96 as its three words in order.')
    g = callgraph(P)
    le = be = 0
    lz4 = frames(P, g)
    for i in P.I:
        if 'err' in i or not i.get('local') or not i.get('identity'):
            continue
        c.analysed[i['p']] = 1
        for n in sorted(g[i['id']][1]):
            w = '%s:%s' % (i['file'], i['line'])
            if LE.match(n):
                le += 1
            m = BAD.match(n)
            if m:
                okk = m.group(3) == 'from_be_bytes' and m.group(2) == 'u32' and i['id'] in lz4
                be += okk
                c.ob(okk, 'byte order %s in %s' % (m.group(3), i['p']), '%s is called in %s' % (n, i['p']), w, '%s in %s (Hadoop frames)' % (n, i['p']))
        for d, s in reversals(P, i):
            c.violation('reversed bytes in ' + i['p'], 'the bytes of a value are reversed in %s (%s)' % (i['p'], d), '%s:%s' % (i['file'], i['line']))
    c.floor('little-endian conversions', le, 15)
    if any('lz4' in n for _, names in g.values() for n in names):
        c.floor('big-endian frame lengths', be, 1)
    # the trait through which every fixed-width value goes
    k = 0
    for im in P.impls:
        if not im['trait_p'].endswith('::NativeType'):
            continue
        items = dict(im['items'])
        if 'to_le_bytes' not in items or 'from_le_bytes' not in items:
            continue
        k += 1
        c.ob(to_le(P, items['to_le_bytes'], im['self']), 'to_le_bytes ' + im['self'], 'the bytes of a %s are not its little-endian bytes in order' % im['self'], '', 'to_le_bytes of ' + im['self'])
        c.ob(from_le(P, items['from_le_bytes'], im['self']), 'from_le_bytes ' + im['self'], 'a %s is not read from its little-endian bytes in order' % im['self'], '', 'from_le_bytes of ' + im['self'])
    c.floor('native types', k, 5)


def frames(P, g):
    """functions that decompress LZ4 frames: they call the LZ4 decompression themselves, or are
    called by nothing but such functions"""
    ok = {i for i, (s, names) in g.items() if P.I[i].get('local') and ('hadoop' in P.I[i]['p'].lower() or any('lz4' in n.lower() for n in names))}
    callers = {}
    for i, (s, names) in g.items():
        for j in s:
            if i != j:
                callers.setdefault(P.I[j]['p'], set()).add(i)
    more = True
    while more:
        more = False
        for i in g:
            x = P.I[i]
            f = P.fnbypath.get(x['p'])
            cs = callers.get(x['p'])
            if i not in ok and x.get('local') and cs and cs <= ok and (f is None or not f['pub']):
                ok.add(i)
                more = True
    return ok


def reversals(P, i):
    out = []
    for b in i['b']:
        t = b[1]
        if b[3] or t[0] not in ('call', 'tailcall'):
            continue
        o = t[1]
        if o[0] != 'k' or o[2][0] != 'fn':
            continue
        n = o[2][1]['p']
        if n.endswith('::reverse') or n.endswith('Iterator::rev') or n.endswith('::rotate_left') or n.endswith('::rotate_right'):
            for a in t[2]:
                ty = opty(P, i, a)
                if ty is not None and re.search(r'\bu8\b', ty) and re.search(r'\[u8|Iter<.*u8>|Vec<u8>|IntoIter<u8', ty):
                    out.append((n, ty))
    return out


def opty(P, i, a):
    if a[0] in ('c', 'm', 'cp', 'mv', 'copy', 'move') and isinstance(a[1], list) and not [x for x in a[1][1] if x != '*']:
        return P.tys(i['tys'][a[1][0]])
    return None


def to_le(P, path, ty):
    i = P.inst(path)
    if i is None:
        return False
    E = Engine(P, None, budget=20000)
    ex, ev, fr = E.run(i)
    for st, r in ex:
        if re.fullmatch(r'[iuf]\d+', ty):
            if 'to_le_bytes' not in str(r):
                return False
            continue
        for b in range(12):
            # byte b is byte b % 4 of word b / 4 (positions a loop leaves open are not decided)
            e = E.getk(r, ('i', num(b, 'usize')), st)
            m = bytes_of(E, e)
            if len(m) == 1 and m != {(b // 4, b % 4)}:
                return False
    return bool(ex)


def bytes_of(E, v, d=0):
    """(word, byte) of the argument this byte is"""
    out = set()
    if d > 12:
        return out
    if v.op == 'call' and 'to_le_bytes' in str(v.a[0]):
        ks = [x.a[0] for x in v.a[2:] if hasattr(x, 'op') and x.op == 'int']
        for w in words(v.a[1]):
            out.add((w, ks[0] if ks else None))
        return out
    if v.op == 'elem' and v.a[1].op == 'int' and v.a[0].op == 'call' and 'to_le_bytes' in str(v.a[0].a[0]):
        for w in words(v.a[0].a[1]):
            out.add((w, v.a[1].a[0]))
        return out
    for x in (E.alts.get(v) or () if v.op == 'phi' else v.a):
        if hasattr(x, 'op') and x.op != 'int':
            out |= bytes_of(E, x, d + 1)
    return out


def words(v, d=0):
    """constant positions of the argument in this value"""
    if d > 12:
        return set()
    if v.op == 'elem' and v.a[1].op == 'int' and (v.a[0].op == 'sym' or v.a[0].op == 'deref' and v.a[0].a[0].op == 'sym'):
        return {v.a[1].a[0]}
    out = set()
    for x in v.a:
        if hasattr(x, 'op') and x.op != 'int':
            out |= words(x, d + 1)
    return out


def from_le(P, path, ty):
    i = P.inst(path)
    if i is None:
        return False
    E = Engine(P, None, budget=20000)
    ex, ev, fr = E.run(i)
    for st, r in ex:
        if re.fullmatch(r'[iuf]\d+', ty):
            if 'from_le_bytes' not in str(r):
                return False
            continue
        for k in range(3):
            e = E.getk(r, ('i', num(k, 'usize')), st)
            if e.op != 'call' or 'from_le_bytes' not in str(e.a[0]):
                continue
            a = e.a[1]
            for j in range(4):
                p = words(E.getk(a, ('i', num(j, 'usize')), st))
                if len(p) == 1 and p != {4 * k + j}:
                    return False
    return bool(ex)
