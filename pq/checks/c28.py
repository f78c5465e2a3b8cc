"""C28: what inserting a hash writes is what a lookup of that hash examines."""
from ..core import Engine, Event, Node, mk, num
from .c08 import mentions
from .tab import fn_sig

LIMIT = 70


def consts(v, d=0):
    """the constant positions in the state of an iterator"""
    if d > 6 or not hasattr(v, 'op'):
        return []
    if v.op == 'int':
        return [v.a[0]] if v.a[0] < 2**31 else []
    if v.op == 'agg':
        return [y for x in v.a[2:] for y in consts(x, d + 1)]
    return []


class Unroll:
    """loops over constant ranges are followed one iteration at a time: the position is part of the partition"""

    def __init__(self, root):
        self.root = root
        self.writes = []
        self.n = 0

    def on_step(self, E, st, c, root, path, v):
        k = 'at %s %s ' % (c.line, (root[:1] + (len(path),) + ((root[1:],) if root[0] != 'p' else ()),))
        p = '.'.join(map(str, consts(v)))
        if k + p not in st.mon:
            self.n += 1
        if self.n < 40 * LIMIT:
            st.mon = tuple(sorted([m for m in st.mon if not m.startswith(k)] + [k + p]))

    def on_write(self, E, st, root, path, val):
        if root == self.root:
            self.writes.append((path, val, st))


def offset(E, path):
    o = num(0, 'usize')
    whole = True
    for k in path:
        if k[0] == 's':
            o = E.arith('add', o, k[1], 'usize')
        elif k[0] == 'i':
            o = E.arith('add', o, k[1], 'usize')
            whole = False
        else:
            return None, None
    return o, whole


def le(v, name):
    """(argument, byte or None) of a call of to_le_bytes / from_le_bytes"""
    if v.op == 'call' and name in str(v.a[0]):
        return v.a[1], (v.a[2].a[0] if len(v.a) > 2 and isinstance(v.a[2], Node) and v.a[2].op == 'int' else None)
    return None


def load(E, v, base):
    """the offset in the bitset that this word is read from"""
    w = le(v, 'from_le_bytes')
    if w is None or w[0].op != 'slc':
        return None
    x = w[0]
    if E.lin(E.arith('sub', x.a[2], x.a[1], 'usize')) != E.lin(num(4, 'usize')):
        return None
    if x.a[0] is base or mentions(x.a[0], lambda n: n is base):
        return x.a[1]
    return None


def atoms(E, v, base, d=0):
    """what is or-ed together in this word"""
    while v.op == 'cast' and isinstance(v.a[0], Node):
        v = v.a[0]
    if v.op == 'or' and d < 40:
        return atoms(E, v.a[0], base, d + 1) | atoms(E, v.a[1], base, d + 1)
    w = le(v, 'from_le_bytes')
    if w is not None:
        u = le(w[0], 'to_le_bytes')
        if u is not None and u[1] is None:
            return atoms(E, u[0], base, d + 1)
    o = load(E, v, base)
    if o is not None:
        return {('load', key(E, o))}
    return {v}


def key(E, o):
    return repr(E.lin(o))


def check(c):
    P = c.P
    c.rule('Insertion and membership test are analysed with their constant loops followed iteration by iteration. Every word that is written back is the word read from the same place with bits or-ed in; '
           'every (word, mask) that a membership test can reject on is one that insertion of the same hash ors in; a rejection without having examined a bit is reported; '
           'values are hashed with the same function and seed whatever their type.')
    ins = fn_sig(c, 'insert', [r'&mut \[u8\]', 'u64'], r'\(\)')
    tst = fn_sig(c, 'is_in_set', [r'&\[u8\]', 'u64'], 'bool')
    if ins is None or tst is None:
        return
    b, h = mk('sym', 'bits'), mk('sym', 'hash')
    root = ('p', b)
    cl = Unroll(root)
    E = Engine(P, cl, budget=600000)
    ex, ev, fr = E.run(ins, [b, h])
    where = '%s:%s' % (ins['file'], ins['line'])
    from ..core import State
    base = E.content(State(), b)
    got = {}
    undecided = 0
    for path, val, st in cl.writes:
        o, whole = offset(E, path)
        if o is None:
            undecided += 1
            continue
        u = le(val, 'to_le_bytes')
        if u is None or whole != (u[1] is None):
            undecided += 1
            continue
        at = E.arith('sub', o, num(u[1] or 0, 'usize'), 'usize')
        a = atoms(E, u[0], base)
        k = key(E, at)
        c.ob(('load', k) in a, 'kept bits', 'a word of the filter is overwritten with something that does not keep its own bits (%s)' % str(u[0])[:120], where, 'a word keeps its bits')
        for j in ((u[1],) if u[1] is not None else range(4)):
            got[(k, j)] = a
    c.cov['writes'] = len(cl.writes)
    c.cov['undecided writes'] = undecided
    words = {k for k, j in got}
    c.floor('words written', len(words), 8)
    cl2 = Unroll(root)
    E.client = cl2
    ex, ev, fr = E.run(tst, [b, h])
    where = '%s:%s' % (tst['file'], tst['line'])
    n = 0
    from ..core import node
    for st, r in ex:
        if r.op == 'int' and r.a[0] == 1:
            continue
        tests = []
        for e in st.lin:
            for i, k in e[1]:
                v = node(i)
                if v.op == 'and' and v not in tests:
                    tests.append(v)
        fatal = [v for v in tests if E.entails_le(st, v, num(0, 'u32'))]
        if not tests:
            ln = E.length(base, st)
            c.ob(E.entails_lt(st, ln, num(32, 'usize')), 'rejection without test', 'a membership test can reject without having looked at a bit', where)
            continue
        for v in fatal or tests:
            n += 1
            x, y = v.a[0], v.a[1]
            lx, ly = load(E, x, base), load(E, y, base)
            if lx is not None:
                x, y, lx, ly = y, x, ly, lx
            if ly is None:
                c.cov['undecided tests'] = c.cov.get('undecided tests', 0) + 1
                continue
            k = key(E, ly)
            c.ob(all(x in got.get((k, j), ()) for j in range(4)), 'examined bits',
                 'a lookup examines bits (%s at word %s) that insertion of the same hash does not set' % (str(x)[:100], str(ly)[:80]), where, 'the bits a lookup examines are set by the insertion')
    c.floor('examined words', n, 8)
    hashes(c)


class Seen:
    def on_call(self, E, st, c):
        if 'xxh' in c.path.lower() or c.path.endswith('Hasher::write') or c.path.endswith('Hasher::finish'):
            c.ev.append(Event('hash', (c.path.split('::')[-1], list(c.args)), st.copy(), c.fr, c.line))
        return None


def hashes(c):
    P = c.P
    seeds = {}
    for f in P.fns:
        i = P.inst(f['p'])
        if i is None or 'err' in i or not f['p'].startswith(P.crate + '::bloom_filter::hash::'):
            continue
        E = Engine(P, Seen(), budget=100000)
        ex, ev, fr = E.run(i, [mk('sym', 'value')])
        c.analysed[i['p']] = 1
        where = '%s:%s' % (i['file'], i['line'])
        for e in ev:
            if e.kind == 'hash':
                v = E.content(e.st, e.data[1][0])
                c.ob(v.op != 'slc' and mentions(v, lambda n: n.op == 'sym' and n.a[0] == 'value'), 'hashed bytes ' + f['p'], 'what is hashed is not the whole of the value\'s bytes: %s' % str(v)[:120], e.where(), 'all bytes of the value are hashed')
                for a in e.data[1]:
                    if a.op == 'int':
                        seeds.setdefault((e.data[0], a.a[0]), set()).add(f['p'])
    used = {s for n, s in seeds}
    c.ob(len(used) <= 1 and used <= {0}, 'seed', 'values are hashed with seeds %s, the format prescribes 0' % sorted(used), '', 'one seed, 0')
    c.floor('hash calls with a seed', len(seeds), 1)
