"""C07: sizes reported by the writers are the bytes written; recorded offsets are where they start."""
from ..core import Engine, TooBig, State, Event, mk, num, ok, err, agg, node, FnBox
from .. import models as M
from ..frame import pmap
from . import writer as Wr
from .writer import W, units, argno, resty, sizeof_result
from .common import carries, runfn, reaches, body_of
from .tab import local

INDEX = {'write_column_index': 'column_index', 'write_offset_index': 'offset_index'}


def base(name):
    n = name.split('::')[-1]
    return n[:-6] if n.endswith('_async') else n


class Client(Wr.Client):
    def __init__(self, P, cut, keep):
        super().__init__(P)
        self.keep = keep
        for n, i in cut.items():
            self.cut[i['id']] = summary
            for j in P.bypath.get(i['p'], ()):
                self.cut[j['id']] = summary

    def inline(self, E, inst, c):
        return not inst.get('local') or inst['id'] in self.keep or '{closure' in inst['p'] or E.P.fnbypath.get(inst['p']) is None or small(inst)

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if not p or p[-1][0] != 'f':
            return
        n = name_of(E, fr, s[1])
        if n in FIELDS:
            what, part = FIELDS[n]
            rec(E, st, ev, fr, 0, what, part, v, E.ref(r, p[:-1]))


FIELDS = {'column_index_offset': ('column_index', 'at'), 'column_index_length': ('column_index', 'len'), 'offset_index_offset': ('offset_index', 'at'), 'offset_index_length': ('offset_index', 'len')}


def small(inst):
    return len(inst['b']) <= 12


def name_of(E, fr, place):
    """name of the field of a column chunk's metadata an assignment goes to"""
    last = place[1][-1] if place[1] else None
    if not last or last[0] != 'f':
        return None
    t = E.P.T[E.place_ty(fr, (place[0], place[1][:-1]))]
    if t['k'] != 'adt' or t['p'] not in E.P.adts or not t['p'].endswith('::ColumnChunk'):
        return None
    fs = E.P.adts[t['p']]['variants'][0]['f']
    return fs[last[1]] if last[1] < len(fs) else None


def eq(E, st, a, b):
    a, b = bare(a), bare(b)
    return E.entails_le(st, a, b) and E.entails_le(st, b, a)


def bare(v):
    while v.op == 'cast':
        v = v.a[0]
    return v


def position(E, st):
    """where the next byte goes, if the file held `before` bytes at the start"""
    w = st.mem.get(W, num(0, 'u64'))
    b = st.mem.get(('m', 'before'))
    return w if b is None else E.arith('add', b, w, 'u64')


def indices(E, root, path, d=0):
    """the positions followed from the writer to an element, outermost first: sets of alternatives"""
    out = []
    if root[0] == 'p' and root[1].op == 'phi' and d < 3:
        alts = [a for a in E.alts.get(root[1], ()) if a.op == 'ref']
        ks = [indices(E, a.a[0], a.a[1], d + 1) for a in alts]
        if ks and all(len(k) == len(ks[0]) for k in ks):
            out = [frozenset().union(*x) for x in zip(*ks)]
    return tuple(out + [frozenset((k[1],)) for k in path if k[0] == 'i'])


def place(E, ref):
    return indices(E, *E.target(ref)) if ref.op == 'ref' else ()


def alike(E, st, a, b):
    return a is b or eq(E, st, a, b) or twins(E, a, b, set())


def twins(E, a, b, seen):
    """two counters that start alike and advance alike at the same point of the program"""
    if a is b or (a, b) in seen:
        return True
    if a.op == 'phi' and b.op == 'phi' and a.a[:2] == b.a[:2]:
        seen.add((a, b))
        x, y = list(E.alts.get(a, ())), list(E.alts.get(b, ()))
        return len(x) == len(y) > 0 and all(any(twins(E, u, v, seen) for v in y) for u in x) and all(any(twins(E, u, v, seen) for u in x) for v in y)
    x, y = E.lin(a), E.lin(b)
    if x[0] != y[0] or len(x[1]) != len(y[1]):
        return False
    if len(x[1]) == 1 and x[1][0][1] == y[1][0][1] and (node(x[1][0][0]) is not a or node(y[1][0][0]) is not b):
        return twins(E, node(x[1][0][0]), node(y[1][0][0]), seen)
    return x == y


def same(E, st, x, y):
    """do two such positions agree (as far as both reach)"""
    n = min(len(x), len(y))
    if n == 0:
        return False
    for a, b in zip(x[-n:], y[-n:]):
        if a == b:
            continue
        if len(a) == len(b) and all(any(alike(E, st, u, v) for v in b) for u in a) and all(any(alike(E, st, u, v) for u in a) for v in b):
            continue
        return False
    return True


def rec(E, st, ev, fr, line, what, part, v, el):
    """an assignment of the place or size of an index"""
    if not (v.op == 'agg' and v.a[1] == 1):
        return
    x = v.a[2]
    if ('wrote', what, part) in st.mon:
        want = st.mem[('m', what, part)]
        el, pages = place(E, el), place(E, st.mem[('m', what, 'pages')])
        ev.append(Event('ob', (same(E, st, el, pages), '%s of another chunk' % what, 'the %s of the %s of chunk %s is recorded for chunk %s' % (NAMES[part], what, sh(pages), sh(el))), st, fr, line))
        ev.append(Event('ob', (eq(E, st, x, want), '%s %s' % (what, part), '%s is recorded as the %s of the %s, it is %s' % (x, NAMES[part], what, want)), st, fr, line))
        st.mon = tuple(m for m in st.mon if m != ('wrote', what, part))
    elif part == 'at':
        st.mem[('m', what, 'pending')] = x
        st.mon = tuple(sorted(set(st.mon) | {('pend', what)}))
        st.mem[('m', what, 'pendel')] = el
    else:
        ev.append(Event('ob', (False, '%s %s' % (what, part), 'the length of the %s is recorded before it is written' % what), st, fr, line))


def sh(x):
    return '/'.join('|'.join(sorted(str(n)[:40] for n in k)) for k in x)


NAMES = {'at': 'position', 'len': 'length'}


def summary(cl, E, st, c):
    """a function of the write path, as it is shown to behave when it is analysed itself"""
    P = E.P
    if c.dty is not None and P.T[c.dty]['k'] in ('coroutine', 'alias'):
        return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
    inst = P.I[c.fn['i']]
    name = base(inst['p'])
    T = P.T[c.dty]['a'][0]
    r = mk('eff', name, c.site, ty=E.scalar(T))
    E.forget(st, r)
    k = sizeof_result(E, st, r, T)
    at = position(E, st)
    o = argno(P, inst, 'u64')
    if o is not None:
        c.ev.append(Event('ob', (eq(E, st, c.args[o], at), 'offset given to ' + name, '%s is told that it writes at %s, it writes at %s' % (name, c.args[o], at)), st.copy(), c.fr, c.line))
    what = INDEX.get(name)
    if what:
        for part in ('at', 'len'):
            if ('wrote', what, part) in st.mon:
                c.ev.append(Event('ob', (False, '%s %s' % (what, part), 'the %s of a %s is never recorded' % (NAMES[part], what)), st.copy(), c.fr, c.line))
    s1, s2 = st.copy(), st.copy()
    s1.mem[W] = E.arith('add', s1.mem.get(W, num(0, 'u64')), k, 'u64')
    if what:
        pages = next((a for a, t in zip(c.args, c.argtys) if '[' in P.tys(t)), mk('none'))
        s1.mem[('m', what, 'pages')] = pages
        pages = place(E, pages)
        mon = set(s1.mon)
        if ('pend', what) in mon:
            mon.discard(('pend', what))
            el = place(E, s1.mem[('m', what, 'pendel')])
            c.ev.append(Event('ob', (same(E, st, el, pages), '%s of another chunk' % what, 'the position of the %s of chunk %s is recorded for chunk %s' % (what, sh(pages), sh(el))), st.copy(), c.fr, c.line))
            x = s1.mem[('m', what, 'pending')]
            c.ev.append(Event('ob', (eq(E, st, x, at), '%s at' % what, '%s is recorded as the position of the %s, it is %s' % (x, what, at)), st.copy(), c.fr, c.line))
        else:
            mon.add(('wrote', what, 'at'))
            s1.mem[('m', what, 'at')] = at
        mon.add(('wrote', what, 'len'))
        s1.mem[('m', what, 'len')] = k
        s1.mon = tuple(sorted(mon))
    spec = P.T[T]
    if spec['k'] == 'adt' and spec['p'] in P.adts and 'offset' in P.adts[spec['p']]['variants'][0]['f'] and o is not None:
        f = E.getk(r, ('f', 0, P.adts[spec['p']]['variants'][0]['f'].index('offset'), 'u64'), s1)
        E.assume(s1, E.cmp('eq', f, c.args[o]), True)
    return [(s1, ok(r)), (s2, err(mk('eff', 'failed', c.site)))]


def analyse(P, i, cut, keep):
    own = 'FileWriter' in i['p'] or 'FileStreamer' in i['p']
    name = base(i['p'])
    cl = Client(P, {n: j for n, j in cut.items() if j is not i}, keep)
    E = Engine(P, cl, budget=400000)
    st0 = State()
    st0.mem[W] = num(0, 'u64')
    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    off = None
    if own:
        adt = [p for p in P.adts if p.startswith(P.crate) and p.endswith('::FileWriter' if 'FileWriter' in i['p'] else '::FileStreamer')][0]
        k = P.adts[adt]['variants'][0]['f'].index('offset')
        off = (('p', args[0]), (('f', 0, k, 'u64'),))
        st0.mem[('m', 'before')] = E.read(st0, *off)
    elif argno(P, i, 'u64') is not None:
        st0.mem[('m', 'before')] = args[argno(P, i, 'u64')]
    try:
        ex, ev, fr = runfn(E, i, args, st0)
    except TooBig:
        return None
    obs = [(e.data[0], e.data[1], e.data[2], e.where()) for e in ev if e.kind == 'ob']
    n = len([e for e in ev if e.kind in ('bytes', 'thrift', 'ob')])
    where = '%s:%s' % (i['file'], i['line'])
    T = resty(P, i)
    oks = 0
    for s, r in ex:
        if carries(E, s, r):
            continue
        oks += 1
        v = E.getk(r, ('f', 0, 0, E.scalar(T)), s) if r.op != 'agg' else r.a[2]
        w = s.mem[W]
        if own and name == 'end':
            obs.append((eq(E, s, v, position(E, s)), 'file size', '%s returns %s, the file has %s bytes' % (i['p'], v, position(E, s)), where))
        elif own:
            now = E.read(s, *off)
            obs.append((eq(E, s, now, position(E, s)), 'offset kept by ' + name, 'after %s the writer believes to be at %s, it is at %s' % (i['p'], now, position(E, s)), where))
        else:
            k = sizeof_result(E, s, v, T)
            if k is not None:
                obs.append((eq(E, s, k, w), 'size reported by ' + name, '%s reports %s bytes, it wrote %s' % (i['p'], k, w), where))
            t = P.T[T]
            if t['k'] == 'adt' and t['p'] in P.adts and 'offset' in P.adts[t['p']]['variants'][0]['f'] and ('m', 'before') in s.mem:
                fs = P.adts[t['p']]['variants'][0]['f']
                f = E.getk(v, ('f', 0, fs.index('offset'), 'u64'), s)
                obs.append((eq(E, s, f, s.mem[('m', 'before')]), 'offset recorded by ' + name, '%s records %s as the offset of what starts at %s' % (i['p'], f, s.mem[('m', 'before')]), where))
        for m in s.mon:
            obs.append((False, 'index %s unrecorded' % m[1], '%s may end without the %s of the %s being recorded' % (i['p'], NAMES.get(m[-1], 'position'), m[1]), where))
    return obs, n, oks


def check(c):
    c.rule('Every function of the write path: on each successful path the size it reports equals the sum of the lengths of everything given to the output (write_all) and of what the thrift serialiser reports; '
           'the offset handed to a writing function, and the position and length recorded for an index, equal the bytes in front of it; the file writers advance their offset by exactly what was written.')
    c.assume.append('thrift write_to_out_protocol returns the number of bytes it wrote; the caller does not go on after a failed call')
    P = c.P
    us = units(P)
    eff = reaches(P, lambda n: n.split('::')[-1] in ('write_all', 'write_to_out_protocol', 'write_to_out_stream_protocol'))
    us = {p: i for p, i in us.items() if i['id'] in eff or body_of(P, i) is not None}
    cut = {p: i for p, i in us.items() if 'FileWriter' not in p and 'FileStreamer' not in p and resty(P, i) is not None and sized(P, resty(P, i)) and base(p).startswith('write_') and base(p) != 'write_metadata_sidecar'}
    todo = sorted(us.items())
    n = 0
    for (p, i), r in zip(todo, pmap(lambda x: analyse(P, x[1], cut, eff), todo)):
        if r is None:
            c.violation('too-big ' + p, 'function too large to analyse: ' + p)
            continue
        obs, k, oks = r
        c.analysed[p] = 1
        n += k
        for good, key, what, where in obs:
            c.ob(good, p + ' ' + key, what, where, '%s: %s' % (p, key))
        c.ob(oks > 0, 'never succeeds ' + p, 'no successful path of %s was found' % p)
    c.floor('functions of the write path', len(todo), 18)
    c.floor('writes and calls', n, 40)
    for nm in ('FileWriter::<W>::write', 'FileWriter::<W>::end', 'FileStreamer::<W>::write', 'FileStreamer::<W>::end', 'write_metadata_sidecar'):
        c.ob(any(p.endswith(nm) for p in us), 'missing-anchor ' + nm, nm + ' was not found')


def sized(P, t):
    T = P.T[t]
    if T['s'] == 'u64' or T['k'] == 'tuple' and any(P.tys(x) == 'u64' for x in T['a']):
        return True
    return T['k'] == 'adt' and T['p'] in P.adts and 'bytes_written' in P.adts[T['p']]['variants'][0]['f']
