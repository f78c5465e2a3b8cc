"""C09: the life of a file writer: magic once, row groups, footer once, nothing after it."""
from ..core import Engine, State, TooBig, FnBox, mk, num, node, agg, ok, err, INT
from . import writer as Wr
from . import c07
from .c27 import blist, MAGIC
from .common import carries, runfn, reaches, body_of
from .tab import short


class Client(c07.Client):
    """which kinds of output were produced, in which order"""

    def effect(self, st, what):
        m = st.mon
        if what == 'flush':
            return
        if what[0] == 'bytes':
            b = blist(self.E, what[1], st)
            k = 'magic' if b is not None and [x.a[0] if x.op == 'int' else None for x in b] == list(MAGIC) else 'bytes'
            if 'meta' in m:
                k = 'footer'
        else:
            k = 'meta' if what[0] == 'thrift' else what[0]
        if not m or m[-1] != k or k in ('magic', 'meta', 'rowgroup'):
            st.mon = (m + (k,))[:8]

    def on_call(self, E, st, c):
        self.E = E
        i = c.fn.get('i')
        if i is not None and i in self.cut:
            P = E.P
            if c.dty is not None and P.T[c.dty]['k'] in ('coroutine', 'alias'):
                return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
            T = P.T[c.dty]['a'][0]
            r = mk('eff', 'part', c.site, ty=E.scalar(T))
            E.forget(st, r)
            k = Wr.sizeof_result(E, st, r, T)
            s1, s2 = st.copy(), st.copy()
            self.count(E, s1, k)
            self.effect(s1, ('rowgroup' if c07.base(P.I[i]['p']) == 'write_row_group' else 'index',))
            return [(s1, ok(r)), (s2, err(mk('eff', 'failed', c.site)))]
        return super().on_call(E, st, c)

    def on_assign(self, *a):
        pass


def atleast(E, st, x, b, seen):
    """is this unsigned counter at least b (by induction over the loops that advance it)"""
    if x in seen or E.entails_le(st, num(b, 'u64'), x):
        return True
    if x.op == 'phi':
        seen.add(x)
        return bool(E.alts.get(x)) and all(atleast(E, st, y, b, seen) for y in E.alts[x])
    k, ts = E.lin(x)
    if k >= 0 and ts and all(c > 0 and (node(j).ty or '') in ('u64', 'usize', 'u32') for j, c in ts):
        return k >= b or any(node(j) is not x and atleast(E, st, node(j), b - k, seen) for j, c in ts)
    return False


def general(E, st, v, names, tag):
    """the same value with its data forgotten: flags and lower bounds of counters stay"""
    f, key, facts = [], [], []
    for k, n in enumerate(names):
        x = E.getk(v, ('f', 0, k, None), st)
        kind = x.a[0] if x.op == 'agg' else None
        if x.op == 'int' and x.ty == 'bool' or kind in E.P.adts and E.P.is_enum(kind) and len(x.a) == 2:
            f.append(x)
            key.append((n, str(x)))
        elif x.op == 'int' and x.a[0] == 0:
            f.append(x)
            key.append((n, 0))
        elif x.op == 'int' or x.ty in INT:
            low = next((b for b in (4, 1) if atleast(E, st, x, b, set())), 0)
            s = mk('sym', '%s.%s' % (tag, n), ty=x.ty)
            f.append(s)
            facts.append((s, low))
            key.append((n, low))
        else:
            f.append(mk('sym', '%s.%s' % (tag, n), ty=x.ty if x.op not in ('agg',) else None))
    return agg(v.a[0] if v.op == 'agg' else E.adt_of(v.ty), 0, *f), facts, tuple(key)


WANT = {('fresh', 'write'): 'the magic and one row group', ('started', 'write'): 'one row group', ('fresh', 'end'): 'the magic and one footer', ('started', 'end'): 'one footer'}


def good(phase, method, t):
    t = list(t)
    if phase == 'fresh':
        if not t or t[0] != 'magic':
            return False
        t = t[1:]
    if 'magic' in t:
        return False
    if method == 'write':
        return t.count('rowgroup') == 1 and not set(t) & {'meta', 'footer'}
    if t.count('meta') != 1 or 'rowgroup' in t:
        return False
    k = t.index('meta')
    return set(t[:k]) <= {'index', 'bytes'} and set(t[k + 1:]) == {'footer'}


def run(P, wname, cut, keep):
    from ..frame import Check
    c = Check('C09')
    adt = next((p for p in P.adts if p.startswith(P.crate) and short(p) == wname), None)
    fns = {m: next((P.inst(f['p']) for f in P.fns if wname + '::<' in f['p'] and short(f['p']) == m and '{closure' not in f['p']), None) for m in ('new', 'write', 'end')}
    if adt is None or None in fns.values():
        c.violation('missing-anchor ' + wname, '%s with new, write and end was not found' % wname)
        return (c.viol, (c.counts, c.samples, c.analysed), 0)
    names = P.adts[adt]['variants'][0]['f']
    E = Engine(P, None, budget=400000)
    new = fns['new']
    ex, ev, fr = E.run(new, [mk('sym', 'n%d' % k, ty=E.scalar(new['tys'][k + 1])) for k in range(new['argc'])])
    E.client = Client(P, cut, keep)
    todo = []
    for s, v in ex:
        g, facts, key = general(E, s, v, names, 'w0')
        todo.append(('fresh', g, facts, key, ''))
    seen, n = set(), 0
    while todo:
        phase, v, facts, key, hist = todo.pop(0)
        if (phase, key) in seen:
            continue
        seen.add((phase, key))
        for m in ('write', 'end'):
            i = fns[m]
            c.analysed[i['p']] = 1
            where = '%s:%s' % (i['file'], i['line'])
            st0 = State()
            for x, low in facts:
                E.assume(st0, E.cmp('le', num(low, 'u64'), x), True)
            st0.mem[Wr.W] = num(0, 'u64')
            args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
            st0.mem[('p', args[0])] = v
            try:
                ex, ev, fr = runfn(E, i, args, st0)
            except TooBig:
                c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
                continue
            h = (hist + ', ' if hist else '') + m
            oks = 0
            for s, r in ex:
                n += 1
                if phase == 'ended':
                    c.ob(carries(E, s, r), '%s %s accepted after end' % (wname, m), '%s: after %s the call succeeds' % (wname, h), where, '%s %s after end is an error' % (wname, m))
                    c.ob(not s.mon, '%s %s writes after end' % (wname, m), '%s: after %s output is produced (%s)' % (wname, h, ', '.join(s.mon)), where)
                    continue
                if carries(E, s, r):
                    continue
                oks += 1
                c.ob(good(phase, m, s.mon), '%s %s %s output' % (wname, phase, m), '%s: the last call of %s produces %s instead of %s' % (wname, h, ', '.join(s.mon) or 'nothing', WANT[(phase, m)]), where,
                     '%s %s: %s' % (wname, h, ', '.join(s.mon)))
                w = E.read(s, ('p', args[0]), ())
                g, fa, k2 = general(E, s, w, names, 'w%d' % len(seen))
                todo.append(('started' if m == 'write' else 'ended', g, fa, k2, h))
            c.ob(oks > 0 or phase == 'ended', '%s %s %s impossible' % (wname, phase, m), '%s: %s can never succeed' % (wname, h), where)
        if len(seen) > 24:
            c.violation('states ' + wname, 'the states of %s were not exhausted' % wname)
            break
    c.counts['states'] = len(seen)
    return (c.viol, (c.counts, c.samples, c.analysed), n)


def check(c):
    from ..frame import pmap, merge
    c.rule('Abstract execution of every history of a file writer made of new, any number of write, and end, each successful: the flags and lower bounds of the counters the writer keeps are closed under the '
           'calls (inductive argument), the first call outputs the magic once and first, write outputs one row group and no footer, end one footer, last; after end every call fails without output.')
    c.assume.append('the caller does not go on with a writer after a failed call')
    P = c.P
    us = Wr.units(P)
    eff = reaches(P, lambda n: n.split('::')[-1] in ('write_all', 'write_to_out_protocol', 'write_to_out_stream_protocol'))
    cut = {p: i for p, i in us.items() if c07.base(p) in c07.INDEX or c07.base(p) == 'write_row_group'}
    n = 0
    for viol, cov, k in pmap(lambda w: run(P, w, cut, eff), ('FileWriter', 'FileStreamer'), fresh=True):
        merge(c, viol, cov)
        n += k
    c.floor('exits of calls', n, 20)
