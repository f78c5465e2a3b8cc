"""C10: an error produced anywhere inside a function reaches its caller.

Each function, closure and async body of the crate is analysed on its own, with every callee that
returns a Result treated as possibly failing.  Producing an Err marks the path; a marked path must
leave the function with an Err (or yield it on its stream, or panic)."""
from ..core import _rv_uses, _locals_in_op, Engine, Event, TooBig, RES, OPT, POLL, FnBox, mk, agg, UNIT
from .. import models as M
from ..frame import pmap

CFB = 'core::ops::control_flow::ControlFlow'
# The Hadoop LZ4 framing has no marker: the specification of the codec asks readers to try it and
# to fall back to other framings when it does not parse.
FALLBACKS = ('try_decompress_hadoop',)


def restype(E, tid):
    """('res',) / ('opt','res') ... when the type is a Result, possibly under Option or Poll"""
    if tid is None:
        return None
    T = E.P.T[tid]
    if T['k'] != 'adt':
        return None
    if T['p'] == RES:
        return 'r'
    if T['p'] in (OPT, POLL):
        r = restype(E, T['a'][0]) if T.get('a') and isinstance(T['a'][0], int) else None
        return T['p'] + '|' + r if r else None
    return None


def carries(E, st, v, d=0):
    """is this value certainly an error (possibly wrapped)"""
    if d > 4:
        return False
    if v.op == 'phi' and v.op != 'agg':
        pass
    if v.op == 'agg':
        k = v.a[0]
        if k == RES:
            return v.a[1] == 1 or (len(v.a) > 2 and carries(E, st, v.a[2], d + 1))
        if k in (OPT, POLL):
            return any(carries(E, st, x, d + 1) for x in v.a[2:] if hasattr(x, 'op'))
        if k == CFB:
            return v.a[1] == 1 and carries(E, st, v.a[2], d + 1)
        return False
    vs = st.var.get(v)
    if vs is not None and len(vs) == 1:
        t = next(iter(vs))
        ad = E.adt_of(v.ty) if isinstance(v.ty, int) else None
        if ad in (None, RES) and t == 1 and ad == RES:
            return True
        if ad == OPT and t == 1:
            return carries(E, st, E.getk(v, ('f', 1, 0, E.scalar(E.P.T[v.ty]['a'][0]))), d + 1)
        if ad == POLL and t == 0:
            return carries(E, st, E.getk(v, ('f', 0, 0, E.scalar(E.P.T[v.ty]['a'][0]))), d + 1)
        if ad is None and v.op in ('eff', 'call', 'mut') and t == 1:
            return True
    return False


def split(E, st, v, tid, mark):
    """case split on success / failure; failures are marked"""
    k = E.adt_of(tid) if tid is not None else None
    if v.op == 'agg':
        k = v.a[0]
    out = []
    if k not in (RES, OPT, POLL):
        return [(st, v)]
    if v.ty is None and v.op != 'agg' and tid is not None:
        v.ty = E.scalar(tid)
    for s, a in M.split_enum(E, st, v, k):
        if k == RES:
            if a.a[1] == 1:
                s = s.copy()
                s.mon = tuple(sorted(set(s.mon) | {mark}))
            out.append((s, a))
        else:
            inner = [x for x in a.a[2:]]
            if not inner:
                out.append((s, a))
                continue
            it = E.P.T[tid]['a'][0] if tid is not None and E.P.T[tid].get('a') else None
            if restype(E, it) or inner[0].op == 'agg':
                for s2, w in split(E, s, inner[0], it, mark):
                    out.append((s2, agg(k, a.a[1], w)))
            else:
                out.append((s, a))
    return out


class Client:
    def __init__(self, root):
        self.root = root
        self.sources = set()

    def local_fallible(self, E, c):
        i = c.fn.get('i')
        if i is None:
            return False
        inst = E.P.I[i]
        return 'err' not in inst and inst.get('local') and not inst.get('ctor') and '{closure' not in inst['p'].split('::')[-1]

    def on_call(self, E, st, c):
        if c.decl == 'core::future::future::Future::poll':
            f = E.unpin(st, c.args[0])
            if f.op == 'agg' and f.a[0] == 'fut' and f.a[2].a[0].d.get('i') is not None:
                r = mk('eff', f.a[2].a[0].d['p'], c.site, *[E.norm(st, a) for a in f.a[4:]], ty=E.scalar(E.P.T[c.dty]['a'][0]))
                E.forget(st, r)
                for k, (a, t) in enumerate(zip(f.a[4:], f.a[3].a[0])):
                    if E.is_mutref(t):
                        rt, p = E.target(a)
                        old = E.read(st, rt, p)
                        E.write(st, rt, p, mk('mut', 'await', c.site, k, old, ty=old.ty))
                return [(st, agg(POLL, 0, r))]
            return None
        m = c.decl.split('::')[-1]
        if (c.decl.startswith('core::result::Result') and m in DROPPING) or c.path.startswith('<core::result::Result<T, E> as core::iter::traits::collect::IntoIterator>'):
            out = []
            hit = False
            for s, v in split(E, st, c.args[0], c.argtys[0], m):
                hit = hit or s.mon != st.mon
                c.args[0] = v
                r = M.apply(E, s, c)
                out += E.do_inst(s, c) if r is None else r
            return out if hit else None
        if self.local_fallible(E, c):
            inst = E.P.I[c.fn['i']]
            if restype(E, c.dty):
                return E.opaque(st, c)
            t = E.P.T[c.dty]['k'] if c.dty is not None else None
            if t in ('uint', 'int', 'bool', 'float', 'str', 'char') or (t == 'tuple' and not E.P.T[c.dty]['a']):
                return E.opaque(st, c)
            if c.dty is not None and E.P.T[c.dty]['k'] in ('coroutine', 'alias') or inst.get('cor'):
                return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
        return None

    def inline(self, E, inst, c):
        # std and closures: yes; crate functions only when they cannot fail
        return True

    def on_result(self, E, c, res):
        t = restype(E, c.dty)
        if not t:
            return res
        if any(x in c.decl for x in ('from_residual', 'from_output')):
            return res
        out = []
        for s, v in res:
            out += split(E, s, v, c.dty, '%s' % (c.decl,))
        return out

    def on_next(self, E, st, c, root, path, v, tag):
        """element of an iterator the caller provided"""
        T = None
        return None

    def on_io(self, E, st, c, op):
        if op == 'stream::yield':
            v = c.args[-1]
            if carries(E, st, v):
                s = st.copy()
                s.mon = ()
                return [(s, UNIT)]
        return None


DROPPING = ('ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok', 'is_ok_and', 'map_or', 'iter', 'into_iter', 'ok_or', 'or')
SKIP = ('core::fmt::', 'core::error::Error', 'serde')


def roots(P):
    for i in P.I:
        if 'err' in i or not i.get('local') or i.get('shim') or i.get('ctor'):
            continue
        if not i.get('identity') and not i.get('cor'):
            continue
        f = P.fnbypath.get(i['p'])
        if f and f.get('impl_trait_p') and f['impl_trait_p'].startswith(SKIP):
            continue
        yield i


def uses_results(P, j):
    """is any Result-typed local used other than by unwrapping it"""
    rl = {n for n, t in enumerate(j['tys']) if 'Result<' in P.tys(t)}
    if 0 in rl:
        return True
    if not rl:
        return False
    for b in j['b']:
        t = b[1]
        used = set()
        for s in b[0]:
            if s[0] == '=':
                _rv_uses(s[2], used, set())
        if t[0] == 'call':
            f = t[1]
            p = f[2][1]['p'] if f[0] == 'k' and f[2][0] == 'fn' else ''
            if p.startswith('core::result::Result') and p.split('::')[-1] in ('unwrap', 'expect'):
                if used & rl:
                    return True
                continue
            for o in t[2]:
                _locals_in_op(o, used)
        elif t[0] == 'switch':
            _locals_in_op(t[1], used)
        if used & rl:
            return True
    return False


def relevant(P, i):
    """does the body (or a closure written in it) touch Results at all"""
    pre = i['p'] + '::{closure'
    for j in [i] + [x for p, l in P.bypath.items() if p.startswith(pre) for x in l]:
        if 'err' in j:
            continue
        if uses_results(P, j):
            return True
    return False


def analyse(P, i):
    E = Engine(P, Client(i), budget=120000)
    try:
        ex, ev, fr = E.run(i)
    except TooBig:
        return 'big'
    if not any(st.mon for st, r in ex) and not restype(E, i['tys'][0]):
        return None
    out = []
    for st, r in ex:
        src = []
        if st.mon and not carries(E, st, r):
            src = [m for m in st.mon if not m.split('::')[-1] in FALLBACKS]
            if set(src) <= {'core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into', 'ok'} and ordinal_omitted(E, st, r):
                src = []
        out.append((src, str(r)[:160]))
    return out


def ordinal_omitted(E, st, r):
    """the optional ordinal of a row group that does not fit its 16 bits is left out"""
    todo = [r]
    while todo:
        v = todo.pop()
        if v.op != 'agg':
            continue
        if isinstance(v.a[0], str) and v.a[0].endswith('::RowGroup'):
            f = v.a[2 + E.P.field_index(v.a[0], 'ordinal')]
            return f.op == 'agg' and f.a[0] == OPT and f.a[1] == 0
        todo += [x for x in v.a[2:] if hasattr(x, 'op')]
    return False


def check(c):
    P = c.P
    c.rule('For each function, closure and async body: every call (including calls on caller-supplied readers, writers, iterators and futures) that returns a Result is split into success and failure; '
           'on every path on which a failure was produced the function returns an Err (or yields it on its stream) or diverges.')
    c.assume.append('each function of the crate satisfies the rule itself, so a callee that returns Ok is taken to have had no failure (modular argument)')
    rs = [i for i in roots(P) if relevant(P, i)]
    rs.sort(key=lambda i: -len(i['b']))
    n = 0
    for i, r in zip(rs, pmap(lambda i: analyse(P, i), rs)):
        if r == 'big':
            c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
            continue
        if r is None:
            continue
        n += 1
        c.analysed[i['p']] = 1
        for src, v in r:
            c.ob(not src, 'swallowed %s in %s' % (','.join(x.split('::')[-1] for x in src), i['p']),
                 'a failure of %s does not reach the caller of %s: the path returns %s' % (', '.join(src), i['p'], v), '%s:%s' % (i['file'], i['line']), '%s: a path returning %s' % (i['p'], v))
    c.floor('fallible functions', n, 150)
