"""counting the bytes given to the caller's output, for the rules about the writers"""
from ..core import Engine, Event, agg, mk, num, ok, err, UNIT, FnBox, POLL
from .. import models as M

W = ('m', 'written')


class Client:
    """every successful write on a writer that is not plain memory adds to the ghost cell; the
    functions in `cut` are replaced by a summary"""

    def __init__(self, P, cut=None):
        self.P = P
        self.cut = cut or {}

    def count(self, E, st, n):
        st.mem[W] = E.arith('add', st.mem.get(W, num(0, 'u64')), n, 'u64')

    def on_io(self, E, st, c, op):
        if op == 'io::flush':
            c.ev.append(Event('flush', None, st.copy(), c.fr, c.line))
            self.effect(st, 'flush')
            return None
        if op != 'io::write_all':
            return None
        dst = c.args[0]
        if memory(E, st, c):
            return None
        src = M.seq(E, st, c.args[1])
        n = E.length(src, st)
        at = st.mem.get(W, num(0, 'u64'))
        c.ev.append(Event('bytes', (src, at), st.copy(), c.fr, c.line))
        s1, s2 = st.copy(), st.copy()
        self.effect(s1, ('bytes', src))
        self.count(E, s1, n)
        return [(s1, ok(UNIT)), (s2, err(mk('eff', 'ioerr', c.site)))]

    def effect(self, st, what):
        pass

    def watch(self, E, st):
        """loops over a few constant numbers are followed step by step"""
        out = []
        for r, v in st.mem.items():
            if r[0] == 'l' and v.op == 'agg':
                for x in (v,) + tuple(y for y in v.a[2:] if hasattr(y, 'op') and y.op == 'agg'):
                    if isinstance(x.a[0], str) and x.a[0].endswith('ops::range::Range') and len(x.a) > 3 and all(y.op == 'int' for y in x.a[2:4]) and x.a[3].a[0] <= 16:
                        out.append((r[1:], x.a[2].a[0]))
        return tuple(sorted(out))

    def on_call(self, E, st, c):
        last = c.path.split('::')[-1]
        if last in ('write_to_out_protocol', 'write_to_out_stream_protocol'):
            if 'stream' in last and c.decl == c.path and c.dty is not None and E.P.T[c.dty]['k'] in ('coroutine', 'alias'):
                return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]
            n = mk('eff', 'nthrift', c.site, ty='usize')
            E.forget(st, n)
            s1, s2 = st.copy(), st.copy()
            at = st.mem.get(W, num(0, 'u64'))
            v = c.args[0]
            c.ev.append(Event('thrift', (v, n, at), st.copy(), c.fr, c.line))
            self.effect(s1, ('thrift', v, n))
            self.count(E, s1, n)
            return [(s1, ok(n)), (s2, err(mk('eff', 'thrifterr', c.site)))]
        i = c.fn.get('i')
        if i is not None and i in self.cut:
            return self.cut[i](self, E, st, c)
        return None


def memory(E, st, c):
    t = E.P.tys(c.argtys[0]) if c.argtys[0] is not None else ''
    return any(x in t for x in ('[u8]', 'Vec<u8', 'Cursor<'))


def units(P):
    """the functions of the write path that are analysed one by one: name -> instance (sync and
    async); the ones that do not exist are left out (their callers then include their code)"""
    out = {}
    for f in P.fns:
        p = f['p']
        if '::write::' not in p or '{closure' in p:
            continue
        i = P.inst(p)
        if i is None or 'err' in i or not i.get('local') or i.get('shim'):
            continue
        ty = [P.tys(t) for t in i['tys'][1:i['argc'] + 1]]
        n = p.split('::')[-1]
        own = 'FileWriter' in p or 'FileStreamer' in p
        if own and n in ('write', 'end', 'start') or not own and any(t in ('&mut W', 'W') for t in ty):
            out[p] = i
    return out


def argno(P, i, want):
    """position (from 0) of the only parameter of this type"""
    k = [j for j in range(i['argc']) if P.tys(i['tys'][j + 1]) == want]
    return k[0] if len(k) == 1 else None


def resty(P, i):
    """type of the value an Ok result of a (possibly async) function holds"""
    from .common import body_of
    b = body_of(P, i) or i
    T = P.T[b['tys'][0]]
    return T['a'][0] if T['k'] == 'adt' and T.get('a') else None


def sizeof_result(E, st, v, tid):
    """the byte count a writing function reports: the last u64 of what it returns"""
    P = E.P
    T = P.T[tid]
    if T['s'] in ('u64', 'usize'):
        return v
    if T['k'] == 'tuple':
        k = [j for j, t in enumerate(T['a']) if P.tys(t) == 'u64']
        return E.getk(v, ('f', 0, k[-1], 'u64'), st) if k else None
    if T['k'] == 'adt' and T['p'] in P.adts and 'bytes_written' in P.adts[T['p']]['variants'][0]['f']:
        fs = P.adts[T['p']]['variants'][0]['f']
        return E.getk(v, ('f', 0, fs.index('bytes_written'), 'u64'), st)
    return None
