"""C13: which type's code handles the statistics and column indexes of a physical type."""
from ..core import Engine, State, Node, mk, num, agg, some, ok, err, NONE, FALSE, OPT, RES
from .. import models as M
from .common import callgraph
from .c24 import results, leaves
from .tab import thrift, local, field, fidx, tysig, norm, struct, variants, short

# physical type -> (statistics, column index); None: a reduction may report that it is not supported
TABLE = {
    'Boolean': ('BooleanStatistics', 'BooleanIndex'),
    'Int32': ('PrimitiveStatistics<i32>', 'NativeIndex<i32>'),
    'Int64': ('PrimitiveStatistics<i64>', 'NativeIndex<i64>'),
    'Int96': ('PrimitiveStatistics<[u32; 3]>', 'NativeIndex<[u32; 3]>'),
    'Float': ('PrimitiveStatistics<f32>', 'NativeIndex<f32>'),
    'Double': ('PrimitiveStatistics<f64>', 'NativeIndex<f64>'),
    'ByteArray': ('BinaryStatistics', 'ByteIndex'),
    'FixedLenByteArray': ('FixedLenStatistics', 'FixedLenByteIndex'),
}
KINDS = {'Statistics': 0, 'Index': 1}


class Client:
    def __init__(self, P, types, second=None):
        self.P = P
        self.types = types
        self.second = second
        self.seen = {}
        self.open = False
        self.parsed = None

    def on_call(self, E, st, c):
        p = c.path or ''
        if short(p) == 'physical_type' and c.argtys and 'dyn ' in self.P.tys(c.argtys[0]):
            t = self.types
            if self.second is not None and any(x.op == 'sym' and x.a[0] == 'arg1' for x in leaves(E, c.args[0])):
                t = self.second
            return [(st.copy(), mk('call', '&', t))]
        if self.parsed is not None and short(p) == 'read_from_in_protocol':
            return [(st.copy(), ok(self.parsed))]
        if 'downcast_ref' in p:
            s = norm(self.P.tys(c.dty))
            self.seen.setdefault(s[len('Option<&'):-1], '%s:%s' % (c.fr.inst['file'], c.line))
            o = mk('call', 'downcast', c.args[0])
            if self.open:
                a = local(self.P, s[len('Option<&'):].split('<')[0].rstrip('>'))
                if a:
                    o = mk('call', '&', struct(self.P, a, 'obj.'))
            return [(st.copy(), some(o))]
        return None

    def on_unsize(self, E, st, fr, v, src, dst):
        d = norm(self.P.tys(dst))
        if any('dyn ' + k in d for k in KINDS):
            s = norm(self.P.tys(src)).lstrip('&')
            for w in ('Arc<', 'Box<', 'Rc<'):
                if s.startswith(w):
                    s = s[len(w):-1]
            if not s.startswith('dyn '):
                self.seen.setdefault(s, '%s:%s' % (fr.inst['file'], fr.inst['line']))


def dispatchers(P):
    out = []
    for f in P.fns:
        i = P.inst(f['p'])
        if i is None or 'err' in i or not i.get('local') or not i.get('identity') or '{' in f['p']:
            continue
        s = [norm(x) for x in tysig(P, i)]
        a = s[1:]
        k = 'Statistics' if any('dyn Statistics' in x for x in s) else ('Index' if any('dyn Index' in x for x in s) else None)
        if k is None or f.get('impl_trait_p', '').endswith('::' + k):
            continue
        if s[0].startswith('Result<') and 'dyn ' in s[0] and a[-1:] == ['PrimitiveType'] and len(a) == 2:
            out.append((i, k, 'parse'))
        elif len(a) == 1 and a[0] in ('&dyn ' + k,) and s[0] == k:
            out.append((i, k, 'serialise'))
        elif len(a) == 2 and s[0] == 'bool' and 'dyn ' + k in a[0] and a[0] == a[1]:
            out.append((i, k, 'compare'))
        elif len(a) == 1 and 'dyn ' + k in a[0] and 'dyn ' + k in s[0] and s[0].startswith('Result<'):
            out.append((i, k, 'reduce'))
    # the code of one type, called by the function that chooses
    g = callgraph(P)
    inner = set()
    for i, k, w in out:
        todo, seen = [i['id']], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            inner.add((P.I[x]['p'], k, w)) if x != i['id'] else None
            todo += g.get(x, (set(), ()))[0]
    return [x for x in out if (x[0]['p'], x[1], x[2]) not in inner]


WIDTH = {'Boolean': 1, 'Int32': 4, 'Int64': 8, 'Int96': 12, 'Float': 4, 'Double': 8}


def parsed(c, i, pt, vs, T):
    """statistics: each field comes from the field of the same name, and values of the wrong width are errors"""
    P = c.P
    tp = thrift(P, 'Statistics')
    where = '%s:%s' % (i['file'], i['line'])
    vec = P.tybystr.get('alloc::vec::Vec<u8>')
    n = 0
    for have in ((1, 1), (1, 0), (0, 1), (0, 0)):
        v, cl, E, st, args = start(P, i, 'parse', pt, vs, T)
        src = {k: mk('sym', k, ty=vec and E.scalar(vec)) for k in ('min_value', 'max_value')}
        opt = {k: some(src[k]) if h else NONE for (k, h) in zip(('min_value', 'max_value'), have)}
        ints = {k: mk('sym', 'src.' + k) for k in ('null_count', 'distinct_count')}
        args[0] = mk('call', '&', struct(P, tp, 'src.', **opt, **ints))
        ex, ev, fr = E.run(i, args, st)
        for s, r in ex:
            for x in results(E, s, r):
                if x is None or x.a[1] != 0:
                    continue
                y = x.a[2]
                while y.op == 'agg' and y.a[0] == 'box':
                    y = y.a[2]
                if y.op != 'agg' or y.a[0] not in P.adts:
                    continue
                fs = P.adts[y.a[0]]['variants'][0]['f']
                key = 'statistics %s ' % T
                for f, val in zip(fs, y.a[2:]):
                    n += 1
                    if f == 'primitive_type':
                        c.ob(val is args[-1], key + f, 'the statistics of a column do not carry its type', where)
                    elif f in ints:
                        c.ob(val is ints[f], key + f, 'the field %s of the statistics does not come from the one of the file' % f, where, key + f)
                    elif f in src:
                        other = 'max_value' if f == 'min_value' else 'min_value'
                        ls = {z.a[0] for z in leaves(E, val) if z.op == 'sym'}
                        h = have[f == 'max_value']
                        got = [w for s2, w in M.split_enum(E, s, val, OPT)]
                        ok_ = all((w.a[1] == 1) == bool(h) for w in got if w.op == 'agg') and other not in ls and (f in ls) == bool(h)
                        c.ob(ok_, key + f, 'the field %s of the statistics does not come from the one of the file' % f, where, key + f)
                        w = num(WIDTH[T], 'usize') if T in WIDTH else (mk('sym', 'size', ty='usize') if T == 'FixedLenByteArray' else None)
                        if h and w is not None:
                            ln = E.length(src[f])
                            c.ob(E.entails_le(s, ln, w) and E.entails_le(s, w, ln), key + 'width ' + f, 'a %s of any width is accepted' % f, where, key + 'the width is checked')
    return n


def indexed(c, i, pt, vs, T):
    """column indexes: element k of the index is made of the elements k of the lists of the same names"""
    P = c.P
    tp = thrift(P, 'ColumnIndex')
    where = '%s:%s' % (i['file'], i['line'])
    n = 0
    for counts in (True, False):
        n += indexed1(c, i, pt, vs, T, tp, where, counts)
    return n


def indexed1(c, i, pt, vs, T, tp, where, counts):
    P = c.P
    v, cl, E, st, args = start(P, i, 'parse', pt, vs, T)
    src = {k: mk('sym', 'src.' + k) for k in ('null_pages', 'min_values', 'max_values', 'null_counts', 'boundary_order')}
    src['null_counts'] = some(src['null_counts']) if counts else NONE
    cl.parsed = struct(P, tp, **src)
    ex, ev, fr = E.run(i, args, st)
    n = 0
    WANT = {'min': 'min_values', 'max': 'max_values', 'null_count': 'null_counts'}
    for s, r in ex:
        for x in results(E, s, r):
            if x is None or x.a[1] != 0:
                continue
            y = x.a[2]
            while y.op == 'agg' and y.a[0] == 'box':
                y = y.a[2]
            if y.op != 'agg' or y.a[0] not in P.adts:
                continue
            for f, val in zip(P.adts[y.a[0]]['variants'][0]['f'], y.a[2:]):
                key = 'index %s ' % T
                if f == 'primitive_type':
                    c.ob(val is args[-1], key + f, 'the index of a column does not carry its type', where)
                    continue
                if f != 'indexes':
                    continue
                # the elements: every page entry that occurs in the list
                el = set()
                for z in leaves(E, val):
                    if z.op == 'agg' and z.a[0] in P.adts and 'null_count' in P.adts[z.a[0]]['variants'][z.a[1]]['f']:
                        el.add(z)
                n += 1
                c.cov['entries'] = c.cov.get('entries', 0) + len(el)
                for e in el:
                    for g, w in zip(P.adts[e.a[0]]['variants'][0]['f'], e.a[2:]):
                        if g == 'null_count' and not counts:
                            c.ob(E.variants(s, w, OPT) <= {0} or empty(E, w), key + 'unknown null count', 'a null count is made up for a column index without null counts', where, key + 'unknown null count')
                            continue
                        names = {z.a[0][4:] for z in values(E, w) if z.op == 'sym' and z.a[0].startswith('src.')}
                        c.ob(g not in WANT or names - {'min_values'} <= {WANT[g]} and (g != 'min' or names == {'min_values'}) and (g != 'max' or names == {'max_values'}), key + g,
                             'the %s of a page comes from %s of the column index' % (g, sorted(names)), where, key + g)
    return n


def empty(E, v, d=0):
    """every alternative of this value is None"""
    if d > 8:
        return False
    if v.op == 'agg':
        return v.a[0] == OPT and v.a[1] == 0
    if v.op in ('anyof', 'elem', 'phi'):
        l = [x for x in (E.alts.get(v, ()) or v.a) if isinstance(x, Node) and not E.is_int(x)]
        if v.op == 'elem':
            w = v.a[0]
            l = [w.a[1]] if w.op == 'vec' else []
        return bool(l) and all(empty(E, x, d + 1) for x in l if x is not v)
    return False


def values(E, v, d=0, seen=None):
    """like leaves, but not the positions of elements"""
    seen = set() if seen is None else seen
    if d > 25 or v in seen:
        return seen
    seen.add(v)
    a = v.a[:1] if v.op in ('elem', 'field', 'len') else v.a
    for x in a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, Node):
                values(E, y, d + 1, seen)
    for x in E.alts.get(v, ()):
        values(E, x, d + 1, seen)
    return seen


def written(c, E, ex, i, T):
    P = c.P
    where = '%s:%s' % (i['file'], i['line'])
    for s, r in ex:
        if r.op != 'agg' or r.a[0] not in P.adts:
            continue
        fs = P.adts[r.a[0]]['variants'][0]['f']
        ty = {'Statistics': TABLE[T][0].split('<')[0]}
        lp = local(P, ty['Statistics'])
        lf = P.adts[lp]['variants'][0]['f'] if lp else []
        for f, val in zip(fs, r.a[2:]):
            ls = {z.a[0].rsplit('.', 1)[1] for z in leaves(E, val) if z.op == 'sym' and z.a[0].startswith('obj.')}
            if f in lf:
                c.ob(ls == {f}, 'written %s %s' % (T, f), 'the field %s of written statistics is made of the fields %s' % (f, sorted(ls)), where, 'written %s %s' % (T, f))
            else:
                c.ob(not ls, 'written %s %s' % (T, f), 'the deprecated field %s of written statistics is used' % f, where)


def start(P, i, what, pt, vs, T, T2=None):
    size = mk('sym', 'size', ty='usize')
    mkv = lambda T: agg(pt, vs.index(T), *([size] if P.adts[pt]['variants'][vs.index(T)]['f'] else []))
    v = mkv(T)
    cl = Client(P, v, mkv(T2) if T2 else None)
    E = Engine(P, cl, budget=200000)
    st = State()
    args = [mk('sym', 'arg%d' % j, ty=E.scalar(i['tys'][j + 1])) for j in range(i['argc'])]
    if what == 'parse':
        args[-1] = struct(P, local(P, 'PrimitiveType'), physical_type=v)
    return v, cl, E, st, args


def check(c):
    P = c.P
    c.rule('Every function that takes or makes a dynamic statistics or column index is evaluated for every physical type; the concrete types it casts to or makes have to be exactly those of that physical type.')
    pt = local(P, 'PhysicalType')
    if not c.anchor(pt, 'PhysicalType'):
        return
    vs = variants(P, pt)
    c.ob(set(vs) == set(TABLE), 'variants', 'the physical types are %s' % sorted(vs))
    n = 0
    ds = dispatchers(P)
    for i, k, what in ds:
        c.analysed[i['p']] = 1
        for T in vs:
            n += 1
            want = TABLE[T][KINDS[k]]
            where = '%s:%s' % (i['file'], i['line'])
            v, cl, E, st, args = start(P, i, what, pt, vs, T)
            cl.open = what == 'serialise'
            ex, ev, fr = E.run(i, args, st)
            key = '%s %s %s' % (what, k, T)
            if what == 'parse' and k == 'Statistics':
                n += parsed(c, i, pt, vs, T)
            if what == 'parse' and k == 'Index':
                n += indexed(c, i, pt, vs, T)
            if what == 'serialise':
                written(c, E, ex, i, T)
            if what == 'compare':
                for s, r in ex:
                    ls = {z.a[0] for z in leaves(E, r) if z.op == 'sym'}
                    c.ob({'arg0', 'arg1'} <= ls, 'both ' + key, 'the comparison does not depend on both sides', where)
                for T2 in vs:
                    if T2 != T:
                        v, cl2, E2, st, args = start(P, i, what, pt, vs, T, T2)
                        ex2, ev, fr = E2.run(i, args, st)
                        n += 1
                        c.ob(bool(ex2) and all(r is FALSE for s, r in ex2), 'different ' + key + ' ' + T2, 'a %s of %s and one of %s can be equal' % (k, T, T2), where)
            good = [(s, r) for s, r in ex if what in ('compare', 'serialise') or any(x is None or x.a[1] == 0 for x in results(E, s, r))]
            c.ob(set(cl.seen) <= {want}, key, 'values of the physical type %s are handled as %s, they should be %s' % (T, ', '.join(sorted(set(cl.seen) - {want})), want), next(iter(cl.seen.values()), where), '%s as %s' % (key, want))
            if what == 'reduce' and not cl.seen:
                c.ob(bool(ex), 'supported ' + key, 'the physical type %s is neither supported nor reported as an error' % T, where, key)
            else:
                c.ob(bool(good) and bool(cl.seen), 'supported ' + key, 'the physical type %s has no code' % T, where, key)
    c.floor('dispatchers', len(ds), 6)
    c.floor('cases', n, 150)
