"""C12: conversions between the in-memory metadata and its thrift form keep every field."""
from ..core import Engine, Event, TooBig, State, Node, OPT, RES, NONE, mk, num, agg, some, ok, err
from .. import models as M
from .. import frame
from .common import carries
from .lists import by_sig, alts
from .tab import field, fidx, norm, short

CONV = ('core::convert::From', 'core::convert::TryFrom')


class Client:
    """the conversions of the crate are uninterpreted functions of their argument; `cut`: more of them"""

    def __init__(self, P, cut=()):
        self.P = P
        self.cut = {i['id'] for i in cut}
        self.conv = set()
        for f in P.fns:
            if f.get('impl_trait_p') in CONV:
                for i in P.bypath.get(f['p'], ()):
                    if 'err' not in i and norm(P.tys(i['tys'][0])) not in ('Error',):
                        self.conv.add(i['id'])

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is None or c.dty is None:
            return None
        if i in self.conv or i in self.cut:
            P = E.P
            a = [E.content(st, x) if x.op == 'ref' else x for x in c.args]
            if P.T[c.dty]['k'] == 'adt' and P.T[c.dty]['p'] == RES:
                r = mk('call', 'conv', *a, ty=E.scalar(P.T[c.dty]['a'][0]))
                return [(st.copy(), ok(r)), (st.copy(), err(mk('eff', 'invalid', c.site)))]
            return [(st, mk('call', 'conv', *a, ty=c.dty))]
        inst = E.P.I[i]
        if inst.get('local') and not inst.get('cor') and E.P.T[c.dty]['k'] == 'adt' and E.P.T[c.dty]['p'] == RES and norm(E.P.tys(E.P.T[c.dty]['a'][0])) == '()':
            # validation
            if c.argtys and all(t is not None and E.P.T[t]['k'] != 'refmut' and not E.P.tys(t).startswith('&mut') for t in c.argtys):
                return [(st.copy(), ok(mk('unit') if False else agg('tuple', 0))), (st.copy(), err(mk('eff', 'invalid', c.site)))]
        return None


def describe(E, v, st=None, d=0):
    """the alternatives of a value as readable terms over the fields it comes from"""
    if d > 14:
        return {'...'}
    if v.op == 'ref':
        return describe(E, E.content(st or State(), v), st, d + 1)
    if v.op in ('phi', 'anyof'):
        out = set()
        for x in alts(E, v):
            out |= describe(E, x, st, d + 1) if x is not v else {'?'}
        return out
    if v.op == 'cast':
        return describe(E, v.a[0], st, d + 1)
    if v.op == 'int' or v.op == 'str':
        return {repr(v.a[0])}
    if v.op == 'sym':
        return {str(v.a[0])}
    if v.op == 'deref':
        return describe(E, v.a[0], st, d + 1)
    if v.op == 'call' and v.a[0] in ('clone', '&'):
        return describe(E, v.a[1], st, d + 1)
    if v.op == 'call':
        return comb(v.a[0] + '(', ', ', ')', [describe(E, x, st, d + 1) for x in v.a[1:] if isinstance(x, Node)])
    if v.op == 'field':
        b = v.a[0]
        bs = [b] if b.op not in ('phi', 'anyof') else alts(E, b)
        out = set()
        for x in bs:
            if x.op == 'agg':
                if x.a[1] == v.a[1] and 2 + v.a[2] < len(x.a):
                    out |= describe(E, x.a[2 + v.a[2]], st, d + 1)
                continue
            ad = E.adt_of(x.ty) if isinstance(x.ty, int) else None
            a = E.P.adts.get(ad) if ad else None
            if ad == OPT:
                n = '?'
            elif a is not None:
                vr = a['variants'][v.a[1] or 0]
                n = vr['f'][v.a[2]]
                if a['enum']:
                    n = vr['n'] + ':' + n
            else:
                n = str(v.a[2])
            out |= {y + '.' + n for y in describe(E, x, st, d + 1)}
        return out
    if v.op == 'agg':
        k = v.a[0]
        fs = [describe(E, x, st, d + 1) for x in v.a[2:] if isinstance(x, Node)]
        if k == OPT:
            return {'None'} if v.a[1] == 0 else {w[:-2] if w.endswith('.?') else 'Some(%s)' % w for w in fs[0]}
        if k == 'tuple':
            return comb('(', ', ', ')', fs)
        if k == 'box':
            return fs[0]
        a = E.P.adts.get(k)
        n = short(k) if isinstance(k, str) else str(k)
        if a is not None and a['enum']:
            n += '::' + a['variants'][v.a[1]]['n']
        return comb(n + '(', ', ', ')', fs) if fs else {n}
    if v.op == 'elem':
        i = v.a[1]
        i = str(i.a[0]) if isinstance(i, Node) and i.op == 'sym' else ''
        return {x + '[%s]' % i for x in describe(E, v.a[0], st, d + 1)}
    if v.op == 'vec':
        return {'list of ' + x for x in describe(E, v.a[1], st, d + 1)} or {'empty list'}
    return {v.op + ':' + str(v)[:40]}


def comb(pre, sep, post, sets):
    out = ['']
    for k, s in enumerate(sets):
        out = [o + (sep if k else '') + x for o in out for x in sorted(s)][:64]
    return {pre + o + post for o in out}


def options(E, st, v, pre, d=0):
    """the optional fields of a struct: (path, node)"""
    out = []
    ad = E.adt_of(v.ty) if isinstance(v.ty, int) else None
    a = E.P.adts.get(ad)
    if a is None or a['enum'] or d > 2:
        return out
    for f in a['variants'][0]['f']:
        x = field(E, st, v, f)
        xa = E.adt_of(x.ty) if isinstance(x.ty, int) else None
        if xa == OPT:
            out.append((pre + f, x))
        elif xa is not None and xa.startswith(E.P.crate):
            out += options(E, st, x, pre + f + '.', d + 1)
    return out



SIG = {
    'a': (['FileMetaData'], 'Result<FileMetaData, Error>'), 'b': (['FileMetaData'], 'FileMetaData'),
    'c': ([r'&SchemaDescriptor', 'RowGroup'], 'Result<RowGroupMetaData, Error>'), 'd': (['RowGroupMetaData'], 'RowGroup'),
    'e': (['ColumnDescriptor', 'ColumnChunk'], 'Result<ColumnChunkMetaData, Error>'), 'f': (['ColumnChunkMetaData'], 'ColumnChunk'),
    'g': (['SchemaDescriptor'], 'Vec<SchemaElement>'), 'h': ([r'&\[SchemaElement\]'], 'Result<SchemaDescriptor, Error>'),
    'i': ([r'&\[SchemaElement\]', 'usize'], r'Result<\(usize, ParquetType\), Error>'), 'j': ([r'&ParquetType', '&mut Vec<SchemaElement>', 'bool'], r'\(\)'),
    'p': ([r'&\[SchemaElement\]'], 'Result<ParquetType, Error>'), 'q': (['&ParquetType'], 'Vec<SchemaElement>'),
    'o': ([r'&Option<PrimitiveLogicalType>', r'&Option<PrimitiveConvertedType>', '&PhysicalType'], 'SortOrder'),
}
ANCHORS = 'abcdefgh'


def find(P):
    return {k: by_sig(P, *v) for k, v in SIG.items()}


def sub(n, acc, E, st, seen):
    if id(n) in seen:
        return
    seen.add(id(n))
    if n.op == 'ref':
        sub(E.content(st, n), acc, E, st, seen)
        return
    if n.op == 'elem':
        acc.append(n)
    for x in n.a:
        if isinstance(x, Node):
            sub(x, acc, E, st, seen)


class Conv(Client):
    """pushes are recorded with the state; calls of the recursive helper are followed by a ghost"""
    rec = None

    def on_elem(self, E, s, c, b, i, x, back):
        v = E.content(s, x) if x.op == 'ref' else x
        ad = E.adt_of(v.ty) if isinstance(v.ty, int) else None
        if ad is not None and ad.startswith(E.P.crate) and short(ad) == 'ColumnOrder':
            # the file format has no counterpart for an undefined order
            s = s.copy()
            k = next(j for j, w in enumerate(E.P.adts[ad]['variants']) if w['n'] == 'TypeDefinedOrder')
            return [s] if E.assume_var(s, v, ad, k, True) else []
        return None

    def on_push(self, E, st, c, r, p, v, x):
        c.ev.append(Event('push', (v, x, p), st.copy(), c.fr, c.line))

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if self.rec is not None and i in self.rec[0]:
            return self.rec[1](self, E, st, c)
        return super().on_call(E, st, c)


def run(P, i, cut, prep=None, rec=None, tag='a'):
    cl = Conv(P, cut)
    cl.rec = rec
    E = Engine(P, cl, budget=400000)
    args = [mk('sym', '%s%d' % (tag, k), ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
    st = State()
    if prep and prep(E, st, args) is False:
        return None
    ex, ev, fr = E.run(i, args, st)
    return E, [(s, r) for s, r in ex if not carries(E, s, r)], ev, args, fr


def modes(opts, always=()):
    """all present, none present, each alone missing, each alone present"""
    full = set(opts)
    out = [frozenset(full), frozenset()]
    for o in opts:
        out += [frozenset(full - {o}), frozenset({o})]
    r = []
    for m in out:
        m = frozenset(m | set(always))
        if m not in r:
            r.append(m)
    return r


def okval(E, s, r):
    ad = r.a[0] if r.op == 'agg' else E.adt_of(r.ty) if isinstance(r.ty, int) else None
    if ad == RES:
        return r.a[2] if r.op == 'agg' else E.getk(r, ('f', 0, 0, None), s)
    return r


FILE_OPT = ('created_by', 'key_value_metadata', 'column_orders')
PATHS = {
    # function: (source argument, optional inputs, {output field: input path or template})
    'a': (0, FILE_OPT, {'version': '{}.version', 'num_rows': '{}.num_rows', 'created_by': '{}.created_by', 'key_value_metadata': '{}.key_value_metadata', 'schema_descr': 'conv({}.schema)',
                        'row_groups': 'list of conv(conv({0}.schema), {0}.row_groups[])', 'column_orders': ('column_orders', 'Some(list of ColumnOrder::TypeDefinedOrder(conv(%s)))' % ', '.join(
                            'conv({}.schema).leaves[].descriptor.primitive_type.' + x for x in ('logical_type', 'converted_type', 'physical_type')))}),
    'b': (0, FILE_OPT, {'version': '{}.version', 'num_rows': '{}.num_rows', 'created_by': '{}.created_by', 'key_value_metadata': '{}.key_value_metadata', 'schema': 'conv({}.schema_descr)',
                        'row_groups': 'list of conv({}.row_groups[])', 'column_orders': ('column_orders', 'Some(list of ColumnOrder::TYPEORDER(TypeDefinedOrder))')}),
    'c': (1, ('sorting_columns', 'file_offset', 'total_compressed_size', 'ordinal'), {'num_rows': '{}.num_rows', 'total_byte_size': '{}.total_byte_size', 'columns': 'list of conv(a0.leaves[], {}.columns[])'}),
    'd': (0, (), {'num_rows': '{}.num_rows', 'total_byte_size': '{}.total_byte_size', 'columns': 'list of conv({}.columns[])'}),
}
LISTS = {('a', 'row_groups'): 'row_groups', ('b', 'row_groups'): 'row_groups', ('b', 'column_orders'): 'column_orders', ('c', 'columns'): 'columns', ('d', 'columns'): 'columns'}


def option(E, st, v, name, present):
    return E.assume_var(st, field(E, st, v, name), OPT, 1 if present else 0, True)


def pushes(c, P, ev, name, watch, where):
    """every entry made from the element of a list is put at that element's position"""
    n = 0
    for e in ev:
        if e.kind != 'push':
            continue
        v, x, _ = e.data
        acc = []
        sub(x, acc, e.st and ENG[0], e.st, set())
        for y in acc:
            d = describe(ENG[0], y, e.st)
            if v.op == 'vec' and any(w in watch for w in d):
                n += 1
                i, k = y.a[1], v.a[0]
                c.ob(ENG[0].entails_le(e.st, i, k) and ENG[0].entails_le(e.st, k, i), 'order %s %s' % (name, sorted(d)[0]), '%s puts entry %s of %s at position %s' % (name, i, sorted(d)[0], k), e.where(),
                     '%s keeps the order of %s' % (name, sorted(d)[0]))
    return n


ENG = [None]


def struct_conv(c, P, fs, k):
    src, opts, want = PATHS[k]
    n = 0
    for i in fs[k]:
        name = short2(i['p'])
        where = '%s:%s' % (i['file'], i['line'])
        c.analysed[i['p']] = 1
        cut = [x for kk, l in fs.items() if kk != k for x in l]
        for m in modes(opts):
            def prep(E, st, args):
                for o in opts:
                    if not option(E, st, args[src], o, o in m):
                        return False
            r = run(P, i, cut, prep)
            if r is None:
                continue
            E, oks, ev, args, fr = r
            ENG[0] = E
            tag = 'a%d' % src
            c.ob(bool(oks), 'succeeds ' + name, '%s never succeeds%s' % (name, missing(opts, m)), where)
            got = {}
            for s, rv in oks:
                v = okval(E, s, rv)
                for f in want:
                    x = field(E, s, v, f)
                    d = {y.replace('[0]', '[]') for y in describe(E, x, s) if y != 'empty list'}
                    got.setdefault(f, set()).update(d)
                    l = LISTS.get((k, f))
                    if l and (l not in opts or l in m):
                        a, b = listof(E, s, x), listof(E, s, field(E, s, args[src], l))
                        if a is not None and b is not None:
                            n += 1
                            la, lb = E.length(a, s), E.length(b, s)
                            c.ob(E.entails_le(s, la, lb) and E.entails_le(s, lb, la), 'length %s.%s' % (name, f), '%s makes %s %s out of %s' % (name, la, f, lb), where, '%s: one entry of %s for each of %s' % (name, f, l))
            for f, w in want.items():
                n += 1
                if isinstance(w, tuple):
                    o, w = w
                    w = w.replace('{}', tag).replace('{0}', tag) if o in m else 'None'
                    exp = {w}
                else:
                    w = w.replace('{}', tag).replace('{0}', tag)
                    o = next((o for o in opts if w == '%s.%s' % (tag, o)), None)
                    exp = {w} if o is None or o in m else {w, 'None'}
                g = got.get(f, set())
                c.ob(g <= exp and (bool(g) or not oks), 'field %s.%s' % (name, f), '%s: %s is %s; expected %s%s' % (name, f, ' or '.join(sorted(g))[:160], ' or '.join(sorted(exp))[:160], missing(opts, m)), where,
                     '%s: %s is %s' % (name, f, sorted(exp)[0]))
            n += pushes(c, P, ev, name, {tag + '.row_groups[]', tag + '.columns[]', tag + '.column_orders[]', 'a0.leaves[]', 'conv(a0.schema).leaves[]'}, where)
    return n


def missing(opts, m):
    x = [o for o in opts if o not in m]
    return '' if not x or len(opts) < 2 else ' (when %s %s absent)' % (', '.join(x), 'is' if len(x) == 1 else 'are')


def listof(E, st, v):
    if v.op == 'agg' and v.a[0] == OPT:
        return v.a[2] if v.a[1] == 1 else None
    if isinstance(v.ty, int) and E.adt_of(v.ty) == OPT:
        return M_payload(E, st, v)
    return v


def M_payload(E, st, v):
    from .lists import payload
    return payload(E, st, v)


def short2(p):
    return '::'.join(p.split('::')[-2:])


def chunk(c, P, fs):
    n = 0
    for i in fs['e']:
        name = short2(i['p'])
        c.analysed[i['p']] = 1
        E, oks, ev, args, fr = run(P, i, [x for k, l in fs.items() if k != 'e' for x in l])
        c.ob(bool(oks), 'succeeds ' + name, name + ' never succeeds', '%s:%s' % (i['file'], i['line']))
        for s, r in oks:
            v = okval(E, s, r)
            for f, w in (('column_chunk', 'a1'), ('column_descr', 'a0')):
                n += 1
                d = describe(E, field(E, s, v, f), s)
                c.ob(d == {w}, 'field %s.%s' % (name, f), '%s: %s is %s' % (name, f, sorted(d)[:3]), '%s:%s' % (i['file'], i['line']), '%s keeps %s whole' % (name, f))
    for i in fs['f']:
        name = short2(i['p'])
        c.analysed[i['p']] = 1
        E, oks, ev, args, fr = run(P, i, [x for k, l in fs.items() if k != 'f' for x in l], tag='f')
        for s, r in oks:
            n += 1
            d = describe(E, okval(E, s, r), s)
            c.ob(d == {'f0.column_chunk'}, 'chunk ' + name, '%s gives %s' % (name, sorted(d)[:3]), '%s:%s' % (i['file'], i['line']), '%s gives back the whole column chunk' % name)
    return n


def schema_root(c, P, fs):
    """SchemaDescriptor <-> the root group"""
    n = 0
    for i in fs['g']:
        name = short2(i['p'])
        c.analysed[i['p']] = 1
        where = '%s:%s' % (i['file'], i['line'])
        seen = []

        def see(cl, E, st, cc):
            seen.append((E, st.copy(), cc))
            return Client.on_call(cl, E, st, cc)
        tgt = {x['id'] for x in fs['j']}
        if not tgt:
            continue
        E, oks, ev, args, fr = run(P, i, fs['j'], rec=(tgt, see))
        for E, st, cc in seen:
            t = E.content(st, cc.args[0])
            d = {f: describe(E, fvar(E, st, t, 'GroupType', f), st) for f in ('fields', 'field_info')}
            n += 2
            c.ob(d['fields'] == {'a0.fields'}, 'root fields ' + name, '%s writes the fields %s' % (name, sorted(d['fields'])[:2]), where, '%s writes all fields of the schema' % name)
            c.ob(all(x.startswith('FieldInfo(a0.name,') for x in d['field_info']), 'root name ' + name, '%s writes the root as %s' % (name, sorted(d['field_info'])[:2]), where)
            c.ob(cc.args[2] is num(1, 'bool') or str(cc.args[2]) in ('1', 'true'), 'root flag ' + name, '%s does not write the root as root' % name, where)
        c.ob(len(seen) == 1, 'root once ' + name, '%s writes %s roots' % (name, len(seen)), where)
    for i in fs['p']:
        # exactly one root, and nothing after it
        if not fs['i']:
            continue
        name = short2(i['p'])
        c.analysed[i['p']] = 1
        where = '%s:%s' % (i['file'], i['line'])
        r = walk(P, i, fs, tag='a')
        E, oks, ev, args, fr = r
        c.ob(bool(oks), 'succeeds ' + name, name + ' never succeeds', where)
        for s, rv in oks:
            v = okval(E, s, rv)
            n += 3
            cnt, nxt, last = s.mem[('m', 'calls')], s.mem[('m', 'next')], s.mem[('m', 'last')]
            c.ob(eq1(E, s, cnt, num(1, 'usize')), 'one root ' + name, '%s accepts %s roots' % (name, cnt), where, '%s: exactly one root' % name)
            c.ob(E.entails_le(s, E.length(E.content(s, args[0]), s), nxt), 'all elements ' + name, '%s leaves elements of the schema unread' % name, where, '%s reads every element' % name)
            d = describe(E, v, s)
            c.ob(all(x.startswith('conv(a0,') and x.endswith('.1') or x.startswith('list of conv(a0') and x.endswith('.1[]') for x in d), 'root value ' + name, '%s gives %s' % (name, sorted(d)[:2]), where)
        n += steps(c, ev, name, num(0, 'usize'))
    for i in fs['h']:
        name = short2(i['p'])
        c.analysed[i['p']] = 1
        where = '%s:%s' % (i['file'], i['line'])
        cut = fs['p'] or fs['i']
        news = by_sig(P, ['String', 'Vec<ParquetType>'], 'SchemaDescriptor')
        if not news or not fs['p']:
            continue
        E, oks, ev, args, fr = run(P, i, cut + news)
        c.ob(bool(oks), 'succeeds ' + name, name + ' never succeeds', where)
        for s, rv in oks:
            n += 1
            d = describe(E, okval(E, s, rv), s)
            c.ob(d == {'conv(conv(a0).GroupType:field_info.name, conv(a0).GroupType:fields)'}, 'schema ' + name, '%s gives %s' % (name, sorted(d)[:2]), where, '%s keeps name and fields of the root' % name)
    return n


def fvar(E, st, v, variant, f):
    ad = v.a[0] if v.op == 'agg' else E.adt_of(v.ty)
    vs = E.P.adts[ad]['variants']
    k = next(j for j, x in enumerate(vs) if x['n'] == variant)
    if v.op == 'agg':
        return v.a[2 + vs[k]['f'].index(f)] if v.a[1] == k else mk('sym', 'no ' + f)
    j, t = fidx(E, ad, k, f)
    return E.getk(v, ('f', k, j, t), st)


def eq1(E, s, a, b):
    return E.entails_le(s, a, b) and E.entails_le(s, b, a)


def walk(P, i, fs, tag='a', start=None, prep=None):
    """run with the element reader replaced by a ghost: where the next element starts"""
    tgt = {x['id'] for x in fs['i']}

    def see(cl, E, st, cc):
        m = st.mem
        good = eq1(E, st, cc.args[1], m[('m', 'next')])
        cc.ev.append(Event('step', (good, cc.args[1], m[('m', 'next')]), st.copy(), cc.fr, cc.line))
        outs = []
        for s, r in Client.on_call(cl, E, st, cc):
            if r.op == 'agg' and r.a[1] == 0:
                t = r.a[2]
                s.mem[('m', 'next')] = E.getk(t, ('f', 0, 0, 'usize'), s)
                s.mem[('m', 'last')] = t
                s.mem[('m', 'calls')] = E.arith('add', s.mem[('m', 'calls')], num(1, 'usize'), 'usize')
            outs.append((s, r))
        return outs

    def prep2(E, st, args):
        st.mem[('m', 'next')] = start(E, args) if start else num(0, 'usize')
        st.mem[('m', 'calls')] = num(0, 'usize')
        st.mem[('m', 'last')] = agg('tuple', 0)
        if prep:
            return prep(E, st, args)
    return run(P, i, fs['i'], prep2, (tgt, see), tag)


def steps(c, ev, name, _):
    n = 0
    for e in ev:
        if e.kind == 'step':
            n += 1
            good, a, b = e.data
            c.ob(good, 'next ' + name, '%s reads the element at %s where the previous one ended at %s' % (name, a, b), e.where(), '%s: each element is read where the previous one ends' % name)
    return n


EL = ('type_length', 'converted_type', 'decimal', 'logical_type', 'field_id')


def element_read(c, P, fs):
    n = 0
    for i in fs['i']:
        name = short2(i['p'])
        where = '%s:%s' % (i['file'], i['line'])
        c.analysed[i['p']] = 1
        for kind in ('primitive', 'primitive 0', 'group', 'root'):
            for m in modes(EL if 'primitive' in kind else EL[1:2] + EL[3:]) if kind != 'root' else [frozenset(EL), frozenset()]:
                e0 = []

                def prep(E, st, args):
                    l = E.length(E.content(st, args[0]), st)
                    E.assume(st, E.cmp('lt', args[1], l), True)
                    E.assume(st, E.cmp('lt' if kind != 'root' else 'eq', num(0, 'usize'), args[1]), True)
                    b = E.content(st, args[0])
                    from ..core import node
                    from .lists import payload
                    v = E.read(st, E.target(args[0])[0], E.target(args[0])[1] + (('i', args[1]),))
                    e0.append(v)
                    nc = field(E, st, v, 'num_children')
                    good = E.assume_var(st, nc, OPT, 0 if kind == 'primitive' else 1, True)
                    if kind != 'primitive':
                        x = payload(E, st, nc)
                        good = good and E.assume(st, E.cmp('eq' if kind == 'primitive 0' else 'lt', num(0, 'i32'), x), True)
                    good = good and option(E, st, v, 'repetition_type', kind != 'root')
                    good = good and option(E, st, v, 'type_', 'primitive' in kind)
                    for o in EL:
                        for f in (('precision', 'scale') if o == 'decimal' else (o,)):
                            good = good and option(E, st, v, f, o in m)
                    return good
                r = walk(P, i, fs, 'a', lambda E, args: E.arith('add', args[1], num(1, 'usize'), 'usize'), prep)
                if r is None:
                    c.violation('setup ' + name, 'cannot set up ' + kind)
                    continue
                E, oks, ev, args, fr = r
                when = ' (%s%s)' % (kind, missing(EL, m))
                c.ob(bool(oks), 'succeeds %s %s' % (kind, name), '%s never succeeds%s' % (name, when), where)
                n += steps(c, ev, name, None)
                for e in ev:
                    if e.kind == 'push' and isinstance(e.data[1].ty, int) and norm(P.tys(e.data[1].ty)) == 'ParquetType' or e.kind == 'push' and e.data[1].op == 'field':
                        n += 1
                        v, x, _ = e.data
                        last = e.st.mem[('m', 'last')]
                        c.ob(x is E.getk(last, ('f', 0, 1, x.ty), e.st) or x.op == 'field' and x.a[0] is last and x.a[2] == 1, 'child ' + name, '%s adds %s, which is not the child just read' % (name, str(x)[:80]), e.where(), '%s adds each child read' % name)
                        c.ob(eq1(E, e.st, E.arith('add', v.a[0], num(1, 'usize'), 'usize'), e.st.mem[('m', 'calls')]), 'each child ' + name, '%s does not add every child read' % name, e.where())
                for s, rv in oks:
                    v = okval(E, s, rv)
                    n += 2
                    c.ob(eq1(E, s, E.getk(v, ('f', 0, 0, 'usize'), s), s.mem[('m', 'next')]), 'end %s %s' % (kind, name), '%s ends at %s; the element ends at %s%s' % (name, E.getk(v, ('f', 0, 0, 'usize'), s), s.mem[('m', 'next')], when), where,
                         '%s ends where the last child ends' % name)
                    t = E.getk(v, ('f', 0, 1, None), s) if v.op != 'agg' else v.a[3]
                    x = 'a0[a1].'
                    lt = 'Some(conv(%slogical_type.?))' % x if 'logical_type' in m else 'None'
                    idd = {x + 'field_id'} if 'field_id' in m else {x + 'field_id', 'None'}
                    if 'primitive' in kind:
                        dec = 'Some((%sprecision.?, %sscale.?))' % (x, x) if 'decimal' in m else 'None'
                        ct = 'Some(conv((%sconverted_type.?, %s)))' % (x, dec) if 'converted_type' in m else 'None'
                        tls = {x + 'type_length'} | ({'None'} if 'type_length' not in m else set())
                        exp = {'ParquetType::PrimitiveType(PrimitiveType(FieldInfo(%sname, conv(%srepetition_type.?), %s), %s, %s, conv((%stype_.?, %s))))' % (x, x, fid, lt, ct, x, tl) for fid in idd for tl in tls}
                    elif kind == 'group':
                        ct = 'Some(conv(%sconverted_type.?))' % x if 'converted_type' in m else 'None'
                        exp = {'ParquetType::GroupType(FieldInfo(%sname, conv(%srepetition_type.?), %s), %s, %s, ' % (x, x, fid, lt, ct) for fid in idd}
                    else:
                        exp = {'ParquetType::GroupType(FieldInfo(a0[a1].name, '}
                    d = {y.replace('a0[0]', 'a0[a1]').replace('a0[]', 'a0[a1]') for y in describe(E, t, s)}
                    c.ob(d and all(any(y == z or not z.endswith('))') and y.startswith(z) for z in exp) for y in d), 'element %s %s' % (kind, name), '%s gives %s%s; expected %s' % (name, sorted(d)[:2], when, sorted(exp)[:1]), where,
                         '%s: %s' % (name, sorted(exp)[0]))
                    if 'primitive' not in kind:
                        for t2 in alts(E, t):
                            if t2.op != 'agg':
                                continue
                            fl = fvar(E, s, t2, 'GroupType', 'fields')
                            n += 1
                            from .lists import payload
                            want = E.int_cast(payload(E, s, field(E, s, e0[0], 'num_children')), 'usize', s) if False else payload(E, s, field(E, s, e0[0], 'num_children'))
                            le = E.length(fl, s)
                            c.ob(eq1(E, s, le, want), 'children %s' % name, '%s reads %s children; the element has %s' % (name, le, want), where, '%s reads as many children as the element has' % name)
    return n


def element_write(c, P, fs):
    n = 0
    for i in fs['j']:
        name = short2(i['p'])
        where = '%s:%s' % (i['file'], i['line'])
        c.analysed[i['p']] = 1
        tgt = {x['id'] for x in fs['j']}
        for kind in ('PrimitiveType', 'GroupType'):
            for root in (0, 1):
                if root and kind == 'PrimitiveType':
                    continue
                for m in modes(('converted_type', 'logical_type', 'id')):
                    box = {}

                    def see(cl, E, st, cc):
                        cc.ev.append(Event('child', (cc.args[0], cc.args[1], cc.args[2], st.mem[('m', 'kids')], st.mem[('m', 'pushed')]), st.copy(), cc.fr, cc.line))
                        st.mem[('m', 'kids')] = E.arith('add', st.mem[('m', 'kids')], num(1, 'usize'), 'usize')
                        return [(st, agg('tuple', 0))]

                    class J(Conv):
                        def on_push(self, E, st, cc, r, p, v, x):
                            cc.ev.append(Event('push', (v, x, E.target(cc.args[0]), st.mem[('m', 'kids')]), st.copy(), cc.fr, cc.line))
                            st.mem[('m', 'pushed')] = E.arith('add', st.mem[('m', 'pushed')], num(1, 'usize'), 'usize')
                    cl = J(P, fs['j'])
                    cl.rec = (tgt, see)
                    E = Engine(P, cl, budget=400000)
                    args = [mk('sym', 'a%d' % k, ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
                    st = State()
                    st.mem[('m', 'kids')] = num(0, 'usize')
                    st.mem[('m', 'pushed')] = num(0, 'usize')
                    args[2] = num(root, 'bool')
                    v = E.content(st, args[0])
                    ad = E.adt_of(v.ty)
                    vs = E.P.adts[ad]['variants']
                    k = next(j for j, x in enumerate(vs) if x['n'] == kind)
                    E.assume_var(st, v, ad, k, True)
                    if kind == 'GroupType':
                        b = {f: fvar(E, st, v, kind, f) for f in ('field_info', 'logical_type', 'converted_type', 'fields')}
                        pre = 'a0.GroupType:'
                    else:
                        pt = fvar(E, st, v, kind, vs[k]['f'][0])
                        b = {f: field(E, st, pt, f) for f in ('field_info', 'logical_type', 'converted_type')}
                        pre = 'a0.PrimitiveType:0.'
                    E.assume_var(st, field(E, st, b['field_info'], 'id'), OPT, int('id' in m), True)
                    for f in ('logical_type', 'converted_type'):
                        E.assume_var(st, b[f], OPT, int(f in m), True)
                    ex, ev, fr = E.run(i, args, st)
                    ps = [e for e in ev if e.kind == 'push']
                    when = ' (%s%s)' % (kind + (', root' if root else ''), missing(('converted_type', 'logical_type', 'id'), m))
                    for e in ps:
                        v, x, tg, kids = e.data
                        c.ob(tg == E.target(args[1]), 'list ' + name, '%s adds an element to another list' % name, e.where())
                        c.ob(eq1(E, e.st, kids, num(0, 'usize')), 'before children ' + name, '%s adds an element after its children' % name, e.where(), '%s: an element comes before its children' % name)
                        lt = {'Some(conv(%slogical_type.?))' % pre} if 'logical_type' in m else {'None'}
                        fid = {pre + 'field_info.id'} if 'id' in m else {pre + 'field_info.id', 'None'}
                        cv = 'conv(%sconverted_type.?)' % pre
                        prim = kind == 'PrimitiveType'
                        con = 'converted_type' in m
                        want = {
                            'name': {pre + 'field_info.name'},
                            'field_id': fid, 'logical_type': lt,
                            'repetition_type': {'None'} if root else {'Some(conv(%sfield_info.repetition))' % pre},
                            'type_': {'Some(conv(%sphysical_type).0)' % pre} if prim else {'None'},
                            'type_length': {'conv(%sphysical_type).1' % pre} if prim else {'None'},
                            'num_children': None if not prim else {'None'},
                            'converted_type': {'None'} if not con else {'Some(%s.0)' % cv} if prim else {'Some(%s)' % cv},
                            'precision': {'None', 'Some(%s.1.?.0)' % cv, cv + '.1.?.0'} if prim and con else {'None'},
                            'scale': {'None', 'Some(%s.1.?.1)' % cv, cv + '.1.?.1'} if prim and con else {'None'},
                        }
                        for f, w in want.items():
                            y = field(E, e.st, x, f)
                            d = describe(E, y, e.st)
                            n += 1
                            if w is None:
                                z = listof(E, e.st, y)
                                if z is None:
                                    c.ob(False, 'num_children ' + name, '%s writes a group without num_children' % name, e.where())
                                else:
                                    while z.op == 'cast':
                                        z = z.a[0]
                                    c.ob(eq1(E, e.st, z, E.length(b['fields'], e.st)), 'num_children ' + name, '%s writes %s children' % (name, z), e.where(), '%s writes the number of fields' % name)
                                continue
                            full = len(w) < 2 or f == 'field_id' or d != {'None'}
                            c.ob(d and d <= w and full, 'element.%s %s' % (f, name), '%s: %s is %s%s; expected %s' % (name, f, sorted(d)[:2], when, sorted(w)[-1]), e.where(), '%s: %s is %s' % (name, f, sorted(w)[-1]))
                    for e in ev:
                        if e.kind != 'child':
                            continue
                        a, l, fl, kids, pu = e.data
                        n += 3
                        c.ob(kind == 'GroupType' and E.target(l) == E.target(args[1]), 'child list ' + name, '%s writes a child to another list' % name, e.where())
                        c.ob(str(fl) in ('0', 'false'), 'child root ' + name, '%s writes a child as root' % name, e.where())
                        c.ob(eq1(E, e.st, pu, num(1, 'usize')), 'parent first ' + name, '%s writes a child before its parent' % name, e.where())
                        y = E.content(e.st, a)
                        good = y.op == 'elem' and describe(E, y.a[0], e.st) == {'a0.GroupType:fields'} and eq1(E, e.st, y.a[1], kids)
                        c.ob(good, 'child order ' + name, '%s writes %s as child %s' % (name, str(y)[:80], kids), e.where(), '%s writes the children in order' % name)
                    for s, r in ex:
                        n += 1
                        c.ob(eq1(E, s, s.mem[('m', 'pushed')], num(1, 'usize')), 'one element ' + name, '%s writes %s elements for a type%s' % (name, s.mem[('m', 'pushed')], when), where, '%s writes one element for each type' % name)
                        if kind == 'GroupType':
                            c.ob(eq1(E, s, s.mem[('m', 'kids')], E.length(b['fields'], s)), 'all children ' + name, '%s writes %s children%s' % (name, s.mem[('m', 'kids')], when), where, '%s writes every child' % name)
    return n


PARTS = {'a': lambda c, P, fs: struct_conv(c, P, fs, 'a'), 'b': lambda c, P, fs: struct_conv(c, P, fs, 'b'), 'c': lambda c, P, fs: struct_conv(c, P, fs, 'c'), 'd': lambda c, P, fs: struct_conv(c, P, fs, 'd'),
         'e': chunk, 'h': schema_root, 'i': element_read, 'j': element_write}


def task(it):
    from ..frame import Check, prog
    cfg, k = it
    c = Check('C12')
    P = prog(cfg)
    fs = find(P)
    try:
        n = PARTS[k](c, P, fs)
    except TooBig:
        c.violation('too-big ' + k, 'functions too large to analyse: ' + ', '.join(short2(x['p']) for x in fs[k]))
        n = 0
    return c.viol, (c.counts, c.samples, c.analysed), n


def check(c):
    c.rule('Each conversion is interpreted with its nested conversions uninterpreted, for all combinations "every optional input present / absent / one of them absent / one of them present": on every successful path each field '
           'of the result is (the conversion of) its counterpart and nothing else; converted lists have the length and the order of their source; and by induction over the elements, schema trees are written parent first with '
           'all children in order and read where the previous element ends, with as many children as announced.')
    P = c.P
    fs = find(P)
    for k in 'abcdefgh':
        if not fs[k]:
            c.violation('missing-anchor ' + k, 'no conversion (%s) -> %s' % (', '.join(SIG[k][0]), SIG[k][1]))
    n = 0
    for viol, cov, k in frame.pmap(task, [('full', k) for k in PARTS]):
        n += k
        frame.merge(c, viol, cov)
    c.floor('obligations', n, 200)
