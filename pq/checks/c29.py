"""C29: the leaf columns of a schema, by induction over the recursion that builds them."""
from ..core import Engine, Event, State, mk, num, UNIT
from .c07 import eq
from .c08 import mentions
from .common import callgraph
from .tab import local, field, tysig, norm, variants

INC = {'Required': (0, 0), 'Optional': (0, 1), 'Repeated': (1, 1)}


class Client:
    def __init__(self, P, inst, pos=None, net=0):
        self.P, self.inst, self.pos, self.net = P, inst, pos, net
        self.elems = []
        self.args = {}

    def depth(self, st):
        return next((int(m[6:]) for m in st.mon if m.startswith('depth ')), 0)

    def move(self, st, k):
        d = max(-3, min(3, self.depth(st) + k))
        st.mon = tuple(sorted([m for m in st.mon if not m.startswith('depth ')] + ['depth %d' % d]))

    def onpath(self, E, ref):
        return self.pos is not None and E.target(ref) == (('p', self.args[self.pos['path']]), ())

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is not None and E.P.I[i]['p'] == self.inst['p']:
            c.ev.append(Event('rec', (list(c.args), self.depth(st)), st.copy(), c.fr, c.line))
            self.move(st, self.net)
            st.mon = tuple(m for m in st.mon if m != 'pending')
            return [(st, UNIT)]
        if c.path.endswith('Vec::<T, A>::pop') and self.onpath(E, c.args[0]):
            self.move(st, -1)
        elif any(c.path.endswith('Vec::<T, A>::' + n) for n in ('truncate', 'clear', 'remove', 'drain', 'split_off', 'insert')) and self.onpath(E, c.args[0]):
            c.ev.append(Event('other', c.path, st, c.fr, c.line))
        return None

    def on_push(self, E, st, c, r, p, v, x):
        if self.pos is None:
            return
        if (r, p) == (('p', self.args[self.pos['path']]), ()):
            c.ev.append(Event('name', (x, self.depth(st)), st.copy(), c.fr, c.line))
            self.move(st, 1)
        elif (r, p) == (('p', self.args[self.pos['leaves']]), ()):
            c.ev.append(Event('leaf', (x, self.depth(st)), st.copy(), c.fr, c.line))

    def on_elem(self, E, s, c, b, i, x, back):
        c.ev.append(Event('elem', (b, i, back), s, c.fr, c.line))
        if walked(E, s, b):
            if 'pending' in s.mon:
                c.ev.append(Event('skip', None, s, c.fr, c.line))
            s.mon = tuple(sorted(set(s.mon) | {'pending'}))
        return None


def walked(E, st, b):
    t = E.P.tys(E.content(st, b).ty) if isinstance(E.content(st, b).ty, int) else ''
    return 'ParquetType' in t


def check(c):
    P = c.P
    c.rule('The recursion that lists the leaves is analysed once for every kind of node and repetition, its recursive calls taken as the induction hypothesis: a node pushes its own name on the path, '
           'adds one to the levels its repetition calls for, a primitive node pushes exactly one leaf with those levels, its own type, the root-level field it lies under and the whole path, '
           'a group visits all its fields once, in order, with these levels and the path restored in between; the root starts every field with empty path and zero levels.')
    g = callgraph(P)
    rec = []
    for i in P.I:
        if 'err' in i or not i.get('local') or not i.get('identity') or i['id'] not in g:
            continue
        if not any(P.I[j]['p'] == i['p'] for j in g[i['id']][0]):
            # also through a closure
            if not any(any(P.I[k]['p'] == i['p'] for k in g.get(j, ((), ()))[0]) for j in g[i['id']][0]):
                continue
        s = [norm(x) for x in tysig(P, i)][1:]
        if s.count('&ParquetType') == 2 and s.count('i16') == 2 and '&mut Vec<ColumnDescriptor>' in s and any(x.startswith('&mut Vec<&') for x in s):
            rec.append((i, s))
    if len(rec) != 1:
        c.cov['recursion'] = 'no recursion of the expected shape'
        return
    i, sig = rec[0]
    c.analysed[i['p']] = 1
    where = '%s:%s' % (i['file'], i['line'])
    pos = {'leaves': sig.index('&mut Vec<ColumnDescriptor>'), 'path': next(k for k, x in enumerate(sig) if x.startswith('&mut Vec<&'))}
    lv = [k for k, x in enumerate(sig) if x == 'i16']
    tp = [k for k, x in enumerate(sig) if x == '&ParquetType']
    names = ['a%d' % k for k in range(len(sig))]
    # what leaves the path one longer than before: the function itself, or its caller
    nets = set()
    for net in (0, 1):
        obs = []
        runs(P, i, pos, names, net, lambda *a: obs.append(a))
        ds = {cl.depth(s) for pk, rep, E, cl, st0, ex, ev, nodev in obs for s, r in ex}
        calls = {e.data[1] for pk, rep, E, cl, st0, ex, ev, nodev in obs for e in ev if e.kind == 'rec'}
        if ds <= {net} and calls <= {1}:
            nets.add(net)
    c.ob(nets, 'path balance', 'the path is not the same before and after a field is visited', where, 'the path is restored between fields')
    net = min(nets) if nets else 1
    roles = {}

    def one(pk, rep, E, cl, st0, ex, ev, node):
        key = '%s %s' % (pk, rep)
        dr, dd = INC[rep]
        A = [cl.args[k] for k in range(len(sig))]
        nm = [e for e in ev if e.kind == 'name']
        c.ob(nm, 'name ' + key, 'the name of a %s %s is not added to its path' % (rep, pk), where)
        own = vfield(E, st0, *node, 0) if pk == 'PrimitiveType' else None
        info = field(E, st0, field(E, st0, own, 'field_info') if own is not None else vfield(E, st0, *node, 'field_info'), 'name')
        for e in nm:
            x, d = e.data
            ok = d == 0 and (E.content(e.st, x) is info or mentions(E.content(e.st, x), lambda n: n is info))
            c.ob(ok, 'name ' + key, 'what is added to the path of a %s %s is not (once) its name: %s' % (rep, pk, str(E.content(e.st, x))[:120]), e.where(), 'the node pushes its name')
        for e in ev:
            if e.kind == 'other':
                c.violation('path of ' + key, 'the path is changed by %s' % e.data, e.where())
        leaves = [e for e in ev if e.kind == 'leaf']
        recs = [e for e in ev if e.kind == 'rec']
        if pk == 'PrimitiveType':
            c.ob(leaves and not recs, 'leaf ' + key, 'a %s primitive field yields no leaf column' % rep, where)
            for s, r in ex:
                v = E.content(s, A[pos['leaves']])
                n0 = E.length(E.content(st0, A[pos['leaves']]), s)
                c.ob(eq(E, s, E.length(v, s), E.arith('add', n0, num(1), 'usize')), 'one leaf ' + key, 'a %s primitive field does not yield exactly one leaf' % rep, where, 'one leaf per primitive field')
            for e in leaves:
                v, d = e.data
                de = field(E, e.st, v, 'descriptor')
                for what, add in (('max_rep_level', dr), ('max_def_level', dd)):
                    lvl = field(E, e.st, de, what)
                    hit = [k for k in lv if eq(E, e.st, lvl, E.arith('add', A[k], num(add), 'i16'))]
                    c.ob(len(hit) == 1 and roles.setdefault(what, hit[0]) == hit[0], '%s of %s' % (what, key),
                         'the %s of a %s primitive field is %s, it should be its parent\'s plus %d' % (what, rep, str(lvl)[:80], add), e.where(), '%s of a %s field: parent + %d' % (what, rep, add))
                pt = field(E, e.st, de, 'primitive_type')
                c.ob(pt is own, 'type of ' + key, 'the leaf does not have the type of its field: %s' % str(pt)[:100], e.where(), 'the leaf has the field\'s type')
                b = field(E, e.st, v, 'base_type')
                hit = [k for k in tp if b is E.content(st0, A[k])]
                c.ob(len(hit) == 1, 'base of ' + key, 'the base type of a leaf is %s' % str(b)[:100], e.where())
                if len(hit) == 1:
                    c.ob(roles.setdefault('base_type', hit[0]) == hit[0] and hit[0] != roles['tp'], 'base of ' + key, 'the base type of a leaf is not the field below the root it lies under', e.where(), 'the base type is handed down')
                c.ob(d == 1, 'path of ' + key, 'the path of a leaf does not end with its own name', e.where(), 'the path of a leaf ends with its name')
                pv = field(E, e.st, v, 'path_in_schema')
                cur = E.content(e.st, A[pos['path']])
                c.ob(eq(E, e.st, E.length(pv, e.st), E.length(cur, e.st)), 'whole path of ' + key, 'the path of a leaf has not as many names as there are fields on the way to it', e.where(), 'the whole path is kept')
            for e in ev:
                if e.kind == 'elem' and E.target(e.data[0]) == E.target(A[pos['path']]):
                    c.ob(not e.data[2], 'path order ' + key, 'the path is reversed', e.where())
            return
        c.ob(not leaves, 'leaf ' + key, 'a group yields a leaf', where)
        c.ob(recs, 'visit ' + key, 'the fields of a %s group are not visited' % rep, where, 'groups visit their fields')
        fs = vfield(E, st0, *node, 'fields')
        seen = False
        for e in ev:
            if e.kind == 'elem' and E.content(e.st, e.data[0]) is fs:
                seen = True
                c.ob(not e.data[2], 'order ' + key, 'the fields of a group are visited in reverse', e.where(), 'fields in order')
        for e in recs:
            args, d = e.data
            for what, add in (('max_rep_level', dr), ('max_def_level', dd)):
                k = roles.get(what)
                if k is not None:
                    c.ob(eq(E, e.st, args[k], E.arith('add', A[k], num(add), 'i16')), '%s below %s' % (what, key),
                         'the fields of a %s group get %s %s, it should be the group\'s own' % (rep, what, str(args[k])[:80]), e.where(), '%s below a %s group: parent + %d' % (what, rep, add))
            k = roles.get('base_type')
            if k is not None:
                c.ob(E.content(e.st, args[k]) is E.content(st0, A[k]), 'base below ' + key, 'the fields of a group are given another base type', e.where(), 'the base type is handed down')
            t = E.content(e.st, args[roles['tp']])
            c.ob(mentions(t, lambda n: n is fs), 'field of ' + key, 'what is visited is not a field of the group', e.where(), 'every field of the group')
            for k in ('leaves', 'path'):
                c.ob(E.target(args[pos[k]]) == E.target(A[pos[k]]), k + ' of ' + key, 'the fields of a group do not share the list of %s' % k, e.where())
            c.ob(d == 1, 'path below ' + key, 'the path at a field of a group is not the group\'s path', e.where(), 'the path is restored between fields')
        skips(c, ev, ex, key, where)

    # which argument is the node: the one whose variant is matched
    roles['tp'] = node_arg(P, i, pos, names, tp)
    all_ = []
    runs(P, i, pos, names, net, lambda *a: all_.append(a), roles['tp'])
    for a in sorted(all_, key=lambda a: a[0] != 'PrimitiveType'):
        one(*a)
    c.floor('cases', len(all_), 6)
    root(c, P, i, g, roles, pos, sig)


def node_arg(P, i, pos, names, tp):
    for k in tp:
        cl = Client(P, i)
        E = Engine(P, cl, budget=200000)
        st = State()
        args = arguments(E, i, names, cl)
        v = E.content(st, args[k])
        E.assume_var(st, v, local(P, 'ParquetType'), variants(P, local(P, 'ParquetType')).index('PrimitiveType'), True)
        ex, ev, fr = E.run(i, args, st)
        if not any(e.kind == 'rec' for e in ev):
            return k
    return tp[0]


def arguments(E, i, names, cl):
    args = []
    for k, n in enumerate(names):
        a = mk('sym', n, ty=E.scalar(i['tys'][k + 1]))
        args.append(a)
        cl.args[k] = a
    return args


def runs(P, i, pos, names, net, f, tpk=None):
    pt = local(P, 'ParquetType')
    sig = [norm(x) for x in tysig(P, i)][1:]
    tpk = tpk if tpk is not None else sig.index('&ParquetType')
    rp = local(P, 'Repetition')
    for pk in ('PrimitiveType', 'GroupType'):
        for rep in variants(P, rp):
            cl = Client(P, i, pos, net)
            E = Engine(P, cl, budget=200000)
            st = State()
            args = arguments(E, i, names, cl)
            v = E.content(st, args[tpk])
            vi = variants(P, pt).index(pk)
            E.assume_var(st, v, pt, vi, True)
            info = field(E, st, vfield(E, st, v, pt, vi, 0), 'field_info') if pk == 'PrimitiveType' else vfield(E, st, v, pt, vi, 'field_info')
            E.assume_var(st, field(E, st, info, 'repetition'), rp, variants(P, rp).index(rep), True)
            st0 = st.copy()
            ex, ev, fr = E.run(i, args, st)
            f(pk, rep, E, cl, st0, ex, ev, (v, pt, vi))


def vfield(E, st, v, adt, vi, name):
    """the field (by name or position) of the payload of a variant"""
    a = E.P.adts[adt]['variants'][vi]
    k = a['f'].index(name) if not isinstance(name, int) else name
    t = E.P.tybystr.get(a['t'][k])
    return E.getk(v, ('f', vi, k, E.scalar(t) if t is not None else None), st)


def skips(c, ev, ex, key, where):
    bad = [e for e in ev if e.kind == 'skip']
    c.ob(not bad and not any('pending' in s.mon for s, r in ex), 'every field ' + key, 'a field is passed over without its leaves being listed', bad[0].where() if bad else where, 'no field is passed over')


class Root:
    on_elem = Client.on_elem

    def __init__(self, P, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is not None and E.P.I[i]['p'] == self.inst['p']:
            c.ev.append(Event('rec', list(c.args), st.copy(), c.fr, c.line))
            st.mon = tuple(m for m in st.mon if m != 'pending')
            return [(st, UNIT)]
        return None


def root(c, P, i, g, roles, pos, sig):
    n = 0
    for j in P.I:
        if 'err' in j or not j.get('local') or not j.get('identity') or j['p'] == i['p'] or '{closure' in j['p']:
            continue
        if not (i['id'] in g[j['id']][0] or any(i['id'] in g.get(k, ((), ()))[0] and '{closure' in P.I[k]['p'] and P.I[k]['p'].startswith(j['p']) for k in g[j['id']][0])):
            continue
        s = [norm(x) for x in tysig(P, j)]
        if 'Vec<ParquetType>' not in s and '&[ParquetType]' not in s:
            continue
        k = s.index('Vec<ParquetType>') if 'Vec<ParquetType>' in s else s.index('&[ParquetType]')
        E = Engine(P, Root(P, i), budget=200000)
        args = [mk('sym', 'r%d' % m, ty=E.scalar(j['tys'][m + 1])) for m in range(j['argc'])]
        ex, ev, fr = E.run(j, args)
        c.analysed[j['p']] = 1
        where = '%s:%s' % (j['file'], j['line'])
        fs = args[k - 1] if not s[k].startswith('&') else None
        skips(c, ev, ex, 'root', where)
        recs = [e for e in ev if e.kind == 'rec']
        for e in recs:
            n += 1
            a = e.data
            for what in ('max_rep_level', 'max_def_level'):
                m = roles.get(what)
                if m is not None:
                    c.ob(a[m].op == 'int' and a[m].a[0] == 0, 'root %s' % what, 'the fields below the root start with %s %s' % (what, str(a[m])[:60]), e.where(), '%s starts at 0' % what)
            t, b = (E.content(e.st, a[roles[x]]) for x in ('tp', 'base_type')) if 'base_type' in roles else (None, None)
            if t is not None:
                c.ob(t is b, 'root base', 'the base type of a field below the root is another field', e.where(), 'the base type of a field below the root is itself')
                if fs is not None:
                    c.ob(mentions(t, lambda x: x is fs), 'root field', 'what is visited is not a field of the root', e.where(), 'the fields of the root')
            pv = E.content(e.st, a[pos['path']])
            c.ob(eq(E, e.st, E.length(pv, e.st), num(0, 'usize')), 'root path', 'the path of a field below the root does not start empty', e.where(), 'the path starts empty')
        if fs is not None:
            for e in ev:
                if e.kind == 'elem' and E.content(e.st, e.data[0]) is fs:
                    c.ob(not e.data[2], 'root order', 'the fields of the root are visited in reverse', e.where(), 'fields in order')
            for st, r in ex:
                if r.op == 'agg' and P.adts.get(r.a[0], {}).get('variants', [{}])[0].get('f') and 'fields' in P.adts[r.a[0]]['variants'][0]['f']:
                    c.ob(field(E, st, r, 'fields') is fs, 'root fields', 'the schema does not keep the fields its leaves were made from', where, 'the fields are kept')
    c.floor('starts of the recursion', n, 1)
