"""C02: recursion.  Strongly connected components of the resolved call graph."""


from ..core import Engine, TooBig

DERIVED = ('core::cmp::PartialEq', 'core::clone::Clone', 'core::fmt::Debug', 'core::hash::Hash', 'core::cmp::PartialOrd', 'core::cmp::Ord', 'core::cmp::Eq')
# functions over the schema tree; their depth is the nesting depth of the schema
TREE_TYPES = ('ParquetType', 'SchemaElement', 'Parser')


def refs(P, o):
    if o[0] == 'k' and o[2][0] == 'fn':
        yield o[2][1]


def graph(P):
    """call graph over analysed instances"""
    G = {}
    byimpl = {}
    for i in P.I:
        if 'err' in i:
            continue
        if i.get('impl_trait_p'):
            pass
    for f in P.fns:
        if f.get('impl_trait_p') and f.get('i') is not None:
            byimpl.setdefault((f['impl_trait_p'], f['name']), set()).add(f['i'])
    local_traits = {k[0] for k in byimpl if k[0].startswith(P.crate + '::')}
    for i in P.I:
        if 'err' in i:
            continue
        s = G.setdefault(i['id'], set())
        for b in i['b']:
            if b[3]:
                continue
            for st in b[0]:
                if st[0] == '=':
                    rv = st[2]
                    if rv[0] == 'agg' and rv[1][0] in ('closure', 'coroutine'):
                        e = P.closures.get(rv[1][-1]) if isinstance(rv[1][-1], int) else None
                        if e:
                            s.add(e[0]['id'])
                    if rv[0] in ('use', 'cast'):
                        for f in refs(P, rv[-1] if rv[0] == 'use' else rv[2]):
                            if f.get('i') is not None:
                                s.add(f['i'])
            t = b[1]
            if t[0] in ('call', 'tailcall'):
                for o in [t[1]] + list(t[2]):
                    for f in refs(P, o):
                        if f.get('i') is not None:
                            s.add(f['i'])
                        n = f.get('next')
                        if n is not None and n.get('i') is not None:
                            s.add(n['i'])
                        if f.get('i') is None and f.get('trait') in local_traits:
                            for j in byimpl.get((f['trait'], f['m']), ()):
                                s.add(j)
    return G


def sccs(G):
    idx = {}
    low = {}
    on = set()
    st = []
    out = []
    cnt = [0]

    def visit(v):
        work = [(v, iter(sorted(G.get(v, ()))))]
        idx[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in G:
                    continue
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G.get(w, ())))))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    out.append(c)
    for v in sorted(G):
        if v not in idx:
            visit(v)
    return out


def schema_tree(P, i):
    """does this function take (a reference to / slice of) a node of the schema tree"""
    for t in i['tys'][1:i['argc'] + 1]:
        if any(x in P.tys(t) for x in TREE_TYPES):
            return True
    return False


def check(c):
    P = c.P
    c.rule('No cycle of the resolved call graph (calls, closures, function values, iterator consumers driving a local next) passes through a function of the crate, '
           'unless abstract execution with the recursive calls unrolled shows that the recursion ends after a constant number of frames.')
    G = graph(P)
    local = {i['id'] for i in P.I if 'err' not in i and i.get('local')}
    n = 0
    tree = []
    for comp in sccs(G):
        cyc = len(comp) > 1 or comp[0] in G.get(comp[0], ())
        l = sorted(x for x in comp if x in local)
        for x in l:
            c.analysed[P.I[x]['p']] = 1
            n += 1
            c.counts['obligations'] += 1
            if not cyc:
                c.counts['discharged'] += 1
        if not cyc or not l:
            continue
        names = sorted({P.I[x]['p'] for x in l})
        if all((f := P.fnbypath.get(p)) and f.get('impl_trait_p') in DERIVED for p in names):
            # structural comparison / cloning of values the caller built
            c.counts['discharged'] += len(l)
            continue
        if any(schema_tree(P, P.I[x]) for x in l):
            tree.append(names)
            continue
        if bounded(P, comp, l):
            c.counts['discharged'] += len(l)
            c.cov.setdefault('bounded_cycles', []).append(names)
            continue
        c.violation('recursion ' + ' '.join(names), 'recursive cycle whose depth the rule cannot bound: ' + ' -> '.join(names), '%s:%s' % (P.I[l[0]].get('file'), P.I[l[0]].get('line')))
    for x in tree:
        mod = {'::'.join(q.split('::{')[0].replace('<', '').split('::')[:-1]).split('::Parser')[0].split('::ParquetType')[0] for q in x}
        c.violation('schema-depth ' + ' '.join(sorted(mod)), 'recursion over the schema tree, whose nesting depth comes from the file or the message string: ' + ' '.join(x))
    c.cov['schema_cycles'] = tree
    c.floor('local functions', n, 300)
    c.cov['call_edges'] = sum(len(v) for v in G.values())


def bounded(P, comp, l):
    comp = set(comp)
    for x in l:
        E = Engine(P, budget=60000)
        E.rec_limit = 4
        try:
            E.run(P.I[x])
        except TooBig:
            return False
        if E.rec_hit & comp:
            return False
    return True
