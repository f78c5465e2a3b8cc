"""helpers shared by the rules"""
from ..core import RES, OPT, POLL, mk

CFB = 'core::ops::control_flow::ControlFlow'


def carries(E, st, v, d=0):
    """is this value certainly an error (possibly wrapped)"""
    if d > 4:
        return False
    if v.op == 'agg':
        k = v.a[0]
        if k == RES:
            return v.a[1] == 1 or (len(v.a) > 2 and carries(E, st, v.a[2], d + 1))
        if k in (OPT, POLL):
            return any(carries(E, st, x, d + 1) for x in v.a[2:] if hasattr(x, 'op'))
        if k == CFB:
            return v.a[1] == 1 and carries(E, st, v.a[2], d + 1)
        return False
    vs = st.var.get(v)
    if vs is not None and len(vs) == 1:
        t = next(iter(vs))
        ad = E.adt_of(v.ty) if isinstance(v.ty, int) else None
        if ad == RES and t == 1:
            return True
        if ad == OPT and t == 1:
            return carries(E, st, E.getk(v, ('f', 1, 0, E.scalar(E.P.T[v.ty]['a'][0]))), d + 1)
        if ad == POLL and t == 0:
            return carries(E, st, E.getk(v, ('f', 0, 0, E.scalar(E.P.T[v.ty]['a'][0]))), d + 1)
        if ad is None and v.op in ('eff', 'call', 'mut') and t == 1:
            return True
    return False


_cg = {}


def callgraph(P):
    """instance -> (callee instances, callee paths)"""
    g = _cg.get(id(P))
    if g is not None:
        return g
    g = {}
    for i in P.I:
        if 'err' in i:
            continue
        s, names = set(), set()
        for b in i['b']:
            if b[3]:
                continue
            for st in b[0]:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] in ('closure', 'coroutine'):
                    names.add(st[2][1][1])
                    for j in P.bypath.get(st[2][1][1], ()):
                        s.add(j['id'])
            t = b[1]
            if t[0] in ('call', 'tailcall'):
                for o in [t[1]] + list(t[2]):
                    if o[0] == 'k' and o[2][0] == 'fn':
                        f = o[2][1]
                        names.add(f['p'])
                        if f.get('i') is not None:
                            s.add(f['i'])
                        n = f.get('next')
                        if n is not None and n.get('i') is not None:
                            s.add(n['i'])
        g[i['id']] = (s, names)
    _cg[id(P)] = g
    return g


def reaches(P, pred):
    """ids of instances from which a call to a function whose path satisfies pred is reachable (pred
    may also be a set of instances)"""
    g = callgraph(P)
    rev = {}
    work = []
    for i, (s, names) in g.items():
        for j in s:
            rev.setdefault(j, set()).add(i)
        if (i in pred) if isinstance(pred, (set, frozenset)) else any(pred(n) for n in names):
            work.append(i)
    seen = set(work)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def top_functions(P, pred):
    """local functions reaching pred that are public, or that nothing in the crate calls; async
    functions and generators are represented by their bodies"""
    R = reaches(P, pred)
    g = callgraph(P)
    called = set()
    for i, (s, names) in g.items():
        if P.I[i].get('local'):
            for j in s:
                if j != i:
                    called.add(P.I[j]['p'])
    out = []
    for i in P.I:
        if 'err' in i or i['id'] not in R or not i.get('local') or i.get('shim'):
            continue
        if i.get('cor'):
            # body of an async fn: a root unless a private fn that the crate itself awaits
            par = i['p'].rsplit('::{closure', 1)[0]
            f = P.fnbypath.get(par)
            pi = P.inst(par)
            isasync = pi is not None and 'err' not in pi and P.T[pi['tys'][0]]['k'] == 'coroutine'
            if not isasync or f['pub'] or par not in called:
                out.append(i)
            continue
        if not i.get('identity') or '{closure' in i['p']:
            continue
        f = P.fnbypath.get(i['p'])
        if f is None:
            continue
        if f['pub'] or f.get('impl_trait_p') or i['p'] not in called:
            out.append(i)
    return out


def body_of(P, inst):
    """the coroutine body of an async fn, or None"""
    if P.T[inst['tys'][0]]['k'] != 'coroutine':
        return None
    l = [j for j in P.bypath.get(inst['p'] + '::{closure#0}', ()) if j.get('cor')]
    return next((j for j in l if j.get('identity')), l[0] if l else None)


def runfn(E, inst, args, st=None):
    """run a function on these arguments; an async fn is run to completion"""
    b = body_of(E.P, inst)
    if b is None:
        return E.run(inst, args, st)
    cl, E.client = E.client, None
    ex, ev, fr = E.run(inst, args)
    E.client = cl
    fut = ex[0][1]
    return E.run(b, [fut, mk('sym', 'cx')], st)
