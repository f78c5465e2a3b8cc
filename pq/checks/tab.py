"""evaluating small total functions abstractly, variant by variant"""
import re
from ..core import Engine, Node, RES, OPT, agg, num, mk, some, NONE, FALSE, TRUE

PF = 'parquet_format_safe::parquet_format::'


def short(p):
    return p.split('::')[-1]


def adt_path(P, name, prefer=None):
    """full path of the ADT with this last path segment (of the crate unless prefer says otherwise)"""
    c = [p for p in P.adts if short(p) == name and (p.startswith(prefer) if prefer else p.startswith(P.crate + '::'))]
    return c[0] if len(c) == 1 else (min(c, key=len) if c else None)


def local(P, name):
    return adt_path(P, name)


def thrift(P, name):
    p = PF + name
    return p if p in P.adts else adt_path(P, name, 'parquet_format_safe')


def variants(P, path):
    return [v['n'] for v in P.adts[path]['variants']]


def var(P, path, name, *fields):
    vs = variants(P, path)
    return agg(path, vs.index(name), *fields)


def newtype(path, code):
    return agg(path, 0, num(code, 'i32'))


def strip(v):
    while isinstance(v, Node) and v.op == 'cast':
        v = v.a[0]
    return v


def term(E, st, v, d=0):
    """nested tuples with names instead of indices; symbolic leaves stay nodes"""
    P = E.P
    if d > 12:
        return v
    if v.op == 'int':
        return v.a[0]
    if v.op == 'str':
        return v.a[0]
    if v.op == 'agg':
        k = v.a[0]
        if not isinstance(k, str):
            return v
        fs = [term(E, st, x, d + 1) if isinstance(x, Node) else x for x in v.a[2:]]
        if k == 'tuple':
            return tuple(['()'] + fs)
        a = P.adts.get(k)
        if a is None:
            return tuple([k] + fs)
        vr = a['variants'][v.a[1]] if isinstance(v.a[1], int) and v.a[1] < len(a['variants']) else None
        if a['enum']:
            return tuple([short(k) + '::' + vr['n']] + fs)
        if vr and vr['f'] and not vr['f'][0].isdigit():
            return tuple([short(k)] + sorted(zip(vr['f'], fs)))
        return tuple([short(k)] + fs)
    if v.op == 'phi':
        alts = E.alts.get(v)
        vs = st.var.get(v)
        if isinstance(v.ty, int):
            ad = E.adt_of(v.ty)
            if ad and vs is not None and len(vs) == 1:
                x = next(iter(vs))
                if not P.adts[ad]['variants'][x]['f']:
                    return (short(ad) + '::' + P.adts[ad]['variants'][x]['n'],)
        return v
    if v.op == 'cast':
        return term(E, st, v.a[0], d + 1)
    if isinstance(v.ty, int):
        ad = E.adt_of(v.ty)
        vs = st.var.get(v)
        if ad and P.is_enum(ad) and vs is not None and len(vs) == 1:
            x = next(iter(vs))
            if not P.adts[ad]['variants'][x]['f']:
                return (short(ad) + '::' + P.adts[ad]['variants'][x]['n'],)
    return v


def tysig(P, i):
    return [P.tys(t) for t in i['tys'][:i['argc'] + 1]]


def norm(s):
    """type string with module paths removed"""
    return re.sub(r'[A-Za-z_0-9]+::', '', s)


def conv(c, src, dst, cfg='full'):
    """the crate's From/TryFrom implementation between two types, found by its signature"""
    P = c.P
    out = []
    for f in P.fns:
        if f.get('impl_trait_p') in ('core::convert::From', 'core::convert::TryFrom', 'core::convert::Into', 'core::convert::TryInto'):
            i = P.inst(f['p'])
            if i is None or 'err' in i:
                continue
            s = tysig(P, i)
            d = s[0]
            m = re.match(r'core::result::Result<(.*), [^,]*>$', d)
            if m:
                d = m.group(1)
            if match(P, s[1], src) and match(P, d, dst):
                out.append(i)
    if len(out) != 1:
        c.violation('missing-anchor %s -> %s' % (src, dst), 'the conversion from %s to %s was not found' % (src, dst))
        return None
    c.analysed[out[0]['p']] = 1
    return out[0]


def match(P, s, want):
    """want: 'local:Name', 'thrift:Name' or a normalised type string containing them"""
    w = want
    for m in re.findall(r'(local|thrift):([A-Za-z0-9]+)', want):
        p = local(P, m[1]) if m[0] == 'local' else thrift(P, m[1])
        if p is None:
            return False
        w = w.replace(m[0] + ':' + m[1], p)
    return s.replace('core::option::', '') == w


def run(P, inst, args=None, client=None, st=None, budget=120000):
    E = Engine(P, client, budget=budget)
    ex, ev, fr = E.run(inst, args, st)
    return E, ex


def one(P, inst, args, client=None):
    """set of the terms the function can return"""
    E, ex = run(P, inst, args, client)
    return {term(E, s, r) for s, r in ex}


def struct(P, path, _pre='', **fields):
    """a struct with the given fields; the others symbolic"""
    fs = P.adts[path]['variants'][0]['f']
    return agg(path, 0, *[fields.get(f, None) or mk('sym', _pre + short(path) + '.' + f) for f in fs])


def field(E, st, v, name):
    """the field of this name, of a struct value or a reference to one"""
    P = E.P
    for _ in range(4):
        if v.op == 'ref' or (v.op == 'call' and v.a[0] == '&'):
            v = E.content(st, v)
        else:
            break
    k = v.a[0] if v.op == 'agg' else (E.adt_of(v.ty) if isinstance(v.ty, int) else None)
    return E.getk(v, ('f', 0) + fidx(E, k, 0, name), st)


def fidx(E, adt, variant, name):
    """(position, type annotation) of a field"""
    a = E.P.adts[adt]['variants'][variant]
    n = a['f'].index(name)
    s = (a.get('t') or [None] * (n + 1))[n]
    t = E.P.tybystr.get(s) if s is not None and not re.search(r'\b[A-Z]\b', s) else None
    return n, (E.scalar(t) if t is not None else None)


def fn_sig(c, name, args, ret=None, cfg='full', need=True):
    """the local function with this name whose parameter types (module paths removed) match the
    given regular expressions"""
    from ..frame import prog
    P = prog(cfg)
    out = []
    for strict in (True, False):
        if out:
            break
        # a renamed function is still found when its signature is unique
        for f in P.fns:
            if strict and short(f['p']) != name and not f['p'].endswith('::' + name):
                continue
            i = P.inst(f['p'])
            if i is None or 'err' in i or not i.get('local') or i['argc'] != len(args):
                continue
            s = [norm(x) for x in tysig(P, i)]
            if all(re.fullmatch(a, x) for a, x in zip(args, s[1:])) and (ret is None or re.fullmatch(ret, s[0])):
                out.append(i)
    if len(out) != 1:
        if need:
            c.violation('missing-anchor %s(%s)' % (name, ', '.join(args)), 'the function %s(%s) was not found' % (name, ', '.join(args)))
        return None
    c.analysed[out[0]['p']] = 1
    return out[0]
