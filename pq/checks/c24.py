"""C24: which decoder a data page gets."""
from ..core import Engine, Event, State, Node, mk, num, agg, some, ok, err, NONE, OPT, RES
from ..frame import pmap, Check, merge
from .c08 import mentions
from .c29 import vfield
from .tab import local, field, fidx, tysig, norm, variants, short

# parquet.thrift, enum Encoding
ENC = {'Plain': 0, 'PlainDictionary': 2, 'Rle': 3, 'BitPacked': 4, 'DeltaBinaryPacked': 5, 'DeltaLengthByteArray': 6, 'DeltaByteArray': 7, 'RleDictionary': 8, 'ByteStreamSplit': 9}
REP = ('Required', 'Optional', 'Repeated')


class Client:
    """split_buffer is the oracle for the three parts of a page"""

    def __init__(self, parts):
        self.parts = parts

    def on_call(self, E, st, c):
        i = c.fn.get('i')
        if i is None:
            return None
        if E.P.I[i]['id'] in self.parts:
            sl = [mk('sym', n, ty=E.scalar(E.P.tybystr['&[u8]']) if '&[u8]' in E.P.tybystr else None) for k, n in enumerate(('levels of repetition', 'levels of definition', 'values of the page'))]
            return [(st.copy(), ok(agg('tuple', 0, *sl))), (st, err(mk('eff', 'split', c.site)))]
        return None


def states(P):
    """(function, takes a dictionary) of the constructors of the page states"""
    out = []
    for f in P.fns:
        i = P.inst(f['p'])
        if i is None or 'err' in i or not i.get('local') or not i.get('identity'):
            continue
        s = [norm(x) for x in tysig(P, i)]
        if len(s) < 2 or s[1] != '&DataPage' or 'Result<' not in s[0] or 'PageState' not in s[0].split('<')[1]:
            continue
        if len(s) == 2 or (len(s) == 3 and s[2].startswith('Option<')):
            out.append((f['p'], len(s) == 3))
    return out


def start(E, i, version, code, rep, size=True):
    P = E.P
    page = mk('sym', 'page', ty=E.scalar(i['tys'][1]))
    st = State()
    v = E.content(st, page)
    h = field(E, st, v, 'header')
    hp = local(P, 'DataPageHeader')
    vi = variants(P, hp).index(version)
    E.assume_var(st, h, hp, vi, True)
    p = vfield(E, st, h, hp, vi, 0)
    e = field(E, st, p, 'encoding')
    E.assume(st, E.cmp('eq', E.getk(e, ('f', 0, 0, 'i32'), st), num(code, 'i32')), True)
    n = field(E, st, p, 'num_values')
    pt = field(E, st, field(E, st, v, 'descriptor'), 'primitive_type')
    rp = local(P, 'Repetition')
    E.assume_var(st, field(E, st, field(E, st, pt, 'field_info'), 'repetition'), rp, variants(P, rp).index(rep), True)
    return page, st, n, field(E, st, field(E, st, v, 'descriptor'), 'max_def_level')


def leaves(E, v, d=0, seen=None):
    """symbols and fields this value is made of, through joins"""
    seen = set() if seen is None else seen
    if d > 20 or v in seen:
        return seen
    seen.add(v)
    for x in v.a:
        if isinstance(x, Node):
            leaves(E, x, d + 1, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Node):
                    leaves(E, y, d + 1, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Node):
                            leaves(E, z, d + 1, seen)
    for x in E.alts.get(v, ()):
        leaves(E, x, d + 1, seen)
    return seen


def has(E, s, v, n, d=0):
    """one of the fields of this value is (on every path) this number"""
    if d > 8:
        return False
    while v.op == 'cast' and isinstance(v.a[0], Node):
        v = v.a[0]
    if v is n:
        return True
    if v.op == 'agg':
        return any(has(E, s, x, n, d + 1) for x in v.a[2:] if isinstance(x, Node))
    if v.op == 'phi':
        l = list(E.alts.get(v, ()))
        return bool(l) and all(has(E, s, x, n, d + 1) for x in l)
    return False


def task(a):
    from .. import frame
    name, dicts, versions, encs = a
    c = Check('C24')
    P = c.P
    i = P.inst(name)
    where = '%s:%s' % (i['file'], i['line'])
    c.analysed[name] = 1
    parts = split(P)
    n = 0
    T = i['tys'][0]
    for version in versions:
        for enc, code in encs:
            for rep in REP:
                for dic in ((True, False) if dicts else (False,)):
                    n += 1
                    cl = Client(parts)
                    E = Engine(P, cl, budget=200000)
                    page, st, count, maxdef = start(E, i, version, code, rep)
                    d = mk('sym', 'dictionary')
                    args = [page] + ([some(d) if dic else NONE] if dicts else [])
                    ex, ev, fr = E.run(i, args, st)
                    opt = rep == 'Optional'
                    want = None
                    if enc == 'Plain':
                        want = 'Optional' if opt else 'Required'
                    elif enc in ('PlainDictionary', 'RleDictionary') and dic:
                        want = 'OptionalDictionary' if opt else 'RequiredDictionary'
                    key = '%s %s %s%s' % (short(name.rsplit('::', 1)[0].split('<')[0]), enc, rep, ' dictionary' if dic else '')
                    got = {}
                    for s, r in ex:
                        for x in results(E, s, r):
                            if x is None:
                                got.setdefault('?', []).append((s, r))
                            elif x.a[1] == 0:
                                y = x.a[2]
                                got.setdefault(P.adts[y.a[0]]['variants'][y.a[1]]['n'] if y.op == 'agg' and y.a[0] in P.adts else '?', []).append((s, y))
                    gk = sorted(got)
                    c.ob(gk == ([want] if want else []), key, 'a %s page encoded %s of a %s column %s gets the state %s, it should be %s'
                         % (version, enc, rep, 'with a dictionary' if dic else 'without a dictionary', gk or 'error', want or 'an error'), where, '%s: %s' % (key, want))
                    if gk != [want]:
                        continue
                    for s, y in got[want]:
                        fs = [leaves(E, x) for x in y.a[2:]]
                        syms = [{x.a[0] for x in f if x.op == 'sym'} for f in fs]
                        allsym = set().union(*syms)
                        c.ob('values of the page' in allsym and 'levels of repetition' not in allsym, 'values ' + key, 'the values are not decoded from the part of the page that holds them', where, 'values from the values part')
                        c.ob(('levels of definition' in allsym) == opt, 'levels ' + key, 'definition levels are %sused' % ('not ' if opt else ''), where)
                        if opt:
                            k = next((k for k, x in enumerate(syms) if 'levels of definition' in x), None)
                            if k is not None:
                                c.ob('values of the page' not in syms[k] or len(fs) == 1, 'levels part ' + key, 'the decoder of definition levels also reads the values', where)
                                c.ob(has(E, s, y.a[2 + k], count), 'level count ' + key, 'the number of definition levels is not the number of values of the page', where, 'as many levels as values')
                        if dic and 'Dictionary' in want:
                            c.ob('dictionary' in allsym, 'dictionary ' + key, 'the dictionary that was supplied is not used', where, 'the dictionary is kept')
                            k = next((k for k, x in enumerate(syms) if 'dictionary' in x), None)
                            c.ob(k is not None and has(E, s, y.a[2 + k], count), 'index count ' + key, 'the number of indices is not the number of values of the page', where, 'as many indices as values')
    return (c.viol, (c.counts, c.samples, c.analysed), n)


def results(E, s, r):
    if r.op == 'agg' and r.a[0] == RES:
        return [r]
    out = []
    from .. import models as M
    for s2, w in M.split_enum(E, s, r, RES):
        out.append(w if w.op == 'agg' else None)
    return out


def split(P):
    out = set()
    for i in P.I:
        if 'err' in i or not i.get('local') or i['argc'] != 1:
            continue
        s = [norm(x) for x in tysig(P, i)]
        if s[1] == '&DataPage' and s[0].startswith('Result<(&[u8], &[u8], &[u8])'):
            out.add(i['id'])
    return out


def check(c):
    P = c.P
    c.rule('The constructor of every page state is evaluated for every page version, encoding, repetition and with and without a dictionary, and the state it can return compared with the table; '
           'the values must come from the values part of the page, the levels from the definition levels, and the numbers of levels and indices from the page\'s value count.')
    fs = states(P)
    n = 0
    for viol, cov, k in pmap(task, [(f, d, (v,), (e,)) for f, d in fs for v in ('V1', 'V2') for e in ENC.items()]):
        merge(c, viol, cov)
        n += k
    c.floor('page states', len(fs), 4)
    c.floor('combinations', n, 300)
    levels(c)


def levels(c):
    """definition levels: bitmaps exactly when one bit is enough"""
    P = c.P
    i = next((i for i in P.I if 'err' not in i and i.get('identity') and i.get('local') and i['argc'] == 1 and '{' not in i['p'] and [norm(x) for x in tysig(P, i)][1] == '&DataPage' and norm(P.tys(i['tys'][0])).startswith('Result<DefLevelsDecoder')), None)
    if i is None:
        return
    c.analysed[i['p']] = 1
    where = '%s:%s' % (i['file'], i['line'])
    E = Engine(P, Client(split(P)), budget=200000)
    page, st, count, maxdef = start(E, i, 'V1', 0, 'Optional')
    ex, ev, fr = E.run(i, [page], st)
    seen = set()
    for s, r in ex:
        for x in results(E, s, r):
            if x is None or x.a[1] != 0 or x.a[2].op != 'agg':
                continue
            y = x.a[2]
            v = P.adts[y.a[0]]['variants'][y.a[1]]['n']
            seen.add(v)
            one = E.entails_le(s, maxdef, num(1, 'i16')) and E.entails_le(s, num(1, 'i16'), maxdef)
            if v == 'Bitmap':
                c.ob(one, 'bitmap levels', 'definition levels are read as bits although they can be larger than one', where, 'bitmaps only for a maximum level of 1')
            elif v == 'Levels':
                fs = leaves(E, y)
                c.ob(maxdef in fs, 'level width', 'the width of the definition levels does not follow from the maximum level', where, 'the width follows from the maximum level')
    c.cov['level decoders'] = sorted(seen)
