"""C30: the names of the textual schema."""
import re
from ..core import Engine, TooBig, Node, mk, some, RES, OPT
from .tab import local, thrift, variants, tysig, norm, fn_sig, short, PF
from .common import callgraph, carries

CONVERTED = {'UTF8': 'Utf8', 'ENUM': 'Enum', 'DECIMAL': 'Decimal', 'DATE': 'Date', 'TIME_MILLIS': 'TimeMillis', 'TIME_MICROS': 'TimeMicros', 'TIMESTAMP_MILLIS': 'TimestampMillis',
             'TIMESTAMP_MICROS': 'TimestampMicros', 'UINT_8': 'Uint8', 'UINT_16': 'Uint16', 'UINT_32': 'Uint32', 'UINT_64': 'Uint64', 'INT_8': 'Int8', 'INT_16': 'Int16', 'INT_32': 'Int32',
             'INT_64': 'Int64', 'JSON': 'Json', 'BSON': 'Bson', 'INTERVAL': 'Interval'}
LOGICAL = {'STRING': 'String', 'ENUM': 'Enum', 'DECIMAL': 'Decimal', 'DATE': 'Date', 'TIME': 'Time', 'TIMESTAMP': 'Timestamp', 'INTEGER': 'Integer', 'UNKNOWN': 'Unknown', 'JSON': 'Json',
           'BSON': 'Bson', 'UUID': 'Uuid'}
TABLES = {
    'Repetition': {'REQUIRED': 'Required', 'OPTIONAL': 'Optional', 'REPEATED': 'Repeated'},
    'Type': {'BOOLEAN': 0, 'INT32': 1, 'INT64': 2, 'INT96': 3, 'FLOAT': 4, 'DOUBLE': 5, 'BYTE_ARRAY': 6, 'BINARY': 6, 'FIXED_LEN_BYTE_ARRAY': 7},
    'PrimitiveConvertedType': CONVERTED,
    'GroupConvertedType': {'MAP': 'Map', 'MAP_KEY_VALUE': 'MapKeyValue', 'LIST': 'List'},
    'PrimitiveLogicalType': LOGICAL,
    'TimeUnit': {'MILLIS': 'Milliseconds', 'MICROS': 'Microseconds', 'NANOS': 'Nanoseconds'},
}
# names of the group annotations; whether a primitive annotation with them is told apart early or late is free
EITHER = {'MAP', 'LIST', 'MAP_KEY_VALUE', 'INTERVAL'}
STR = r"(&)?(Option<)?(&)?(str|String)>?"


def check(c):
    P = c.P
    c.rule('Every function below the schema parser that turns a name into a repetition, physical type, converted type, logical type or time unit is evaluated for every name of the specification '
           'and for every other string constant of the parser: known names give exactly their value, other names give an error. Precision comes from an earlier token than scale.')
    g = callgraph(P)
    root = fn_sig(c, 'from_message', [r'&str'], r'Result<ParquetType, .*>')
    if root is None:
        return
    seen, work = {root['id']}, [root['id']]
    while work:
        for j in g.get(work.pop(), ((), ()))[0]:
            if j not in seen and j in g:
                seen.add(j)
                work.append(j)
    fs = {}
    names = {'', 'BOGUS', 'BOGUS_8'}
    for t in TABLES.values():
        names |= set(t)
    for x in sorted(seen):
        i = P.I[x]
        if not i.get('local'):
            continue
        fs[i['p']] = i
        strings(i['b'], names)
    n = 0
    acc = {k: {} for k in TABLES}
    users = {k: [] for k in TABLES}
    for p, i in sorted(fs.items()):
        sig = [norm(x) for x in tysig(P, i)]
        at = [k for k, s in enumerate(sig[1:]) if re.fullmatch(STR, s.replace("'_ ", '').replace("'static ", ''))]
        xs = [x for x in TABLES if re.search(r'\b%s\b' % x, sig[0])]
        if not at or len(xs) != 1:
            continue
        X, k = xs[0], at[0]
        users[X].append(p)
        c.analysed[p] = 1
        where = '%s:%s' % (i['file'], i['line'])
        for nm in sorted(names):
            got, passed = evaluate(P, i, k, sig[k + 1], nm, X)
            n += 1
            if got is None:
                c.violation('too-big ' + p, 'function too large to analyse: ' + p)
                break
            want = TABLES[X].get(nm)
            for g1 in got:
                acc[X].setdefault(nm, set()).add(g1)
            c.ob(not got or want is not None and got == {want}, '%s %s' % (X, nm), 'the name "%s" gives %s as a %s, the specification says %s' % (nm, sorted(map(str, got)), X, want), where, '%s "%s": %s' % (X, nm, sorted(map(str, got))))
            # a name that is none of its kind is not passed over silently
            known = nm in TABLES[X] or (X in ('PrimitiveConvertedType', 'PrimitiveLogicalType') and (nm in CONVERTED or nm in LOGICAL)) or nm in EITHER
            if not known:
                c.ob(not passed, '%s unknown %s' % (X, nm), 'the unknown name "%s" is accepted by %s' % (nm, p), where)
            elif want is not None and nm not in EITHER and not (X == 'PrimitiveConvertedType' and nm in LOGICAL):
                c.ob(bool(got), '%s known %s' % (X, nm), 'the name "%s" is %s by %s but gives no %s' % (nm, 'accepted' if passed else 'rejected', p, X), where)
    for X, t in TABLES.items():
        c.ob(bool(users[X]), 'table ' + X, 'no function of the parser gives a %s for a name' % X, '%s:%s' % (root['file'], root['line']))
        for nm, want in t.items():
            if users[X] and not (X == 'PrimitiveLogicalType' and nm == 'INTERVAL'):
                c.ob(want in acc[X].get(nm, ()), '%s missing %s' % (X, nm), 'the name "%s" never gives %s' % (nm, want), '%s:%s' % (root['file'], root['line']))
    # order of precision and scale
    k = 0
    for p, i in sorted(fs.items()):
        sig = [norm(x) for x in tysig(P, i)]
        if not re.search(r'Primitive(Converted|Logical)Type\b', sig[0]) or not any('&mut' in s for s in sig[1:]):
            continue
        at = [j for j, s in enumerate(sig[1:]) if re.fullmatch(STR, s)]
        args = [mk('sym', 'p%d' % j) for j in range(i['argc'])]
        E = Engine(P, None, budget=200000)
        if at:
            args[at[0]] = text(E, sig[at[0] + 1], 'DECIMAL')
        try:
            ex, ev, fr = E.run(i, args)
        except TooBig:
            continue
        for s, r in ex:
            for d in find(E, r, ('PrimitiveConvertedType', 'PrimitiveLogicalType')):
                nm = P.adts[d.a[0]]['variants'][d.a[1]]['n']
                if nm != 'Decimal' or len(d.a) < 4:
                    continue
                a, b = tokens(E, d.a[2]), tokens(E, d.a[3])
                k += 1
                c.ob(a and b and max(a) < min(b), 'decimal order ' + p, 'the precision of a decimal comes from token %s, its scale from token %s' % (sorted(a), sorted(b)), '%s:%s' % (i['file'], i['line']),
                     'precision from token %s, scale from token %s' % (sorted(a), sorted(b)))
    c.floor('names evaluated', n, 300)
    c.floor('decimal payloads', k, 2)


def strings(o, out):
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'str' and isinstance(o[1], str) and re.fullmatch(r'[A-Z][A-Z0-9_]*', o[1]):
            out.add(o[1])
        for x in o:
            strings(x, out)
    elif isinstance(o, dict):
        for x in o.values():
            strings(x, out)


def text(E, ty, nm):
    s = mk('str', nm)
    if ty == 'String':
        return s
    r = E.ref(('k', s), ())
    return some(r) if ty.startswith('Option<') else r


def evaluate(P, i, k, ty, nm, X):
    """(values of the enum the name can give, whether a path may succeed)"""
    E = Engine(P, None, budget=200000)
    args = [mk('sym', 'p%d' % j) for j in range(i['argc'])]
    args[k] = text(E, ty, nm)
    try:
        ex, ev, fr = E.run(i, args)
    except TooBig:
        return None, None
    got, passed = set(), False
    for s, r in ex:
        if carries(E, s, r) or (r.op == 'agg' and r.a[0] == OPT and r.a[1] == 0):
            continue
        passed = True
        for d in find(E, r, (X,)):
            a = P.adts[d.a[0]]
            if a['enum']:
                got.add(a['variants'][d.a[1]]['n'])
            elif d.a[2].op == 'int':
                got.add(d.a[2].a[0])
            else:
                got.add('unknown')
        if not any(True for _ in find(E, r, (X,))) and not definite(r):
            got.add('unknown')
    return got, passed


def definite(r, d=0):
    """no part of the result is left open"""
    if r.op == 'phi':
        return False
    return d > 5 or r.op != 'agg' or all(definite(x, d + 1) for x in r.a[2:] if isinstance(x, Node) and x.op in ('agg', 'phi') and x.ty != 'bool')


def find(E, v, kinds, d=0, seen=None):
    seen = set() if seen is None else seen
    if d > 14 or id(v) in seen:
        return
    seen.add(id(v))
    if v.op == 'agg' and isinstance(v.a[0], str) and short(v.a[0]) in kinds:
        yield v
        return
    xs = E.alts.get(v) or () if v.op == 'phi' else [x for x in v.a if isinstance(x, Node)]
    for x in xs:
        for y in find(E, x, kinds, d + 1, seen):
            yield y


def tokens(E, v, d=0, seen=None):
    """offsets of the tokens this value comes from"""
    seen = set() if seen is None else seen
    out = set()
    if d > 20 or id(v) in seen:
        return out
    seen.add(id(v))
    if v.op == 'elem' and len(v.a) > 1 and isinstance(v.a[1], Node):
        out.add(E.lin(v.a[1])[0])
        return out
    for x in (E.alts.get(v) or () if v.op == 'phi' else [x for x in v.a if isinstance(x, Node)]):
        out |= tokens(E, x, d + 1, seen)
    return out
