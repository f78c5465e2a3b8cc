"""C32: which annotations a primitive type may carry."""
from ..core import State, Engine, Event, mk, some, NONE, num, node, Node, agg
from .tab import local, variants, var, run, term, fn_sig, short
from .common import carries
import math, struct

B, I32, I64, I96, F, D, BA, FL = 'Boolean', 'Int32', 'Int64', 'Int96', 'Float', 'Double', 'ByteArray', 'FixedLenByteArray'
# apache/parquet-format LogicalTypes.md
CONVERTED = {'Utf8': [BA], 'Enum': [BA], 'Json': [BA], 'Bson': [BA], 'Date': [I32], 'TimeMillis': [I32], 'TimeMicros': [I64], 'TimestampMillis': [I64], 'TimestampMicros': [I64],
             'Uint8': [I32], 'Uint16': [I32], 'Uint32': [I32], 'Uint64': [I64], 'Int8': [I32], 'Int16': [I32], 'Int32': [I32], 'Int64': [I64], 'Interval': [(FL, 12)]}
INTS = {'Int8': I32, 'Int16': I32, 'Int32': I32, 'Int64': I64, 'UInt8': I32, 'UInt16': I32, 'UInt32': I32, 'UInt64': I64}
LOGICAL = {'String': [BA], 'Enum': [BA], 'Json': [BA], 'Bson': [BA], 'Uuid': [(FL, 16)], 'Date': [I32], 'Unknown': None}
TIME = {'Milliseconds': [I32], 'Microseconds': [I64], 'Nanoseconds': [I64]}
DECIMAL_MAX = {I32: 9, I64: 18, BA: None}


def check(c):
    P = c.P
    c.rule('The constructor of annotated primitive types is evaluated for every physical type with every converted and every logical annotation: it succeeds exactly where the specification allows the annotation. '
           'Decimal precision and scale stay symbolic; the paths that succeed must entail the limits of the specification and the paths that fail must contradict them. '
           'The limit for fixed-length decimals is extracted as an arithmetic expression of the length and compared with the exact one for the lengths 1 to 5, 8, 11 to 13, 15 to 17, 20 and 32.')
    n = 0
    i = fn_sig(c, 'try_from_primitive', ['String', 'PhysicalType', 'Repetition', 'Option<PrimitiveConvertedType>', 'Option<PrimitiveLogicalType>', r'Option<i32>'], r'Result<ParquetType, .*>')
    if i is None:
        return
    where = '%s:%s' % (i['file'], i['line'])
    pp, cp, lp, tp, ip = (local(P, x) for x in ('PhysicalType', 'PrimitiveConvertedType', 'PrimitiveLogicalType', 'TimeUnit', 'IntegerType'))
    L = mk('sym', 'length', ty='usize')

    def build(phys, conv, logi, st=None):
        E = Engine(P, None, budget=60000)
        if st is not None:
            st0 = State()
            for a, b in st:
                E.assume(st0, E.cmp('le', a, b), True)
            st = st0
        args = [mk('sym', 'name'), phys, mk('sym', 'repetition'), conv, logi, mk('sym', 'id')]
        ex, ev, fr = E.run(i, args, st)
        return E, [(s, r) for s, r in ex if not carries(E, s, r)], [(s, r) for s, r in ex if carries(E, s, r)]

    def expect(key, phys, conv, logi, good):
        nonlocal n
        n += 1
        E, oks, errs = build(phys, conv, logi)
        got = 'accepted' if oks and not errs else 'rejected' if errs and not oks else 'accepted or rejected' if oks else 'neither'
        c.ob(got == ('accepted' if good else 'rejected'), key, '%s is %s, the specification %s it' % (key, got, 'allows' if good else 'forbids'), where, '%s: %s' % (key, got))

    def phys():
        for v in variants(P, pp):
            if v == FL:
                for k in (1, 2, 3, 4, 5, 8, 11, 12, 13, 15, 16, 17, 20, 32):
                    yield v, k, var(P, pp, v, num(k, 'usize'))
            else:
                yield v, None, var(P, pp, v)

    def allowed(table, v, k):
        return any(x == v or x == (v, k) for x in table)

    for v, k, pn in phys():
        label = v + ('(%s)' % k if k else '')
        expect('plain %s' % label, pn, NONE, NONE, True)
        for cv in variants(P, cp):
            if cv == 'Decimal':
                decimal(c, P, v, k, lambda p, s: (some(var(P, cp, cv, p, s)), NONE), pn, build, 'converted', where)
                n += 1
            elif cv in CONVERTED:
                expect('converted %s on %s' % (cv, label), pn, some(var(P, cp, cv)), NONE, allowed(CONVERTED[cv], v, k))
            else:
                c.violation('unknown ' + cv, 'the rule has no entry for converted type ' + cv)
        for lv in variants(P, lp):
            fs = P.adts[lp]['variants'][variants(P, lp).index(lv)]['f']
            if lv == 'Decimal':
                decimal(c, P, v, k, lambda p, s: (NONE, some(var(P, lp, lv, p, s))), pn, build, 'logical', where)
                n += 1
            elif lv in ('Time', 'Timestamp'):
                for u in variants(P, tp):
                    d = {'unit': var(P, tp, u), 'is_adjusted_to_utc': mk('sym', 'utc')}
                    want = [I64] if lv == 'Timestamp' else TIME[u]
                    expect('logical %s %s on %s' % (lv, u, label), pn, NONE, some(var(P, lp, lv, *[d[f] for f in fs])), allowed(want, v, k))
            elif lv == 'Integer':
                for x in variants(P, ip):
                    expect('logical %s on %s' % (x, label), pn, NONE, some(var(P, lp, lv, var(P, ip, x))), INTS[x] == v)
            elif lv == 'Unknown':
                if v == I32:
                    expect('logical Unknown on %s' % label, pn, NONE, some(var(P, lp, lv)), True)
            elif lv in LOGICAL:
                expect('logical %s on %s' % (lv, label), pn, NONE, some(var(P, lp, lv)), allowed(LOGICAL[lv], v, k))
            else:
                c.violation('unknown ' + lv, 'the rule has no entry for logical type ' + lv)
    c.floor('table entries', n, 500)


def decimal(c, P, v, k, ann, pn, build, kind, where):
    p, s = mk('sym', 'precision', ty='usize'), mk('sym', 'scale', ty='usize')
    key = '%s Decimal on %s%s' % (kind, v, '(%s)' % k if k else '')
    if v not in DECIMAL_MAX and v != FL:
        E, oks, errs = build(pn, *ann(p, s))
        c.ob(not oks and errs, key, '%s has to be rejected' % key, where, key + ': rejected')
        return
    limit = DECIMAL_MAX.get(v)
    if v == FL:
        limit = len(str(2 ** (8 * k - 1) - 1)) - 1
        if 10 ** (limit + 1) == 2 ** (8 * k - 1):
            limit += 1
    one = num(1, 'usize')
    E, oks, errs = build(pn, *ann(p, s))
    c.ob(bool(oks), key + ' accepted', '%s is never accepted' % key, where)
    for st, r in oks:
        st = floats(E, st)
        good = E.entails_le(st, one, p) and E.entails_le(st, s, p)
        c.ob(good, key + ' lower', '%s is accepted with a precision below 1 or a scale above the precision' % key, where, key + ': 1 <= precision, scale <= precision')
        if limit is not None:
            c.ob(E.entails_le(st, p, num(limit, 'usize')), key + ' upper', '%s is accepted with a precision above %d' % (key, limit), where, '%s: precision <= %d' % (key, limit))
    # nothing in range is rejected
    E, oks, errs = build(pn, *ann(p, s), [(one, p), (s, p)] + ([(p, num(limit, 'usize'))] if limit is not None else []))
    for st, r in errs:
        st = floats(E, st)
        c.ob(st is None, key + ' complete', '%s is rejected for some precision from 1 to %s and scale up to it' % (key, limit), where)


def floats(E, st):
    """the state with its constant floating point expressions evaluated; None if that contradicts it"""
    st = st.copy()
    for e in list(st.lin):
        for i, k in e[1]:
            n = node(i)
            if n.op == 'cast':
                x = fvalue(n.a[0])
                if x is not None:
                    x = 0 if x != x else int(max(0, min(x, 2 ** 64 - 1)))
                    if not E.assume(st, E.cmp('eq', n, num(x, 'usize')), True):
                        return None
    return st


def fvalue(n):
    """value of a constant floating point expression"""
    if n.op == 'int':
        return float(n.a[0])
    if n.op == 'float':
        h = n.a[0].split('0x')[-1].rstrip(')')
        return struct.unpack('>d' if len(h) > 8 else '>f', bytes.fromhex(h.zfill(16 if len(h) > 8 else 8)))[0]
    if n.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = fvalue(n.a[0]), fvalue(n.a[1])
        if a is None or b is None:
            return None
        return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b if b else math.nan}[n.op]()
    if n.op == 'cast':
        return fvalue(n.a[0])
    if n.op == 'call':
        f = str(n.a[0]).split('::')[-1]
        a = [fvalue(x) for x in n.a[1:] if isinstance(x, Node)]
        if None in a:
            return None
        try:
            if f in ('powi', 'powf'):
                return a[0] ** a[1]
            if f == 'log10':
                return math.log10(a[0]) if a[0] > 0 else math.nan
            if f == 'log2':
                return math.log2(a[0]) if a[0] > 0 else math.nan
            if f == 'ln':
                return math.log(a[0]) if a[0] > 0 else math.nan
            if f == 'log' and len(a) == 2:
                return math.log(a[0], a[1]) if a[0] > 0 else math.nan
            if f in ('floor', 'ceil', 'trunc', 'round', 'abs'):
                return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round, 'abs': abs}[f](a[0])) if math.isfinite(a[0]) else a[0]
        except OverflowError:
            return math.inf
    return None
