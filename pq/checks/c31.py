"""C31: the sort order of a column's statistics."""
from ..core import Engine, Event, mk, some, NONE, num, Node
from .tab import local, variants, var, run, one, term, fn_sig, short, field

S, U, N = 'Signed', 'Unsigned', 'Undefined'
# apache/parquet-format LogicalTypes.md and ColumnOrder in parquet.thrift
PHYSICAL = {'Boolean': U, 'Int32': S, 'Int64': S, 'Int96': N, 'Float': S, 'Double': S, 'ByteArray': U, 'FixedLenByteArray': U}
CONVERTED = {'Utf8': U, 'Enum': U, 'Json': U, 'Bson': U, 'Decimal': S, 'Date': S, 'TimeMillis': S, 'TimeMicros': S, 'TimestampMillis': S, 'TimestampMicros': S,
             'Uint8': U, 'Uint16': U, 'Uint32': U, 'Uint64': U, 'Int8': S, 'Int16': S, 'Int32': S, 'Int64': S, 'Interval': N}
LOGICAL = {'String': U, 'Enum': U, 'Json': U, 'Bson': U, 'Uuid': U, 'Decimal': S, 'Date': S, 'Time': S, 'Timestamp': S, 'Unknown': N}
INTS = {'Int8': S, 'Int16': S, 'Int32': S, 'Int64': S, 'UInt8': U, 'UInt16': U, 'UInt32': U, 'UInt64': U}


def values(P, name):
    """(label, node) for every variant; the payloads symbolic except the integer kind"""
    p = local(P, name)
    for v in variants(P, p):
        nf = len(P.adts[p]['variants'][variants(P, p).index(v)]['f'])
        if v == 'Integer':
            for k in variants(P, local(P, 'IntegerType')):
                yield (v, k), var(P, p, v, var(P, local(P, 'IntegerType'), k))
        else:
            yield (v, None), var(P, p, v, *[mk('sym', 'payload%d' % i) for i in range(nf)])


def check(c):
    P = c.P
    c.rule('The function from (logical type, converted type, physical type) to the sort order is evaluated for every combination of variants and compared with the specification '
           '(a logical type decides, else a converted type, else the physical type); it is given the three annotations of one and the same column; '
           'the order of a column with a type-defined order is that order, and signed otherwise.')
    n = 0
    i = fn_sig(c, 'get_sort_order', [r'&Option<PrimitiveLogicalType>', r'&Option<PrimitiveConvertedType>', r'&PhysicalType'], 'SortOrder')
    if i is not None:
        where = '%s:%s' % (i['file'], i['line'])
        ref = lambda v: mk('call', '&', v)
        cases = []
        for (pv, _), pn in values(P, 'PhysicalType'):
            want = PHYSICAL.get(pv)
            cases.append(('physical ' + pv, NONE, NONE, pn, want))
            for (cv, _), cn in values(P, 'PrimitiveConvertedType'):
                cases.append(('converted %s on %s' % (cv, pv), NONE, some(cn), pn, CONVERTED.get(cv)))
            for (lv, k), ln in values(P, 'PrimitiveLogicalType'):
                w = INTS.get(k) if k else LOGICAL.get(lv)
                cases.append(('logical %s%s on %s' % (lv, k or '', pv), some(ln), NONE, pn, w))
                cases.append(('logical %s%s and any converted type on %s' % (lv, k or '', pv), some(ln), some(mk('sym', 'converted')), pn, w))
        for key, l, v, p, want in cases:
            n += 1
            if want is None:
                c.violation('unknown ' + key, 'the rule has no entry for ' + key)
                continue
            t = one(P, i, [ref(l), ref(v), ref(p)])
            c.ob(t == {('SortOrder::' + want,)}, key, 'the sort order of %s is %s, the specification says %s' % (key, sorted(t, key=str), want), where, '%s: %s' % (key, want))
        calls(c, P, i)
    i = fn_sig(c, 'sort_order', [r'&ColumnOrder'], 'SortOrder')
    if i is not None:
        where = '%s:%s' % (i['file'], i['line'])
        co, so = local(P, 'ColumnOrder'), local(P, 'SortOrder')
        for o in variants(P, so):
            t = one(P, i, [mk('call', '&', var(P, co, 'TypeDefinedOrder', var(P, so, o)))])
            n += 1
            c.ob(t == {('SortOrder::' + o,)}, 'accessor ' + o, 'TypeDefinedOrder(%s).sort_order() is %s' % (o, t), where)
        t = one(P, i, [mk('call', '&', var(P, co, 'Undefined'))])
        n += 1
        c.ob(t == {('SortOrder::Signed',)}, 'accessor undefined', 'the legacy order is signed, the code gives %s' % t, where)
    c.floor('table entries', n, 420)


class Calls:
    def __init__(self, inst):
        self.inst = inst

    def on_call(self, E, st, c):
        if c.fn.get('i') is not None and E.P.I[c.fn['i']] is self.inst:
            c.ev.append(Event('order', tuple(E.target(a) for a in c.args), st, c.fr, c.line))
        return None

    def inline(self, E, inst, c):
        return inst is not self.inst


def calls(c, P, target):
    """every caller passes the annotations of one primitive type"""
    from .common import callgraph
    k = 0
    g = callgraph(P)
    fs = [i for i in P.I if i.get('identity') and 'err' not in i and i.get('local') and target['id'] in g[i['id']][0]]
    for i in fs:
        E = Engine(P, Calls(target), budget=200000)
        ex, ev, fr = E.run(i)
        c.analysed[i['p']] = 1
        for e in ev:
            if e.kind != 'order':
                continue
            k += 1
            bases = set()
            for r, p in e.data:
                bases.add((r, p[:-1]))
            c.ob(len(bases) == 1, 'annotations ' + i['p'], 'the sort order is derived from annotations of different columns: %s' % sorted(map(str, bases)), e.where(), 'one column: %s' % (sorted(map(str, bases))[0][:120]))
    c.floor('callers', k, 1)
