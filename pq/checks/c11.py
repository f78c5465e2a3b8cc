"""C11: translation tables between the crate's enums and the on-disk codes."""
from ..core import agg, num, mk, some, NONE, TRUE, FALSE, Node
from .tab import local, thrift, variants, var, newtype, conv, run, one, term, tysig, short, norm

# (crate enum, thrift type, {variant: code}) -- the Parquet format specification (parquet.thrift)
NEWTYPES = [
    ('Compression', 'CompressionCodec', {'Uncompressed': 0, 'Snappy': 1, 'Gzip': 2, 'Lzo': 3, 'Brotli': 4, 'Lz4': 5, 'Zstd': 6, 'Lz4Raw': 7}),
    ('Encoding', 'Encoding', {'Plain': 0, 'PlainDictionary': 2, 'Rle': 3, 'BitPacked': 4, 'DeltaBinaryPacked': 5,
                              'DeltaLengthByteArray': 6, 'DeltaByteArray': 7, 'RleDictionary': 8, 'ByteStreamSplit': 9}),
    ('PageType', 'PageType', {'DataPage': 0, 'DictionaryPage': 2, 'DataPageV2': 3}),
    ('Repetition', 'FieldRepetitionType', {'Required': 0, 'Optional': 1, 'Repeated': 2}),
    ('BoundaryOrder', 'BoundaryOrder', {'Unordered': 0, 'Ascending': 1, 'Descending': 2}),
]
OPTIONS = {'Uncompressed': 'Uncompressed', 'Snappy': 'Snappy', 'Gzip': 'Gzip', 'Lzo': 'Lzo', 'Brotli': 'Brotli', 'Lz4': 'Lz4', 'Zstd': 'Zstd', 'Lz4Raw': 'Lz4Raw'}
PHYSICAL = {'Boolean': 0, 'Int32': 1, 'Int64': 2, 'Int96': 3, 'Float': 4, 'Double': 5, 'ByteArray': 6, 'FixedLenByteArray': 7}
CONVERTED = {'Utf8': 0, 'Enum': 4, 'Decimal': 5, 'Date': 6, 'TimeMillis': 7, 'TimeMicros': 8, 'TimestampMillis': 9, 'TimestampMicros': 10,
             'Uint8': 11, 'Uint16': 12, 'Uint32': 13, 'Uint64': 14, 'Int8': 15, 'Int16': 16, 'Int32': 17, 'Int64': 18, 'Json': 19, 'Bson': 20, 'Interval': 21}
GROUP_CONVERTED = {'Map': 1, 'MapKeyValue': 2, 'List': 3}
LOGICAL = {'String': 'STRING', 'Enum': 'ENUM', 'Decimal': 'DECIMAL', 'Date': 'DATE', 'Time': 'TIME', 'Timestamp': 'TIMESTAMP', 'Integer': 'INTEGER',
           'Unknown': 'UNKNOWN', 'Json': 'JSON', 'Bson': 'BSON', 'Uuid': 'UUID'}
GROUP_LOGICAL = {'Map': 'MAP', 'List': 'LIST'}
UNITS = {'Milliseconds': 'MILLIS', 'Microseconds': 'MICROS', 'Nanoseconds': 'NANOS'}
INTS = {'Int8': (8, 1), 'Int16': (16, 1), 'Int32': (32, 1), 'Int64': (64, 1), 'UInt8': (8, 0), 'UInt16': (16, 0), 'UInt32': (32, 0), 'UInt64': (64, 0)}
ERR = 'Result::Err'


def is_err(ts):
    return all(isinstance(t, tuple) and t[0] == ERR for t in ts)


def single(ts):
    return next(iter(ts)) if len(ts) == 1 else None


def check(c):
    P = c.P
    c.rule('Each conversion is evaluated abstractly for every variant and for every code (the codes of the specification, their neighbours, and a symbolic code that stands for all others); '
           'the result has to be the one of the Parquet specification, and encode and decode have to be inverse.')
    n = 0

    def ob(okk, key, what, inst):
        nonlocal n
        n += 1
        c.ob(okk, key, what, '%s:%s' % (inst['file'], inst['line']), key)

    def names(path, table, label):
        vs = variants(P, path)
        c.ob(set(vs) == set(table), 'variants ' + label, '%s has the variants %s, the specification %s' % (label, sorted(vs), sorted(table)))
        return [v for v in vs if v in table]

    for lname, tname, table in NEWTYPES:
        lp, tp = local(P, lname), thrift(P, tname)
        if not c.anchor(lp, lname) or not c.anchor(tp, tname):
            continue
        enc = conv(c, 'local:' + lname, 'thrift:' + tname)
        dec = conv(c, 'thrift:' + tname, 'local:' + lname)
        inv = {v: k for k, v in table.items()}
        vs = names(lp, table, lname)
        if enc:
            for v in vs:
                t = one(P, enc, [var(P, lp, v)])
                ob(t == {(tname, table[v])}, 'encode %s::%s' % (lname, v), '%s::%s must be written as code %d, the code gives %s' % (lname, v, table[v], t), enc)
        if dec:
            for k in range(-2, max(inv) + 8):
                t = one(P, dec, [newtype(tp, k)])
                if k in inv:
                    ob(t == {('Result::Ok', (lname + '::' + inv[k],))}, 'decode %s %d' % (lname, k), 'code %d must be read as %s::%s, the code gives %s' % (k, lname, inv[k], t), dec)
                else:
                    ob(is_err(t), 'decode %s unknown %d' % (lname, k), 'unknown %s code %d must be rejected, the code gives %s' % (lname, k, t), dec)
            beyond(P, c, ob, dec, lambda s: [agg(tp, 0, s)], 0, max(inv), lname)
    # compression options
    lp, cp = local(P, 'CompressionOptions'), local(P, 'Compression')
    for dst, tbl in (('local:Compression', None), ('thrift:CompressionCodec', NEWTYPES[0][2])):
        i = conv(c, 'local:CompressionOptions', dst)
        if i is None:
            continue
        for v in names(lp, OPTIONS, 'CompressionOptions'):
            k = P.adts[lp]['variants'][variants(P, lp).index(v)]
            args = [var(P, lp, v, *[mk('sym', 'level') for _ in k['f']])]
            t = one(P, i, args)
            want = ('Compression::' + OPTIONS[v],) if tbl is None else ('CompressionCodec', tbl[OPTIONS[v]])
            ob(t == {want}, 'options %s %s' % (v, dst), 'CompressionOptions::%s must be the codec %s, the code gives %s' % (v, want, t), i)
    # physical types: (Type, Option<length>)
    lp, tp = local(P, 'PhysicalType'), thrift(P, 'Type')
    enc = conv(c, 'local:PhysicalType', '(thrift:Type, Option<i32>)')
    dec = conv(c, '(thrift:Type, Option<i32>)', 'local:PhysicalType')
    vs = names(lp, PHYSICAL, 'PhysicalType')
    L = mk('sym', 'len', ty='usize')
    Li = mk('sym', 'leni', ty='i32')
    if enc:
        for v in vs:
            t = one(P, enc, [var(P, lp, v, *([L] if v == 'FixedLenByteArray' else []))])
            want = ('()', ('Type', PHYSICAL[v]), ('Option::Some', L) if v == 'FixedLenByteArray' else ('Option::None',))
            ob(t == {want}, 'encode PhysicalType::' + v, 'PhysicalType::%s must be written as %s, the code gives %s' % (v, want, t), enc)
    if dec:
        inv = {b: a for a, b in PHYSICAL.items()}
        for k in range(-2, 12):
            for ln in (NONE, some(num(5, 'i32')), some(num(-1, 'i32'))):
                t = one(P, dec, [agg('tuple', 0, newtype(tp, k), ln)])
                if k == 7:
                    if ln is NONE or ln.a[2].a[0] < 0:
                        good = is_err(t)
                    else:
                        good = t == {('Result::Ok', ('PhysicalType::FixedLenByteArray', 5))}
                elif k in inv:
                    good = t == {('Result::Ok', ('PhysicalType::' + inv[k],))}
                else:
                    good = is_err(t)
                ob(good, 'decode PhysicalType %d' % k, 'physical type code %d with length %s: the code gives %s' % (k, ln, t), dec)
        beyond(P, c, ob, dec, lambda s: [agg('tuple', 0, agg(tp, 0, s), some(Li))], 0, 7, 'PhysicalType')
    # converted types
    lp, tp = local(P, 'PrimitiveConvertedType'), thrift(P, 'ConvertedType')
    enc = conv(c, 'local:PrimitiveConvertedType', '(thrift:ConvertedType, Option<(i32, i32)>)')
    dec = conv(c, '(thrift:ConvertedType, Option<(i32, i32)>)', 'local:PrimitiveConvertedType')
    vs = names(lp, CONVERTED, 'PrimitiveConvertedType')
    a, b = mk('sym', 'precision', ty='usize'), mk('sym', 'scale', ty='usize')
    if enc:
        for v in vs:
            t = one(P, enc, [var(P, lp, v, *([a, b] if v == 'Decimal' else []))])
            want = ('()', ('ConvertedType', CONVERTED[v]), ('Option::Some', ('()', a, b)) if v == 'Decimal' else ('Option::None',))
            ob(t == {want}, 'encode PrimitiveConvertedType::' + v, 'PrimitiveConvertedType::%s must be written as %s, the code gives %s' % (v, want, t), enc)
    if dec:
        inv = {y: x for x, y in CONVERTED.items()}
        for k in range(-2, 30):
            for ln in (NONE, some(agg('tuple', 0, num(9, 'i32'), num(2, 'i32'))), some(agg('tuple', 0, num(-1, 'i32'), num(2, 'i32'))), some(agg('tuple', 0, num(9, 'i32'), num(-2, 'i32')))):
                t = one(P, dec, [agg('tuple', 0, newtype(tp, k), ln)])
                if k == 5:
                    good = is_err(t) if ln is NONE or ln.a[2].a[2].a[0] < 0 or ln.a[2].a[3].a[0] < 0 else t == {('Result::Ok', ('PrimitiveConvertedType::Decimal', 9, 2))}
                elif k in inv:
                    good = t == {('Result::Ok', ('PrimitiveConvertedType::' + inv[k],))}
                else:
                    good = is_err(t)
                ob(good, 'decode PrimitiveConvertedType %d' % k, 'converted type code %d with decimal %s: the code gives %s' % (k, ln, t), dec)
        beyond(P, c, ob, dec, lambda s: [agg('tuple', 0, agg(tp, 0, s), NONE)], 0, 21, 'PrimitiveConvertedType')
    lp = local(P, 'GroupConvertedType')
    enc = conv(c, 'local:GroupConvertedType', 'thrift:ConvertedType')
    dec = conv(c, 'thrift:ConvertedType', 'local:GroupConvertedType')
    vs = names(lp, GROUP_CONVERTED, 'GroupConvertedType')
    if enc:
        for v in vs:
            t = one(P, enc, [var(P, lp, v)])
            ob(t == {('ConvertedType', GROUP_CONVERTED[v])}, 'encode GroupConvertedType::' + v, 'GroupConvertedType::%s gives %s' % (v, t), enc)
    if dec:
        inv = {y: x for x, y in GROUP_CONVERTED.items()}
        for k in range(-2, 30):
            t = one(P, dec, [newtype(tp, k)])
            good = t == {('Result::Ok', ('GroupConvertedType::' + inv[k],))} if k in inv else is_err(t)
            ob(good, 'decode GroupConvertedType %d' % k, 'group converted type code %d: the code gives %s' % (k, t), dec)
        beyond(P, c, ob, dec, lambda s: [agg(tp, 0, s)], 0, 21, 'GroupConvertedType')
    # time units
    up, tu = local(P, 'TimeUnit'), thrift(P, 'TimeUnit')
    enc, dec = conv(c, 'local:TimeUnit', 'thrift:TimeUnit'), conv(c, 'thrift:TimeUnit', 'local:TimeUnit')
    units = names(up, UNITS, 'TimeUnit')
    inner = lambda t: mk('sym', 'unit')
    for v in units:
        if enc:
            t = one(P, enc, [var(P, up, v)])
            ob(len(t) == 1 and single(t)[0] == 'TimeUnit::' + UNITS[v], 'encode TimeUnit::' + v, 'TimeUnit::%s gives %s' % (v, t), enc)
        if dec:
            t = one(P, dec, [var(P, tu, UNITS[v], inner(v))])
            ob(t == {('TimeUnit::' + v,)}, 'decode TimeUnit ' + v, 'unit %s gives %s' % (UNITS[v], t), dec)
    # integers
    ip = local(P, 'IntegerType')
    ints = names(ip, INTS, 'IntegerType')
    enc, dec = conv(c, 'local:IntegerType', '(usize, bool)'), conv(c, '(i32, bool)', 'local:IntegerType')
    for v in ints:
        if enc:
            t = one(P, enc, [var(P, ip, v)])
            ob(t == {('()',) + INTS[v]}, 'encode IntegerType::' + v, 'IntegerType::%s gives %s' % (v, t), enc)
        if dec:
            t = one(P, dec, [agg('tuple', 0, num(INTS[v][0], 'i32'), TRUE if INTS[v][1] else FALSE)])
            ob(t == {('IntegerType::' + v,)}, 'decode IntegerType ' + v, '%s gives %s' % (INTS[v], t), dec)
    # logical types
    for lname, table in (('PrimitiveLogicalType', LOGICAL), ('GroupLogicalType', GROUP_LOGICAL)):
        lp, tp = local(P, lname), thrift(P, 'LogicalType')
        enc, dec = conv(c, 'local:' + lname, 'thrift:LogicalType'), conv(c, 'thrift:LogicalType', 'local:' + lname)
        vs = names(lp, table, lname)
        utc = mk('sym', 'utc', ty='bool')
        for v in vs:
            for pay, want in payload(P, v, up, tu, ip, a, b, utc):
                if enc:
                    t = single(one(P, enc, [var(P, lp, v, *pay)]))
                    good = t is not None and t[0] == 'LogicalType::' + table[v] and (want is None or t[1:] == want)
                    ob(good, 'encode %s::%s' % (lname, v), '%s::%s(%s) must be written as %s %s, the code gives %s' % (lname, v, pay, table[v], want, t), enc)
        if dec:
            tv = variants(P, tp)
            inv = {y: x for x, y in table.items()}
            for tn in tv:
                for pay, want in tpayload(P, tn, up, tu, ip, utc):
                    t = one(P, dec, [var(P, tp, tn, *pay)])
                    if tn not in inv or want == ERR:
                        ob(is_err(t), 'decode %s %s' % (lname, tn), 'logical type %s(%s) must be rejected as a %s, the code gives %s' % (tn, pay, lname, t), dec)
                    else:
                        good = t == {('Result::Ok', (lname + '::' + inv[tn],) + (want or ()))}
                        ob(good, 'decode %s %s' % (lname, tn), 'logical type %s(%s) must be read as %s%s, the code gives %s' % (tn, pay, inv[tn], want or '', t), dec)
    # the writer's version number
    i = conv(c, 'local:Version', 'i32')
    if i:
        for v, k in (('V1', 1), ('V2', 2)):
            t = one(P, i, [var(P, local(P, 'Version'), v)])
            ob(t == {k}, 'version ' + v, 'Version::%s must be written as %d, the code gives %s' % (v, k, t), i)
    accessors(P, c, ob)
    c.floor('table entries', n, 330)


def beyond(P, c, ob, dec, mkargs, lo, hi, label):
    """no code outside the enumerated range is accepted"""
    s = mk('sym', 'code', ty='i32')
    E, ex = run(P, dec, mkargs(s))
    for st, r in ex:
        t = term(E, st, r)
        if isinstance(t, tuple) and t[0] == ERR:
            continue
        inside = E.entails_le(st, num(lo, 'i32'), s) and E.entails_le(st, s, num(hi, 'i32'))
        ob(inside, 'decode %s range' % label, 'a code outside %d..=%d may be accepted as a %s: %s' % (lo, hi, label, t), dec)


def payload(P, v, up, tu, ip, a, b, utc):
    if v == 'Decimal':
        yield [a, b], (('DecimalType', ('precision', a), ('scale', b)),)
    elif v in ('Time', 'Timestamp'):
        ty = 'TimeType' if v == 'Time' else 'TimestampType'
        f = P.adts[local(P, 'PrimitiveLogicalType')]['variants'][variants(P, local(P, 'PrimitiveLogicalType')).index(v)]['f']
        for u in UNITS:
            d = {'unit': var(P, up, u), 'is_adjusted_to_utc': utc}
            yield [d[x] for x in f], ((ty, ('is_adjusted_to_u_t_c', utc), ('unit', ('TimeUnit::' + UNITS[u], (('MilliSeconds', 'MicroSeconds', 'NanoSeconds')[list(UNITS).index(u)],)))),)
    elif v == 'Integer':
        for i, (w, s) in INTS.items():
            yield [var(P, ip, i)], (('IntType', ('bit_width', w), ('is_signed', s)),)
    else:
        yield [], None


def tpayload(P, tn, up, tu, ip, utc):
    if tn == 'DECIMAL':
        p = thrift(P, 'DecimalType')
        f = P.adts[p]['variants'][0]['f']
        for pr, sc in ((9, 2), (-1, 2), (9, -1)):
            d = {'precision': num(pr, 'i32'), 'scale': num(sc, 'i32')}
            yield [agg(p, 0, *[d[x] for x in f])], ((pr, sc) if pr >= 0 and sc >= 0 else ERR)
    elif tn in ('TIME', 'TIMESTAMP'):
        p = thrift(P, 'TimeType' if tn == 'TIME' else 'TimestampType')
        f = P.adts[p]['variants'][0]['f']
        lf = P.adts[local(P, 'PrimitiveLogicalType')]['variants'][variants(P, local(P, 'PrimitiveLogicalType')).index('Time' if tn == 'TIME' else 'Timestamp')]['f']
        for u, t in UNITS.items():
            d = {'unit': var(P, tu, t, mk('sym', 'unit')), 'is_adjusted_to_u_t_c': utc}
            w = {'unit': ('TimeUnit::' + u,), 'is_adjusted_to_utc': utc}
            yield [agg(p, 0, *[d[x] for x in f])], tuple(w[x] for x in lf)
    elif tn == 'INTEGER':
        p = thrift(P, 'IntType')
        f = P.adts[p]['variants'][0]['f']
        for i, (w, s) in INTS.items():
            d = {'bit_width': num(w, 'i8'), 'is_signed': TRUE if s else FALSE}
            yield [agg(p, 0, *[d[x] for x in f])], (('IntegerType::' + i,),)
    else:
        yield [mk('sym', 'payload')], None


def accessors(P, c, ob):
    """typed accessors of page headers translate their own field"""
    enc = NEWTYPES[1][2]
    tp = thrift(P, 'Encoding')
    for f in P.fns:
        if short(f['p']) not in ('encoding', 'repetition_level_encoding', 'definition_level_encoding') or not f.get('impl_trait_p'):
            continue
        i = P.inst(f['p'])
        if i is None or 'err' in i or i['argc'] != 1 or short(tysig(P, i)[0]) != 'Encoding':
            continue
        sty = tysig(P, i)[1].lstrip('&').strip()
        a = P.adts.get(sty)
        if a is None or a['enum']:
            continue
        c.analysed[f['p']] = 1
        fields = a['variants'][0]['f']
        for v, k in enc.items():
            d = [newtype(tp, k) if x == short(f['p']) else (newtype(tp, 99) if 'encoding' in x else mk('sym', 'h_' + x)) for x in fields]
            t = one(P, i, [mk('call', '&', agg(sty, 0, *d))])
            want = ('Encoding::' + v,)
            if short(f['p']) not in fields:
                want = ('Encoding::Rle',)
            ob(t == {want}, 'accessor %s %s' % (f['p'], v), '%s of a header whose field is %s gives %s' % (f['p'], v, t), i)
