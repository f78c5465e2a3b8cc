"""following the readers of pages: what each page header leads to (C17, C21, C22, C35)"""
from ..core import Engine, Event, TooBig, State, Node, mk, num, agg, some, ok, err, NONE, UNIT, TRUE, FALSE, OPT, RES
from .. import models as M
from .common import carries, callgraph, reaches
from .tab import local, thrift, field, fidx, tysig, norm, variants, short
from .c29 import vfield
from .lists import payload

# page type codes of the specification -> (name, the header that belongs to it)
KINDS = (('v1', 0, 'data_page_header'), ('dict', 2, 'dictionary_page_header'), ('v2', 3, 'data_page_header_v2'), ('other', None, None))
DATA = ('v1', 'v2')


def is_header(p):
    return 'PageHeader' in p and p.split('::')[-1] in ('read_from_in_protocol', 'stream_from_in_protocol')


def constructors(P):
    cd = local(P, 'CompressedDataPage')
    out = set()
    for i in P.I:
        if 'err' in i or not i.get('local'):
            continue
        for b in i['b']:
            for st in b[0]:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1] == cd:
                    out.add(i['id'])
    return out


def readers(P):
    """functions that read page headers and make pages from them: iterators and bodies of streams"""
    a = reaches(P, is_header)
    b = reaches(P, constructors(P))
    seen = set()
    out = []
    for i in P.I:
        if 'err' in i or i['id'] not in a or i['id'] not in b or not i.get('local') or i.get('shim') or i['p'] in seen:
            continue
        s = norm(P.tys(i['tys'][0]))
        if (i.get('cor') and s == '()') or (short(i['p']) == 'next' and 'Iterator' in i['p'] and 'CompressedPage' in s):
            if i.get('identity') or i.get('cor'):
                seen.add(i['p'])
                out.append(i)
    return out


class Client:
    def __init__(self, P):
        self.P = P
        self.cdp = local(P, 'CompressedDataPage')
        self.enc = local(P, 'Encoding')
        self.cdict = local(P, 'CompressedDictPage')
        self.backs = []

    def setk(self, st, k):
        st.mon = tuple(sorted(set(m for m in st.mon if not m.startswith(('k ', 'said ', 'out '))) | ({'k ' + k} if k else set())))

    def ghost(self, st, n, d=None):
        return st.mem.get(('m', n), d)

    def on_call(self, E, st, c):
        p = c.path or ''
        if is_header(p) and (c.dty is None or 'Result' in self.P.tys(c.dty)[:30]):
            t = P_header(self.P)
            h = mk('eff', 'page header', c.site, ty=E.scalar(t) if t is not None else None)
            out = []
            s0 = st.copy()
            self.setk(s0, None)
            E.forget(s0, h)
            for k in [k for k in s0.mem if k[0] == 'm' and k[1].startswith('known ')]:
                del s0.mem[k]
            c.ev.append(Event('header', c.args, s0.copy(), c.fr, c.line))
            ty = E.getk(field(E, s0, h, 'type_'), ('f', 0, 0, 'i32'), s0)
            for k, code, name in KINDS:
                s = s0.copy()
                if code is not None:
                    if not E.assume(s, E.cmp('eq', ty, num(code, 'i32')), True):
                        continue
                elif not all(E.assume(s, E.cmp('eq', ty, num(x, 'i32')), False) for _, x, _ in KINDS if x is not None):
                    continue
                self.setk(s, k)
                s.mem[('m', 'hdr')] = h
                s.mem[('m', 'asked')] = num(0, 'i64')
                s.mem[('m', 'said')] = FALSE
                s.mem[('m', 'bytes')] = num(0, 'usize')
                s.mem[('m', 'made')] = num(0, 'i64')
                if k in DATA:
                    n = self.values(E, s, h, k)
                    s.mem[('m', 'values')] = E.arith('add', s.mem.get(('m', 'values'), num(0, 'i64')), E.int_cast(s, n, 'i32', 'i64'), 'i64')
                out.append((s, ok(h)))
            s = s0.copy()
            self.setk(s, 'failed')
            out.append((s, err(mk('eff', 'header error', c.site))))
            return out
        if p == 'io::copy':
            rd, lim = M.reader_of(E, st, c.args[0])
            n = mk('eff', 'ncopied', c.site, ty='u64')
            s = st.copy()
            E.forget(s, n)
            if lim is not None:
                E.assume(s, E.cmp('le', n, lim), True)
            s.mem[('m', 'bytes')] = E.arith('add', s.mem.get(('m', 'bytes'), num(0, 'usize')), n, 'usize')
            return [(s, ok(n)), (st.copy(), err(mk('eff', 'ioerr', c.site, mk('str', p))))]
        if c.fn.get('trait', '').startswith('core::ops::function::Fn') and c.argtys and c.argtys[0] is not None and 'DataPageHeader' in self.P.tys(c.argtys[0]):
            return self.asked(E, st, c)
        return None

    def asked(self, E, st, c):
        args = c.args[1:]
        if len(args) == 1 and args[0].op == 'agg' and args[0].a[0] == 'tuple':
            args = list(args[0].a[2:])
        c.ev.append(Event('filter', args, st.copy(), c.fr, c.line))
        out = []
        for v in (TRUE, FALSE):
            s = st.copy()
            s.mem[('m', 'asked')] = E.arith('add', s.mem.get(('m', 'asked'), num(0, 'i64')), num(1, 'i64'), 'i64')
            s.mem[('m', 'said')] = v
            s.mon = tuple(sorted(set(m for m in s.mon if not m.startswith('said ')) | {'said %s' % v}))
            out.append((s, v))
        return out

    def values(self, E, s, h, k):
        return E.getk(payload(E, s, field(E, s, h, dict((a, c) for a, b, c in KINDS)[k])), ('f', 0) + fidx(E, thrift(self.P, 'DataPageHeader' if k == 'v1' else 'DataPageHeaderV2'), 0, 'num_values'), s)

    def on_result(self, E, c, res):
        # a code is known once its conversion to the crate's enum has succeeded
        if c.dty is None or len(c.args) != 1 or not norm(E.P.tys(c.dty)).startswith('Result<Encoding,'):
            return res
        for s, v in res:
            if v.op == 'agg' and v.a[0] == RES and v.a[1] == 0:
                s.mem[('m', 'known %d' % self.code(E, s, c.args[0]).id)] = TRUE
        return res

    def code(self, E, s, v):
        return E.getk(v, ('f', 0, 0, 'i32'), s)

    def on_back(self, E, st):
        k, said, out = self.state(st)
        if k and out is None:
            self.backs.append((k, said, self.consumed(E, st)))
        self.setk(st, None)

    def state(self, st):
        d = dict(m.split(' ', 1) for m in st.mon if m.startswith(('k ', 'said ', 'out ')))
        return d.get('k'), d.get('said'), d.get('out')

    def consumed(self, E, st):
        """as many bytes were taken as the header declares"""
        h = self.ghost(st, 'hdr')
        if h is None or h.op == 'phi':
            return False
        n = field(E, st, h, 'compressed_page_size')
        b = self.ghost(st, 'bytes')
        return E.entails_le(st, n, b) and E.entails_le(st, b, n)

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if s[2][0] == 'agg' and v.op == 'agg' and v.a[0] in (self.cdp, self.cdict):
            ev.append(Event('page', v, st.copy(), fr, s[3]))
            st.mem[('m', 'made')] = E.arith('add', st.mem.get(('m', 'made'), num(0, 'i64')), num(1, 'i64'), 'i64')

    def on_io(self, E, st, c, op):
        if op == 'stream::yield':
            v = c.args[-1]
            c.ev.append(Event('yield', v, st.copy(), c.fr, c.line))
            s = st.copy()
            s.mon = tuple(sorted(set(m for m in s.mon if not m.startswith('out ')) | {'out err' if carries(E, st, v) else 'out ok'}))
            return [(s, UNIT)]
        if op in ('io::read_to_end', 'io::read_exact'):
            res = M.IO[op](E, st, c)
            for s, v in res:
                if v.op == 'agg' and v.a[0] == RES and v.a[1] == 0:
                    n = E.length(E.read(s, *E.target(c.args[1]))) if op == 'io::read_exact' else v.a[2]
                    s.mem[('m', 'bytes')] = E.arith('add', s.mem.get(('m', 'bytes'), num(0, 'usize')), n, 'usize')
            return res
        return None


def P_header(P):
    p = thrift(P, 'PageHeader')
    return next((n for n, t in enumerate(P.T) if t['k'] == 'adt' and t.get('p') == p), None)


class Run:
    """one reader, followed"""
    def __init__(self, P, i):
        self.P, self.i = P, i
        self.where = '%s:%s' % (i['file'], i['line'])
        self.name = i['p'].split('::{')[0].split('<')[-1] if i['p'].startswith('<') is False else short(norm(P.tys(P.T[i['tys'][1]]['a'][0])).split('<')[0])
        self.stream = bool(i.get('cor'))
        self.parent = None

    def ints(self, E, st, v):
        """fields of the reader that are signed 64-bit integers"""
        P = self.P
        if v.op == 'agg':
            return {k: x for k, x in enumerate(v.a[2:]) if isinstance(x, Node) and E.is_int(x) and (x.ty == 'i64')}
        t = P.T[self.i['tys'][1]]
        t = P.T[t['a'][0]]
        ad = P.adts[t['p']]
        return {k: field(E, st, v, f) for k, f in enumerate(ad['variants'][0]['f']) if ad['variants'][0]['t'][k] == 'i64'}

    def go(self, init=None):
        P, i = self.P, self.i
        cl = Client(P)
        E = self.E = Engine(P, cl, 60, 256, True)
        st = State()
        self.cl = cl
        args = [mk('sym', 'arg%d of %s' % (k, i['id']), ty=E.scalar(i['tys'][k + 1])) for k in range(i['argc'])]
        if init is not None:
            args[0], st = init(E, st, args[0])
        self.arg = args[0]
        self.st0 = st
        self.ex, self.ev, self.fr = E.run(i, args, st.copy())
        return self

    def outcomes(self):
        """(state, 'none' | 'err' | 'data' | 'dict' | '?', page, where) for everything handed to the caller"""
        E, P = self.E, self.P
        out = []
        if self.stream:
            vals = [(e.st, some(e.data), e.where()) for e in self.ev if e.kind == 'yield']
            vals += [(s, NONE, self.where) for s, v in self.ex]
        else:
            vals = [(s, v, self.where) for s, v in self.ex]
        cp = local(P, 'CompressedPage')
        for s, v, w in vals:
            for s1, o in M.split_enum(E, s, v, OPT):
                if o.a[1] == 0:
                    out.append((s1, 'none', None, w))
                    continue
                for s2, r in M.split_enum(E, s1, o.a[2], RES):
                    if r.a[1] == 1:
                        out.append((s2, 'err', None, w))
                        continue
                    for s3, pg in M.split_enum(E, s2, r.a[2], cp):
                        out.append((s3, variants(P, cp)[pg.a[1]].lower(), pg.a[2], w))
        return out


def pagehdr(E, P, s, pg):
    """[(state, 'V1' | 'V2', header)] of a compressed data page"""
    h = field(E, s, pg, 'header')
    dp = local(P, 'DataPageHeader')
    return [(s1, variants(P, dp)[x.a[1]], x.a[2]) for s1, x in M.split_enum(E, s, h, dp)]


HDR = {'V1': ('v1', 'data_page_header', ('encoding', 'repetition_level_encoding', 'definition_level_encoding')), 'V2': ('v2', 'data_page_header_v2', ('encoding',))}


def c17(c):
    P = c.P
    c.rule('Every page reader is followed from the header it decodes to each page it hands out: the page\'s type code must belong to the header that is used, that header must be the one that was read, '
           'each of its encodings must have been converted successfully to the crate\'s enum, and its value count must be known not to be negative.')
    rs = readers(P)
    c.floor('page readers', len(rs), 3)
    n = {}
    for i in rs:
        r = Run(P, i).go()
        E = r.E
        c.analysed[i['p']] = 1
        for s, k, pg, w in r.outcomes():
            kind = r.cl.state(s)[0]
            if k in ('none', 'err'):
                continue
            h = r.cl.ghost(s, 'hdr')
            if h is None:
                c.ob(False, 'no header ' + r.name, '%s hands out a page although no header was read' % r.name, w)
                continue
            key = '%s %s' % (r.name, kind)
            if k == 'dict':
                c.ob(kind == 'dict', 'kind ' + key, 'a page whose type code is not that of a dictionary is handed out as one', w, '%s: a dictionary page has the type code of one' % r.name)
                continue
            for s1, v, x in pagehdr(E, P, s, pg):
                n[(r.name, v)] = n.get((r.name, v), 0) + 1
                good = kind == HDR[v][0]
                c.ob(good, 'kind %s %s' % (key, v), 'a page that is not a %s data page by its type code gets a %s header' % (v, v), w, '%s: %s header for type %s' % (r.name, v, kind))
                if not good:
                    continue
                want = payload(E, s1, field(E, s1, h, HDR[v][1]))
                same = x is want or E.norm(s1, x) is E.norm(s1, want)
                c.ob(same or x.op in ('phi', 'mut', 'call'), 'header ' + key, 'the page does not carry the header that was read', w, '%s: the page carries its own header' % r.name)
                t = thrift(P, 'DataPageHeader' if v == 'V1' else 'DataPageHeaderV2')
                for f in HDR[v][2]:
                    code = r.cl.code(E, s1, E.getk(want, ('f', 0) + fidx(E, t, 0, f), s1))
                    c.ob(r.cl.ghost(s1, 'known %d' % code.id) is TRUE, '%s %s' % (f, key), '%s hands out a %s data page without having checked its %s' % (r.name, v, f.replace('_', ' ')), w,
                         '%s: %s is known before the page is handed out' % (r.name, f))
                nv = r.cl.values(E, s1, h, kind)
                c.ob(E.entails_le(s1, num(0, 'i32'), nv), 'num_values ' + key, '%s hands out a %s data page whose number of values can be negative' % (r.name, v), w, '%s: the value count is not negative' % r.name)
    c.cov['pages handed out'] = {'%s %s' % k: v for k, v in sorted(n.items())}
    c.floor('kinds of data pages followed', len(n), 4)


def sequential(P):
    return [i for i in readers(P) if any(True for _ in [0]) and asks(P, i)]


def asks(P, i):
    """does this reader consult a page filter"""
    r = Run(P, i).go()
    return any(e.kind == 'filter' for e in r.ev)


def c22(c):
    P = c.P
    c.rule('In every reader that has a page filter, the calls of the filter are counted between reading a header and handing out or skipping its page: exactly one for a data page, none for a dictionary page, '
           'with the header that was read and the reader\'s descriptor; a page is skipped only when the filter said no and after as many bytes were taken as its header declares.')
    rs = readers(P)
    n = 0
    for i in rs:
        r = Run(P, i).go()
        E = r.E
        fs = [e for e in r.ev if e.kind == 'filter']
        holds = any('Fn' in x and 'DataPageHeader' in x for x in fieldtypes(P, i))
        if not holds:
            continue
        n += 1
        c.analysed[i['p']] = 1
        c.ob(bool(fs), 'asks ' + r.name, '%s has a page filter that it never consults' % r.name, r.where, '%s consults its filter' % r.name)
        for e in fs:
            kind = r.cl.state(e.st)[0]
            c.ob(kind in DATA, 'kind %s %s' % (r.name, kind), 'the page filter is consulted for a page that is not a data page', e.where(), '%s asks about data pages only' % r.name)
            if kind not in DATA:
                continue
            h = r.cl.ghost(e.st, 'hdr')
            x = E.content(e.st, e.data[1]) if e.data[1].op == 'ref' else e.data[1]
            dp = local(P, 'DataPageHeader')
            for s1, y in M.split_enum(E, e.st.copy(), x, dp):
                v = variants(P, dp)[y.a[1]]
                want = payload(E, s1, field(E, s1, h, HDR[v][1]))
                same = HDR[v][0] == kind and (y.a[2] is want or E.norm(s1, y.a[2]) is E.norm(s1, want))
                c.ob(same, 'header %s %s' % (r.name, kind), 'the page filter is not given the header of the page it decides about', e.where(), '%s: the filter gets the header of the page' % r.name)
            d = E.content(e.st, e.data[0]) if e.data[0].op == 'ref' else e.data[0]
            c.ob(owns(d), 'descriptor ' + r.name, 'the page filter is not given the descriptor of the reader', e.where(), '%s: the filter gets the descriptor' % r.name)
        for s, k, pg, w in r.outcomes():
            kind, said, out = r.cl.state(s)
            if k not in ('data', 'dict'):
                continue
            a = r.cl.ghost(s, 'asked')
            m = 1 if k == 'data' else 0
            exact = a is not None and E.entails_le(s, a, num(m, 'i64')) and E.entails_le(s, num(m, 'i64'), a)
            c.ob(exact, 'once %s %s' % (r.name, k), 'the page filter is %s before the page is handed out' % ('not consulted exactly once' if m else 'consulted for a dictionary page'), w,
                 '%s: the filter is consulted %s for a %s page' % (r.name, 'once' if m else 'never', k))
            c.ob(k == 'dict' or said == '1', 'obeys ' + r.name, 'a data page is handed out although the filter rejected it', w, '%s: rejected pages are not handed out' % r.name)
        skipped = [b for b in r.cl.backs]
        for kind, said, took in skipped:
            if kind == 'failed':
                continue
            c.ob(kind in DATA and said == '0', 'dropped %s %s' % (r.name, kind), 'a %s page is dropped although no filter rejected it' % kind, r.where, '%s: only rejected pages are dropped' % r.name)
            c.ob(took, 'skips ' + r.name, 'a skipped page leaves the reader at another place than its end', r.where, '%s: a skipped page is read past completely' % r.name)
    c.floor('readers with a page filter', n, 2)


def owns(v, d=0):
    """a part of what was given to the reader"""
    while d < 12 and v.op in ('f', 'field', 'i', 'call', 'deref', 'content', '*') or v.op == 'call':
        x = [y for y in v.a if isinstance(y, Node)]
        if not x:
            break
        v = x[0]
        d += 1
    return v.op == 'sym' and str(v.a[0]).startswith('arg')


def fieldtypes(P, i):
    t = P.T[i['tys'][1]]
    if t['k'] == 'ref':
        t = P.T[t['a'][0]]
    if t['k'] == 'adt':
        ad = P.adts.get(t['p'])
        out = [norm(x) for x in ad['variants'][0].get('t') or []]
        return [P.aliases.get(x, x) for x in out] if hasattr(P, 'aliases') else out
    return [norm(P.tys(x)) for x in t.get('u') or t.get('a') or []]


def c21(c):
    P = c.P
    c.rule('In every reader that counts values, the count after each header is the count before plus the number of values of the data page (nothing for other pages), on every path including filtered pages; '
           'the reader ends without a page or an error only where the count is known to have reached the total, reads a header only where it has not, and hands out every page it reads unless a filter rejected it; '
           'the total is the number of values of the column\'s metadata and the count starts at zero.')
    n = 0
    for i in readers(P):
        if not any('Fn' in x and 'DataPageHeader' in x for x in fieldtypes(P, i)):
            continue
        n += 1
        c.analysed[i['p']] = 1
        pairs = candidates(P, i)
        best = None
        for seen, total in pairs:
            r, fails, oks = follow(P, i, seen, total)
            if best is None or len(fails) < len(best[1]):
                best = (r, fails, oks, seen, total)
            if not fails:
                break
        name = Run(P, i).name
        c.ob(best is not None, 'count ' + name, '%s does not keep the number of values seen and their total as integers' % name, '%s:%s' % (i['file'], i['line']), '%s counts values' % name)
        if best is None:
            continue
        r, fails, oks = best[:3]
        for k, what in oks:
            c.ob(True, k, what, None, what)
        for k, what, w in fails:
            c.ob(False, k, what, w)
        starts(c, P, i, best[3], best[4])
    c.floor('readers that count values', n, 2)


def candidates(P, i):
    """pairs (count, total) of positions of 64-bit integers of the reader"""
    t = P.T[i['tys'][1]]
    if t['k'] == 'ref':
        t = P.T[t['a'][0]]
        ad = P.adts[t['p']]['variants'][0]
        k = [n for n, x in enumerate(ad['t']) if x == 'i64']
    else:
        k = [n for n, x in enumerate(t['a']) if P.tys(x) == 'i64']
    return [(a, b) for a in k for b in k if a != b]


def follow(P, i, seen, total):
    fails, oks = [], []
    box = {}

    def init(E, st, arg):
        v = E.content(st, arg) if not i.get('cor') else arg
        a = E.getk(v, ('f', 0, seen, 'i64'), st)
        b = E.getk(v, ('f', 0, total, 'i64'), st)
        box['a'], box['b'] = a, b
        st.mem[('m', 'values')] = a
        return arg, st
    r = Run(P, i)
    r.go(init)
    E = r.E

    def total_at(s):
        return box['b'] if i.get('cor') else E.getk(E.content(s, r.arg), ('f', 0, total, 'i64'), s)

    def want(good, key, what, w, sample):
        if good:
            oks.append((key, sample))
        else:
            fails.append((key, what, w))
    for e in r.ev:
        if e.kind == 'header':
            v = e.st.mem.get(('m', 'values'))
            want(v is not None and E.entails_lt(e.st, v, box['b']), 'until ' + r.name, 'a page is read although all values of the column were already seen', e.where(), '%s: reads only while values are missing' % r.name)
    for s, k, pg, w in r.outcomes():
        kind, said, out = r.cl.state(s)
        v = r.cl.ghost(s, 'values')
        if not i.get('cor'):
            now = E.getk(E.content(s, r.arg), ('f', 0, seen, 'i64'), s)
            if k in ('data', 'dict', 'none'):
                want(E.entails_le(s, now, v) and E.entails_le(s, v, now), 'advance %s %s' % (r.name, k), 'the number of values seen does not advance by those of the data pages that were read', w,
                     '%s: the count advances by the values of the page (%s)' % (r.name, k))
            t = total_at(s)
            want(E.norm(s, t) is E.norm(s, box['b']), 'total ' + r.name, 'the total number of values changes while iterating', w, '%s: the total does not change' % r.name)
        if k == 'none' and out != 'err' and kind != 'failed':
            if kind is not None and out is None:
                want(False, 'lost %s' % r.name, 'the iteration ends after a header was read without handing out its page or an error', w, '')
            else:
                want(E.entails_le(s, box['b'], v), 'end ' + r.name, 'the iteration can end before all the values of the column were seen', w, '%s: ends only when all values were seen' % r.name)
        if k == 'none' and kind == 'failed' and out != 'err':
            want(False, 'error ' + r.name, 'the iteration ends without an error after a header could not be read', w, '')
    for kind, said, took in r.cl.backs:
        want(said == '0', 'dropped %s %s' % (r.name, kind), 'a %s page is neither handed out nor rejected by the filter' % kind, r.where, '%s: continues only after rejected pages' % r.name)
    return r, fails, oks


class Builds:
    def __init__(self, key, hit):
        self.key, self.hit = key, hit

    def on_assign(self, E, st, fr, r, p, v, s, ev):
        if s[2][0] == 'agg' and v.op == 'agg' and self.key in str(s[2][1]):
            self.hit(E, st, v, '%s:%s (%s)' % (fr.inst['file'], s[3], fr.inst['p']))


def makers(P, key):
    """functions that build a reader (a struct or the body of a stream) of this type"""
    b = set()
    for j in P.I:
        if 'err' not in j and j.get('local') and any(x[0] == '=' and x[2][0] == 'agg' and x[2][1][0] in ('adt', 'coroutine') and x[2][1][1] == key for y in j['b'] for x in y[0]):
            b.add(j['id'])
    return b


def starts(c, P, i, seen, total):
    """how readers are made: nothing seen, and the total is that of the metadata"""
    t = P.T[i['tys'][1]]
    if t['k'] == 'ref':
        t = P.T[t['a'][0]]
    key = t['p']
    R = reaches(P, makers(P, key))
    name = Run(P, i).name
    n = [0]
    roots = {}
    for x in sorted(R):
        j = P.I[x]
        if (j.get('identity') or j.get('cor')) and j['p'] != i['p']:
            roots[j['p']] = j

    def hit(E, st, v, w):
        n[0] += 1
        a, b = v.a[2 + seen], v.a[2 + total]
        c.ob(E.entails_le(st, a, num(0, 'i64')) and E.entails_le(st, num(0, 'i64'), a), 'start ' + name, '%s does not start with no values seen' % name, w, '%s starts with no values seen' % name)
        c.ob(b.op == 'sym' or counts(E, P, b), 'total of ' + name, 'the total of %s is not the number of values of the column' % name, w, '%s: the total is the number of values of the metadata' % name)
    for j in roots.values():
        E = Engine(P, Builds(key, hit), 60, 256, True)
        c.analysed[j['p']] = 1
        E.run(j, [mk('sym', 'arg%d of %s' % (k, j['id']), ty=E.scalar(j['tys'][k + 1])) for k in range(j['argc'])], State())
    c.floor('places that make a ' + name, n[0], 1)


def counts(E, P, v):
    """the field of the metadata that holds the number of values"""
    while v.op == 'cast' and isinstance(v.a[0], Node):
        v = v.a[0]
    if v.op == 'phi':
        l = list(E.alts.get(v, ()))
        return bool(l) and all(counts(E, P, x) for x in l)
    if v.op != 'field':
        return False
    t = v.a[0].ty
    ad = E.adt_of(t) if isinstance(t, int) else None
    if ad in P.adts:
        f = P.adts[ad]['variants'][0]['f']
        return v.a[2] < len(f) and f[v.a[2]] == 'num_values'
    cm = P.adts[thrift(P, 'ColumnMetaData')]['variants'][0]['f']
    pm = P.adts[local(P, 'PageMetaData')]['variants'][0]['f']
    return v.a[2] in (cm.index('num_values'), pm.index('num_values'))


class Indexed(Client):
    """reads at recorded places"""
    facts = None

    def watch(self, E, st):
        at = self.ghost(st, 'at')
        return (at.id if at is not None else None,) + (tuple(f(st) for f in self.facts) if self.facts else ())

    def on_io(self, E, st, c, op):
        if op == 'io::seek' and c.args[1].op == 'agg' and c.args[1].a[1] == 0:
            s = st
            s.mem[('m', 'at')] = c.args[1].a[2]
            s.mem.pop(('m', 'lim'), None)
        elif op in ('io::read_to_end', 'io::read_exact'):
            lim = M.reader_of(E, st, c.args[0])[1] if op == 'io::read_to_end' else E.length(E.read(st, *E.target(c.args[1])))
            n = self.ghost(st, 'lim')
            lim = lim if lim is not None else mk('none')
            st.mem[('m', 'lim')] = lim if n is None or lim.op == 'none' else E.arith('add', n, lim, 'u64')
        return super().on_io(E, st, c, op)

    def on_result(self, E, c, res):
        if short(c.path) in ('pop_front', 'pop', 'remove', 'next', 'pop_back') and c.dty is not None and self.P.tys(c.dty).endswith('FilteredPage>'):
            for s, v in res:
                if v.op == 'agg' and v.a[0] == OPT and v.a[1] == 1:
                    s.mem[('m', 'popped')] = v.a[2]
        return super().on_result(E, c, res)

    def on_back(self, E, st):
        x = self.ghost(st, 'popped')
        if x is not None:
            n = E.length(field(E, st, x, 'selected_rows'), st)
            self.backs.append(E.entails_le(st, n, num(0, 'usize')))
            del st.mem[('m', 'popped')]
        self.setk(st, None)


def c35(c):
    P = c.P
    c.rule('The reader of selected pages is followed from its constructor through its first and its later calls: a data page is read from the recorded start and length of a selected page and carries that page\'s selection; '
           'the first call reads the dictionary, from the start of the chunk to the start of its first page, exactly when the two differ; only pages without selected rows are passed over.')
    rs = [i for i in readers(P) if any('FilteredPage' in x for x in fieldtypes(P, i)) and not i.get('cor')]
    c.floor('readers of selected pages', len(rs), 1)
    for i in rs:
        adt = P.T[P.T[i['tys'][1]]['a'][0]]['p']
        ms = [P.I[x] for x in sorted(makers(P, adt)) if P.I[x].get('identity')]
        c.floor('constructors of ' + short(adt), len(ms), 1)
        for j in ms:
            indexed(c, P, i, j, adt)


def indexed(c, P, i, j, adt):
    name = short(adt)
    where = '%s:%s' % (i['file'], i['line'])
    c.analysed[i['p']] = c.analysed[j['p']] = 1
    E = Engine(P, Client(P), 60, 256, True)
    ex, ev, fr = E.run(j, [mk('sym', 'new%d of %s' % (k, j['id']), ty=E.scalar(j['tys'][k + 1])) for k in range(j['argc'])], State())
    ad = P.adts[adt]['variants'][0]
    fields = ad['f']
    done, todo = set(), []
    for s, v in ex:
        if v.op == 'agg' and v.a[0] == adt:
            todo.append((1, list(v.a[2:])))
    calls = 0
    while todo and calls < 6:
        call, vals = todo.pop()
        # what the reader decides by keeps its value, everything else is arbitrary
        for k, t in enumerate(ad['t']):
            v = vals[k]
            const = v.op in ('int', 'num') or (v.op == 'agg' and v.a[0] in P.adts and P.adts[v.a[0]].get('enum') and all(isinstance(x, Node) and x.op in ('int', 'num') for x in v.a[2:]))
            if not const:
                vals[k] = mk('sym', '%s of %s' % (fields[k], name), ty=E.scalar(P.tybystr[t]) if t in P.tybystr else (t if t in ('u64', 'usize', 'i64') else None))
        key = (call, tuple(vals))
        if key in done:
            continue
        done.add(key)
        calls += 1
        cl = Indexed(P)
        E = Engine(P, cl, 60, 256, True)
        st = State()
        root = ('p', mk('sym', 'the reader'))
        st.mem[root] = agg(adt, 0, *vals)
        pages = next(vals[k] for k, t in enumerate(ad['t']) if 'FilteredPage' in t)
        first = E.getk(pages, ('i', num(0, 'usize')), st)
        # the start of the chunk: the unsigned 64-bit integer of the reader
        starts_ = [vals[k] for k, t in enumerate(ad['t']) if t == 'u64']
        col = starts_[0] if len(starts_) == 1 else None
        if col is not None and call == 1:
            fs0 = fpage(E, P, st, first, 'start')
            n0 = E.length(pages, st)
            cl.facts = (lambda s: E.entails_le(s, fs0, col), lambda s: E.entails_le(s, n0, num(0, 'usize')))
        ex, ev, fr = E.run(i, [E.ref(root, ())], st)
        r = Run(P, i)
        r.E, r.ex, r.ev, r.cl = E, ex, ev, cl
        n = 'first' if call == 1 else 'later'

        def same(s, a, b):
            return a is not None and b is not None and (a is b or (E.is_int(a) and E.is_int(b) and E.entails_le(s, a, b) and E.entails_le(s, b, a)))
        for s, k, pg, w in r.outcomes():
            at, lim = cl.ghost(s, 'at'), cl.ghost(s, 'lim')
            fstart = fpage(E, P, s, first, 'start')
            if k == 'data':
                sel = field(E, s, pg, 'selected_rows')
                for s1, o in M.split_enum(E, s, sel, OPT):
                    got = o.a[2] if o.a[1] == 1 else None
                    fp = got.a[0] if got is not None and got.op == 'field' else None
                    c.ob(got is not None, 'selection %s %s' % (name, n), 'a page is handed out without the rows selected of it', w, 'every page carries a selection')
                    if got is None:
                        continue
                    idx = P.adts[local(P, 'FilteredPage')]['variants'][0]['f'].index('selected_rows')
                    own = fp is not None and got.a[2] == idx
                    c.ob(own, 'own selection %s %s' % (name, n), 'the rows attached to a page are not those selected of it', w, 'the selection is that of the page')
                    if not own:
                        continue
                    c.ob(same(s1, at, fpage(E, P, s1, fp, 'start')), 'start %s %s' % (name, n), 'a page is not read from the start recorded for it', w, 'each page is read from its own start')
                    c.ob(same(s1, lim, fpage(E, P, s1, fp, 'length')), 'length %s %s' % (name, n), 'a page is not read for the length recorded for it', w, 'each page is read for its own length')
                    c.ob(fp.op == 'elem' or fp.op not in ('phi', 'mut'), 'page %s %s' % (name, n), 'the page is not one of those selected', w)
                    c.ob(str(fp).endswith(',0)') or fp.op != 'elem', 'order %s %s' % (name, n), 'the pages are not read in their order', w, 'the pages are read from the front')
                    if call == 1 and col is not None:
                        c.ob(E.entails_le(s1, fstart, col), 'dictionary first ' + name, 'a data page is handed out first although the chunk starts with a dictionary page', w, 'a data page comes first only without a dictionary')
            elif k == 'dict':
                x = cl.ghost(s, 'popped')
                if x is not None:
                    # a selected page whose header says that it is a dictionary
                    c.ob(same(s, at, fpage(E, P, s, x, 'start')) and same(s, lim, fpage(E, P, s, x, 'length')), 'place %s %s' % (name, n), 'a selected page is not read from its own place', w, 'each page is read from its own place')
                    if call == 1 and col is not None:
                        c.ob(E.entails_le(s, fstart, col), 'dictionary first ' + name, 'a selected page is handed out first although the chunk starts with a dictionary page', w, 'a selected page comes first only without a dictionary')
                    continue
                c.ob(call == 1, 'dictionary once ' + name, 'the dictionary page is handed out after the first call', w, 'the dictionary comes first')
                if col is None or call != 1:
                    continue
                c.ob(same(s, at, col), 'dictionary start ' + name, 'the dictionary page is not read from the start of the chunk', w, 'the dictionary is read from the start of the chunk')
                d = E.arith('sub', fstart, col, 'u64')
                c.ob(same(s, lim, d), 'dictionary length ' + name, 'the dictionary page does not extend from the start of the chunk to its first page', w, 'the dictionary ends where the first page starts')
            elif k == 'none' and call == 1 and col is not None:
                c.ob(E.entails_le(s, fstart, col) or E.entails_le(s, E.length(pages, s), num(0, 'usize')), 'dictionary skipped ' + name, 'the dictionary page is not handed out', w, 'without a dictionary page, none is handed out')
            if k in ('data', 'dict'):
                v = s.mem.get(root)
                if v is not None and v.op == 'agg':
                    todo.append((2, list(v.a[2:])))
        for b in cl.backs:
            c.ob(b, 'skipped ' + name, 'a page that has selected rows is passed over', where, 'only pages without selected rows are passed over')
    c.floor('calls of %s followed' % name, calls, 2)


def fpage(E, P, s, fp, f):
    return E.getk(fp, ('f', 0) + fidx(E, local(P, 'FilteredPage'), 0, f), s)
