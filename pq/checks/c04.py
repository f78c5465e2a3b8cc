"""C04: a read that returns fewer bytes than were asked for ends in an error.

Every read of a bounded number of bytes (`take(n).read_to_end`) is split into "n bytes arrived" and
"fewer arrived"; a path on which fewer arrived must end with an error."""
from ..core import Engine, Event, TooBig, mk, ok, err, UNIT
from .. import models as M
from ..frame import pmap
from .common import carries, top_functions, reaches

READS = ('read_to_end', 'read_exact', 'read', 'read_to_string', 'copy')
IOTRAITS = ('::io::read::Read', 'AsyncReadExt', 'io::copy')


class Client:
    def on_io(self, E, st, c, op):
        if op == 'io::read_to_end':
            rd, lim = M.reader_of(E, st, c.args[0])
            res = M.io_read_to_end(E, st, c)
            c.ev.append(Event('read', (op, lim is not None), st, c.fr, c.line))
            if lim is None:
                return res
            out = []
            for s, v in res:
                if v.a[1] == 1:
                    out.append((s, v))
                    continue
                k = v.a[2]
                s1 = s.copy()
                if E.assume(s1, E.cmp('le', lim, k), True):
                    out.append((s1, v))
                s2 = s.copy()
                if E.assume(s2, E.cmp('lt', k, lim), True):
                    w = '%s:%s' % (c.fr.inst.get('p', '?'), 'read')
                    s2.mon = tuple(sorted(set(s2.mon) | {w}))
                    out.append((s2, v))
            return out
        if op == 'stream::yield' and carries(E, st, c.args[-1]):
            s = st.copy()
            s.mon = ()
            return [(s, UNIT)]
        if op == 'io::read_exact':
            c.ev.append(Event('read', (op, True), st, c.fr, c.line))
        return None

    def on_call(self, E, st, c):
        if c.path in ('io::copy', 'alloc::io::copy::copy', 'std::io::copy::copy'):
            # copies until the end of the (limited) source
            rd, lim = M.reader_of(E, st, c.args[0])
            if lim is None:
                return None
            c.ev.append(Event('read', ('io::copy', True), st, c.fr, c.line))
            k = mk('eff', 'ncopied', c.site, ty='u64')
            E.forget(st, k)
            out = []
            s1 = st.copy()
            if E.assume(s1, E.cmp('eq', k, lim), True):
                out.append((s1, ok(k)))
            s2 = st.copy()
            if E.assume(s2, E.cmp('lt', k, lim), True):
                s2.mon = tuple(sorted(set(s2.mon) | {'%s:read' % c.fr.inst.get('p', '?')}))
                out.append((s2, ok(k)))
            out.append((st.copy(), err(mk('eff', 'ioerr', c.site, mk('str', 'io::copy')))))
            return out
        if c.decl in PLAIN or c.path in ('io::read',):
            c.ev.append(Event('plain', c.decl, st, c.fr, c.line))
        return None


PLAIN = ('alloc::io::read::Read::read', 'alloc::io::read::Read::read_to_string', 'futures_util::io::AsyncReadExt::read')


def analyse(P, i):
    E = Engine(P, Client(), budget=400000)
    try:
        ex, ev, fr = E.run(i)
    except TooBig:
        return 'big'
    out = []
    for st, r in ex:
        if st.mon:
            out.append((list(st.mon), carries(E, st, r), str(r)[:160]))
    evs = sorted({(e.kind, str(e.data), e.fr.inst['p']) for e in ev if e.kind in ('read', 'plain')})
    return out, evs


def check(c):
    P = c.P
    c.rule('Every path of every reading entry point on which a bounded read delivered fewer bytes than requested ends in an error; single-shot reads whose count is unbounded are not used.')
    rs = top_functions(P, lambda p: p.split('::')[-1] in READS and any(x in p for x in IOTRAITS))
    sites = set()
    nshort = 0
    for i, r in zip(rs, pmap(lambda i: analyse(P, i), rs)):
        if r == 'big':
            c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
            continue
        out, evs = r
        c.analysed[i['p']] = 1
        for k, d, p in evs:
            sites.add((k, p, d))
            if k == 'plain':
                c.violation('plain-read ' + p, 'a read that may deliver any number of bytes is used in ' + p)
        for mon, good, v in out:
            nshort += 1
            for m in mon:
                c.ob(good, 'short-read ' + m.rsplit(':read', 1)[0], 'fewer bytes than requested in %s do not make %s fail; it returns %s' % (m, i['p'], v), '%s:%s' % (i['file'], i['line']), '%s short read at %s' % (i['p'], m))
    c.cov['short_paths'] = nshort
    c.floor('read sites', len([s for s in sites if s[0] == 'read']), 10)
    c.floor('entry points', len(rs), 12)
