"""C33: determinism, and effects only on what the caller supplied.

Effect analysis over the resolved calls of every function, plus a taint rule for the order of hash
collections."""
import re
from ..core import Engine, TooBig
from ..frame import pmap, prog
from .. import models as M
from .common import callgraph, reaches, carries, top_functions

DENY = [
    (r'^<?(std|alloc|core)::fs\b|^<?std::(fs|path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_dir))', 'file system'),
    (r'^<?std::(net|os)\b', 'network or operating system'),
    (r'^<?std::env\b', 'environment'),
    (r'^<?std::process\b|^std::process::abort', 'process'),
    (r'^<?std::thread\b', 'threads'),
    (r'^<?std::time::(SystemTime|Instant)|^<?(std|core)::time::(SystemTime|Instant)', 'clock'),
    (r'stdio::|::(_print|_eprint)$|^<?std::io::(stdin|stdout|stderr)', 'standard streams'),
    (r'RandomState::new|^<?(rand|getrandom|fastrand)::|std::random|core::random', 'randomness'),
    (r'^<?std::sync::(Once|OnceLock|LazyLock|Mutex|RwLock)|sync::atomic::', 'shared state'),
    (r'thread::local::|LocalKey', 'thread-local state'),
    (r'panic::(catch_unwind|set_hook|take_hook|update_hook)|^<?std::panicking', 'panic hooks'),
    (r'::expose_provenance|core::ptr::.*::addr$|fmt::pointer|Argument::<.*>::new_pointer|Location::<.*>::caller', 'addresses or code positions'),
    (r'^<?std::backtrace', 'backtraces'),
]
HASH = re.compile(r'^(&(mut )?)*std::collections::hash::(set|map)::(HashSet|HashMap)<')
SAFE = {'len', 'is_empty', 'contains', 'contains_key', 'get', 'get_mut', 'get_key_value', 'insert', 'remove', 'remove_entry', 'entry', 'clone', 'eq', 'ne', 'reserve', 'capacity', 'clear', 'is_subset', 'is_superset',
        'is_disjoint', 'deref', 'deref_mut', 'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'take', 'replace', 'drop', 'into', 'from', 'shrink_to_fit', 'get_or_insert_with', 'extend', 'branch', 'unwrap', 'expect',
        'ok_or', 'ok_or_else', 'map', 'map_err', 'and_then', 'from_residual', 'from_output', 'index', 'default', 'swap', 'new', 'fmt'}
SORT = re.compile(r'::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$')
FREE = {'any', 'all', 'count', 'sum', 'min', 'max', 'product', 'min_by_key', 'is_empty', 'len'}


class Client:
    def on_call(self, E, st, c):
        m = c.fn.get('m') or c.path.split('::')[-1]
        ty = [E.P.tys(t) if t is not None else '' for t in c.argtys]
        if any(HASH.match(t) for t in ty) and not c.path.startswith(E.P.crate + '::') and not c.path.startswith('<' + E.P.crate):
            k = next(j for j, t in enumerate(ty) if HASH.match(t))
            if m not in SAFE or (m == 'extend' and k > 0):
                v = c.args[k]
                for _ in range(3):
                    if v.op == 'ref' or v.op == 'call' and v.a[0] == '&':
                        v = E.content(st, v)
                c.ev.append(M.Event('hash', (c.fr.inst['p'], m), st, c.fr, c.line))
                if not E.entails_le(st, E.length(v), M.num(1, 'usize')):
                    s = st
                    s.mon = tuple(sorted(set(s.mon) | {'%s' % c.fr.inst['p'].split('::{closure')[0]}))
        if st.mon and (SORT.search(c.path) or SORT.search(c.decl)):
            st.mon = ()
        if st.mon and c.fn.get('trait') == 'core::iter::traits::iterator::Iterator':
            d = E.P.tys(c.dty) if c.dty is not None else ''
            if m in FREE or m == 'collect' and re.search(r'(HashSet|HashMap|BTreeSet|BTreeMap|BinaryHeap)<', d):
                st.mon = ()
        return None


def analyse(P, i):
    E = Engine(P, Client(), budget=400000)
    try:
        ex, ev, fr = E.run(i)
    except TooBig:
        return None
    bad = sorted({m for s, r in ex if s.mon and not carries(E, s, r) for m in s.mon})
    return bad, sorted({e.data for e in ev if e.kind == 'hash'})


def check(c):
    c.rule('No function of the crate calls into the file system, network, environment, process, threads, clock, randomness, standard streams, global synchronisation or panic hooks; no value depends on an address; '
           'whatever is taken out of a hash set or map in its own order is sorted, or has at most one element, before a result is returned.')
    n = calls = 0
    for cfg in ('full', 'serde'):
        P = prog(cfg)
        g = callgraph(P)
        for i in P.I:
            if 'err' in i or not i.get('local') or i.get('shim'):
                continue
            n += 1
            c.analysed[i['p']] = 1
            for nm in g[i['id']][1]:
                if nm.startswith(P.crate + '::'):
                    continue
                calls += 1
                for rx, what in DENY:
                    if re.search(rx, nm):
                        c.violation('%s in %s' % (what, i['p']), '%s calls %s (%s)' % (i['p'], nm, what), '%s:%s' % (i['file'], i['line']))
            for b in i['b']:
                for s in b[0]:
                    if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                        c.violation('address in ' + i['p'], 'a pointer is turned into a number in ' + i['p'], '%s:%s' % (i['file'], i['line']))
                    if s[0] == '=' and s[2][0] == 'tls':
                        c.violation('thread-local in ' + i['p'], 'thread-local state in ' + i['p'], '%s:%s' % (i['file'], i['line']))
    c.counts['obligations'] += calls
    c.counts['discharged'] += calls
    P = c.P
    # start at the functions that hold a hash collection; when something unordered leaves one, its
    # callers have to put it in order
    g = callgraph(P)
    callers = {}
    for i, (s, _) in g.items():
        for j in s:
            callers.setdefault(j, set()).add(i)
    todo = [i for i in P.I if 'err' not in i and i.get('local') and not i.get('shim') and (i.get('identity') or i.get('cor')) and '{closure' not in i['p'].replace('{closure#0}', '' if i.get('cor') else '{closure#0}')
            and any(HASH.match(P.tys(t)) for t in i.get('tys', ()))]
    hs, done, m, why = set(), set(), 0, {}
    for depth in range(5):
        todo = [i for i in todo if i['id'] not in done]
        if not todo:
            break
        nxt = {}
        for i, r in zip(todo, pmap(lambda i: analyse(P, i), todo)):
            done.add(i['id'])
            m += 1
            if r is None and depth:
                c.violation('hash order ' + why[i['id']], 'the order of a hash set or map taken in %s reaches %s, which is too large to show that it is put in order' % (why[i['id']], i['p']), '%s:%s' % (i['file'], i['line']))
                continue
            if r is None:
                c.violation('too-big ' + i['p'], 'function too large to analyse: ' + i['p'])
                continue
            bad, ev = r
            hs |= set(ev)
            up = [j for j in callers.get(i['id'], ()) if P.I[j].get('local') and j not in done]
            f = P.fnbypath.get(i['p'])
            if bad and up and not (f and f['pub']) and depth < 4:
                for j in up:
                    nxt[j] = P.I[j]
                    why[j] = ' '.join(bad)
                continue
            c.ob(not bad, 'hash order ' + ' '.join(bad or [i['p']]), 'the order of a hash set or map taken in %s reaches the result of %s' % (', '.join(bad), i['p']), '%s:%s' % (i['file'], i['line']), 'no unordered value leaves ' + i['p'])
        todo = list(nxt.values())
    c.cov['hash_iterations'] = sorted('%s: %s' % x for x in hs)
    c.floor('functions', n, 700)
    c.floor('functions with hash collections', m, 2)
