"""Semantics of the library functions whose MIR is not dumped (slices, vectors, iterators,
integer helpers, io, futures).  Every model returns a list of (state, value); None means
"no model": the call is inlined if MIR exists, else treated as an unknown function."""
from .core import (mk, num, agg, some, ok, err, NONE, UNIT, TRUE, FALSE, OPT, RES, POLL, INT, BITS, Node, FnBox, Frame, Event)

VEC = 'alloc::vec::Vec'
RANGE = 'core::ops::range::Range'


class Fail(Exception):
    pass


# ------------------------------------------------------------------ helpers
def content(E, st, a):
    return E.content(st, a)


def seq(E, st, a):
    """the sequence value behind a slice/vector reference (or the value itself)"""
    if a.op in ('vec', 'store', 'slc', 'bytes'):
        return a
    if a.op == 'agg' and a.a[0] == 'array':
        return a
    return E.content(st, a)


def require(E, st, c, kind, cond):
    """a condition whose failure panics; returns False when the path is dead"""
    v = E.evalcond(st, cond)
    if E.client is not None and hasattr(E.client, 'on_require'):
        E.client.on_require(E, st, c, kind, cond, v)
    if v is True:
        return True
    c.ev.append(Event('oblig', (kind, cond, v), st.copy(), c.fr, c.line))
    if v is False:
        return False
    return E.assume(st, cond, True)


def lt(E, a, b):
    return E.cmp('lt', a, b)


def le(E, a, b):
    return E.cmp('le', a, b)


def branch(E, st, cond):
    """[(state, truth)]"""
    v = E.evalcond(st, cond)
    out = []
    for t in (True, False):
        if v is not None and v != t:
            continue
        s = st.copy() if v is None else st
        if E.assume(s, cond, t):
            out.append((s, t))
    return out


def tyargs(E, tid):
    return E.P.T[tid]['a'] if tid is not None else []


def tystr(E, tid):
    return E.P.T[tid]['s'] if tid is not None else '?'


def tykind(E, tid):
    if tid is None:
        return ('?', None)
    T = E.P.T[tid]
    return (T['k'], T.get('p'))


def addpath(E, ref, key):
    r, p = E.target(ref)
    return E.ref(r, p + (key,))


def vlen(E, st, c, i=0):
    return E.length(seq(E, st, c.args[i]))


H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def apply(E, st, c):
    f = H.get(c.path)
    if f is None:
        f = H.get(c.decl)
    if f is not None:
        return f(E, st, c)
    t = c.fn.get('trait')
    if t == 'core::iter::traits::iterator::Iterator':
        m = c.fn['m']
        if c.fn.get('k') == 'item' and c.fn.get('i') is not None and E.P.I[c.fn['i']].get('local'):
            return None
        f = ITER.get(m)
        if f is not None:
            return f(E, st, c)
    if t is not None and t in TR:
        return TR[t](E, st, c)
    for pre, f in PREFIX:
        if c.path.startswith(pre) or c.decl.startswith(pre):
            r = f(E, st, c)
            if r is not None:
                return r
    if t == 'core::future::future::Future' and c.fn['m'] == 'poll':
        return poll(E, st, c)
    return None


TR = {}
ITER = {}


def it(*names):
    def d(f):
        for n in names:
            ITER[n] = f
        return f
    return d


# ------------------------------------------------------------------ panics
PANICS = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'std::rt::begin_panic', 'core::slice::index::slice_', 'core::slice::copy_from_slice_impl::len_mismatch_fail')


def do_panic(E, st, c):
    msg = ''
    for a in c.args:
        s = a
        try:
            s = E.content(st, a) if a.op == 'ref' else a
        except Exception:
            pass
        if s.op == 'str':
            msg = s.a[0]
    c.ev.append(Event('panic', (c.path, msg), st.copy(), c.fr, c.line))
    if E.client is not None and hasattr(E.client, 'on_panic'):
        E.client.on_panic(E, st, c, msg)
    return []


PREFIX = [(p, do_panic) for p in PANICS]


# ------------------------------------------------------------------ slices
@h('core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'alloc::collections::vec_deque::VecDeque::<T, A>::len', 'core::str::<impl str>::len', 'alloc::string::String::len',
   'std::collections::hash::set::HashSet::<T, S, A>::len')
def s_len(E, st, c):
    return [(st, E.length(seq(E, st, c.args[0])))]


@h('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::collections::vec_deque::VecDeque::<T, A>::is_empty')
def s_is_empty(E, st, c):
    return [(st, E.cmp('eq', E.length(seq(E, st, c.args[0])), num(0, 'usize')))]


@h('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
   'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
   '<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::vec::Vec::<T, A>::into_boxed_slice',
   'core::array::<impl [T; N]>::as_slice', 'core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
   '<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut', '<[T] as core::convert::AsRef<[T]>>::as_ref', '<[T] as core::convert::AsMut<[T]>>::as_mut',
   '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow', '<str as core::convert::AsRef<str>>::as_ref', 'core::hint::must_use', 'core::hint::black_box',
   'alloc::io::read::Read::by_ref', 'alloc::io::write::Write::by_ref', 'core::io::write::Write::by_ref',
   'core::iter::traits::iterator::Iterator::by_ref', 'core::convert::identity', 'core::pin::Pin::<&mut T>::get_mut',
   '<F as core::future::into_future::IntoFuture>::into_future', 'core::array::<impl core::convert::AsMut<[T]> for [T; N]>::as_mut',
   'alloc::vec::Vec::<T, A>::shrink_to_fit_id')
def s_same(E, st, c):
    return [(st, c.args[0])]


@h('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut')
def s_asref(E, st, c):
    # generic AsRef<[u8]> parameter: a view of the same bytes
    return [(st, c.args[0])]


def rng_of(E, st, r, n):
    """(start, end) of a range value over a sequence of length n"""
    k = r.a[0] if r.op == 'agg' else ''
    z = num(0, 'usize')
    if k == RANGE:
        return r.a[2], r.a[3], None
    if k.endswith('RangeFrom'):
        return r.a[2], n, None
    if k.endswith('RangeTo'):
        return z, r.a[2], None
    if k.endswith('RangeFull'):
        return z, n, None
    if k.endswith('RangeInclusive'):
        return r.a[2], E.arith('add', r.a[3], num(1), 'usize'), None
    if k.endswith('RangeToInclusive'):
        return z, E.arith('add', r.a[2], num(1), 'usize'), None
    if r.op in ('sym', 'field', 'elem', 'phi', 'deref') and isinstance(r.ty, int):
        T = E.P.T[r.ty]
        if T['k'] == 'adt' and T['p'] == RANGE:
            return E.getk(r, ('f', 0, 0, 'usize')), E.getk(r, ('f', 0, 1, 'usize')), None
    return None


@h('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
   '<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut',
   'core::array::<impl core::ops::index::Index<I> for [T; N]>::index', 'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut',
   'core::str::traits::<impl core::ops::index::Index<I> for str>::index', '<alloc::string::String as core::ops::index::Index<I>>::index',
   '<alloc::collections::vec_deque::VecDeque<T, A> as core::ops::index::Index<usize>>::index',
   'core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def s_index(E, st, c):
    s, i = c.args
    v = seq(E, st, s)
    n = E.length(v)
    if E.is_int(i):
        if not require(E, st, c, 'index', lt(E, i, n)):
            return []
        return [(st, addpath(E, s, ('i', i)))]
    r = rng_of(E, st, i, n)
    if r is None:
        return None
    a, b, _ = r
    if not require(E, st, c, 'slice order', le(E, a, b)):
        return []
    if not require(E, st, c, 'slice end', le(E, b, n)):
        return []
    return [(st, subref(E, st, s, a, b, n))]


def subref(E, st, s, a, b, n):
    if a.op == 'int' and a.a[0] == 0 and b is n:
        return s
    return addpath(E, s, ('s', a, b))


@h('core::slice::<impl [T]>::get', 'alloc::collections::vec_deque::VecDeque::<T, A>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def s_get(E, st, c):
    s, i = c.args
    v = seq(E, st, s)
    n = E.length(v)
    if E.is_int(i):
        out = []
        for s2, t in branch(E, st, lt(E, i, n)):
            out.append((s2, some(addpath(E, s, ('i', i))) if t else NONE))
        return out
    r = rng_of(E, st, i, n)
    if r is None:
        return None
    a, b, _ = r
    out = []
    for s2, t in branch(E, st, le(E, a, b)):
        if not t:
            out.append((s2, NONE))
            continue
        for s3, t2 in branch(E, s2, le(E, b, n)):
            out.append((s3, some(subref(E, s3, s, a, b, n)) if t2 else NONE))
    return out


@h('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def s_first(E, st, c):
    s = c.args[0]
    n = E.length(seq(E, st, s))
    idx = num(0, 'usize') if 'first' in c.path else E.arith('sub', n, num(1), 'usize')
    out = []
    for s2, t in branch(E, st, lt(E, num(0, 'usize'), n)):
        out.append((s2, some(addpath(E, s, ('i', idx))) if t else NONE))
    return out


@h('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def s_split_at(E, st, c):
    s, i = c.args
    n = E.length(seq(E, st, s))
    if not require(E, st, c, 'split_at', le(E, i, n)):
        return []
    return [(st, agg('tuple', 0, subref(E, st, s, num(0, 'usize'), i, n), subref(E, st, s, i, n, n)))]


@h('core::slice::<impl [T]>::split_at_checked')
def s_split_at_checked(E, st, c):
    s, i = c.args
    n = E.length(seq(E, st, s))
    out = []
    for s2, t in branch(E, st, le(E, i, n)):
        out.append((s2, some(agg('tuple', 0, subref(E, s2, s, num(0, 'usize'), i, n), subref(E, s2, s, i, n, n))) if t else NONE))
    return out


@h('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def s_copy(E, st, c):
    d, s = c.args
    dv, sv = seq(E, st, d), seq(E, st, s)
    if not require(E, st, c, 'copy_from_slice', E.cmp('eq', E.length(dv), E.length(sv))):
        return []
    r, p = E.target(d)
    overwrite(E, st, r, p, sv)
    return [(st, UNIT)]


def overwrite(E, st, r, p, sv):
    """replace the whole content of a slice place with sv (same length)"""
    if p and p[-1][0] == 's':
        E.write(st, r, p, sv)
    else:
        E.write(st, r, p, sv)


@h('core::slice::<impl [T]>::fill')
def s_fill(E, st, c):
    d, v = c.args
    r, p = E.target(d)
    n = E.length(seq(E, st, d))
    E.write(st, r, p, mk('vec', n, v))
    return [(st, UNIT)]


@h('core::slice::<impl [T]>::reverse', 'alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def s_perm(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    E.write(st, r, p, mk('perm', v, c.path.split('::')[-1], ty=v.ty))
    return [(st, UNIT)]


@h('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned',
   'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<T as alloc::string::ToString>::to_string', '<str as alloc::string::ToString>::to_string',
   '<alloc::string::String as core::convert::From<&str>>::from', '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from', 'alloc::string::String::from',
   '<str as alloc::string::SpecToString>::spec_to_string', '<alloc::string::String as core::clone::Clone>::clone')
def s_owned(E, st, c):
    v = seq(E, st, c.args[0])
    if c.path.endswith('to_string') and not (v.op == 'str' or (c.argtys[0] is not None and tystr(E, c.argtys[0]).lstrip('&') in ('str', 'alloc::string::String'))):
        return [(st, mk('call', 'to_string', v))]
    alloc(E, st, c, E.length(v), 'to_vec')
    return [(st, v)]


def clone(E, st, c):
    if c.fn.get('m') not in (None, 'clone'):
        return None
    v = E.content(st, c.args[0])
    return [(st, v)]


TR['core::clone::Clone'] = clone


def alloc(E, st, c, n, how):
    if E.client is not None and hasattr(E.client, 'on_alloc'):
        E.client.on_alloc(E, st, c, n, how)


# --------------------------------------------------------------------- Vec
@h('alloc::vec::Vec::<T>::new', 'alloc::string::String::new', 'alloc::collections::vec_deque::VecDeque::<T>::new')
def v_new(E, st, c):
    return [(st, mk('vec', num(0, 'usize'), mk('anyof'), ty=c.dty))]


@h('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity', 'alloc::collections::vec_deque::VecDeque::<T>::with_capacity')
def v_cap(E, st, c):
    alloc(E, st, c, c.args[0], 'with_capacity')
    return [(st, mk('vec', num(0, 'usize'), mk('anyof'), ty=c.dty))]


@h('alloc::vec::from_elem')
def v_from_elem(E, st, c):
    alloc(E, st, c, c.args[1], 'vec![x; n]')
    return [(st, mk('vec', c.args[1], c.args[0], ty=c.dty))]


@h('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::reserve_exact', 'alloc::string::String::reserve')
def v_reserve(E, st, c):
    alloc(E, st, c, c.args[1], 'reserve')
    return [(st, UNIT)]


@h('alloc::vec::Vec::<T, A>::try_reserve', 'alloc::vec::Vec::<T, A>::try_reserve_exact')
def v_try_reserve(E, st, c):
    return [(st.copy(), ok(UNIT)), (st.copy(), err(mk('eff', 'try_reserve_error', c.site)))]


@h('alloc::vec::Vec::<T, A>::capacity')
def v_capacity(E, st, c):
    n = mk('call', 'capacity', E.content(st, c.args[0]), ty='usize')
    return [(st, n)]


def vparts(E, v):
    """(len, element summary, base) of a vector value"""
    if v.op == 'vec':
        return v.a[0], v.a[1]
    if v.op == 'uninit':
        return num(0, 'usize'), mk('anyof')
    return E.length(v), mk('elems', v)


def elem_summary(E, v, st=None):
    """summary of all elements of a sequence"""
    if v.op == 'vec':
        return v.a[1]
    if v.op == 'agg' and v.a[0] == 'array':
        e = mk('anyof')
        for x in v.a[2:]:
            e = E.anyof(e, x)
        return e
    if v.op == 'store' and len(v.a) == 2:
        return E.anyof(elem_summary(E, v.a[0]), elem_summary(E, v.a[1]) if v.a[1].op in ('vec', 'slc', 'store') else v.a[1])
    return mk('elems', v)


@h('alloc::vec::Vec::<T, A>::push', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back', 'alloc::string::String::push')
def v_push(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    E.write(st, r, p, mk('vec', E.arith('add', n, num(1), 'usize'), E.anyof(e, c.args[1]), ty=v.ty))
    if E.client is not None and hasattr(E.client, 'on_push'):
        E.client.on_push(E, st, c, r, p, v, c.args[1])
    return [(st, UNIT)]


@h('alloc::vec::Vec::<T, A>::pop', 'alloc::collections::vec_deque::VecDeque::<T, A>::pop_front', 'alloc::collections::vec_deque::VecDeque::<T, A>::pop_back')
def v_pop(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    out = []
    for s, t in branch(E, st, lt(E, num(0, 'usize'), n)):
        if not t:
            out.append((s, NONE))
            continue
        n1 = E.arith('sub', n, num(1), 'usize')
        if v.op == 'vec':
            E.write(s, r, p, mk('vec', n1, e, ty=v.ty))
            x = e
        elif c.path.endswith('front'):
            E.write(s, r, p, mk('slc', v, num(1, 'usize'), n, ty=v.ty) if v.op != 'slc' else E.subslice(v, num(1, 'usize'), n))
            x = E.getk(v, ('i', num(0, 'usize')))
        else:
            E.write(s, r, p, E.subslice(v, num(0, 'usize'), n1))
            x = E.getk(v, ('i', n1))
        out.append((s, some(x)))
    return out


@h('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def v_remove(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    if not require(E, st, c, 'remove', lt(E, c.args[1], n)):
        return []
    E.write(st, r, p, mk('vec', E.arith('sub', n, num(1), 'usize'), e, ty=v.ty))
    return [(st, E.getk(v, ('i', c.args[1])))]


@h('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear', 'alloc::collections::vec_deque::VecDeque::<T, A>::clear')
def v_clear(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    E.write(st, r, p, mk('vec', num(0, 'usize'), mk('anyof'), ty=v.ty))
    return [(st, UNIT)]


@h('alloc::vec::Vec::<T, A>::truncate')
def v_truncate(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    out = []
    for s, t in branch(E, st, lt(E, c.args[1], n)):
        if t:
            E.write(s, r, p, mk('vec', c.args[1], e, ty=v.ty) if v.op == 'vec' else E.subslice(v, num(0, 'usize'), c.args[1]))
        out.append((s, UNIT))
    return out


@h('alloc::vec::Vec::<T, A>::resize')
def v_resize(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    alloc(E, st, c, c.args[1], 'resize')
    zero = n.op == 'int' and n.a[0] == 0
    E.write(st, r, p, mk('vec', c.args[1], c.args[2] if zero else E.anyof(e, c.args[2]), ty=v.ty))
    return [(st, UNIT)]


@h('alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::append')
def v_extend_slice(E, st, c):
    r, p = E.target(c.args[0])
    v = E.read(st, r, p)
    n, e = vparts(E, v)
    s = seq(E, st, c.args[1])
    m = E.length(s)
    alloc(E, st, c, m, 'extend_from_slice')
    if n.op == 'int' and n.a[0] == 0:
        nv = s if s.op != 'vec' else mk('vec', m, s.a[1], ty=v.ty)
    else:
        nv = mk('vec', E.arith('add', n, m, 'usize'), E.anyof(e, mk('elems', s) if s.op != 'vec' else s.a[1]), ty=v.ty)
    E.write(st, r, p, nv)
    if E.client is not None and hasattr(E.client, 'on_push'):
        E.client.on_push(E, st, c, r, p, v, mk('slice', s))
    if c.path.endswith('append'):
        r2, p2 = E.target(c.args[1])
        E.write(st, r2, p2, mk('vec', num(0, 'usize'), mk('anyof'), ty=s.ty))
    return [(st, UNIT)]


@h('alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq', 'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq',
   'core::str::traits::<impl core::cmp::PartialEq for str>::eq', '<alloc::string::String as core::cmp::PartialEq>::eq', 'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq',
   'alloc::vec::partial_eq::<impl core::cmp::PartialEq<[U; N]> for alloc::vec::Vec<T, A>>::eq', 'alloc::vec::partial_eq::<impl core::cmp::PartialEq<&[U; N]> for alloc::vec::Vec<T, A>>::eq',
   'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>::eq', 'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::eq',
   '<alloc::collections::vec_deque::VecDeque<T, A> as core::cmp::PartialEq>::eq', '<parquet_format_safe::parquet_format::PageType as core::cmp::PartialEq>::eq',
   '<parquet_format_safe::parquet_format::Type as core::cmp::PartialEq>::eq',
   'core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::eq', 'core::cmp::PartialEq::eq')
def s_eq(E, st, c):
    a, b = c.args
    for _ in range(3):
        if a.op == 'ref' or a.op in ('deref',) or (isinstance(a.ty, int) and tykind(E, a.ty)[0] == 'ref'):
            a = E.content(st, a)
        if b.op == 'ref' or b.op in ('deref',) or (isinstance(b.ty, int) and tykind(E, b.ty)[0] == 'ref'):
            b = E.content(st, b)
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and isinstance(a.a[1], int) and a.a[0] not in ('array', 'closure') and len(a.a) == 2 and len(b.a) == 2:
        return [(st, TRUE if a.a[1] == b.a[1] else FALSE)]
    if a.op == 'str' and b.op == 'str':
        return [(st, TRUE if a.a[0] == b.a[0] else FALSE)]
    t = c.argtys[0]
    while t is not None and E.P.T[t]['k'] == 'ref':
        t = E.P.T[t]['a'][0]
    adt = E.adt_of(t) if t is not None else None
    if adt and E.P.is_enum(adt):
        if all(not v['f'] for v in E.P.adts[adt]['variants']):
            return [(st, E.cmp('eq', E.discr(a, adt), E.discr(b, adt)))]
        if c.fn.get('i') is not None and E.P.I[c.fn['i']].get('local'):
            return None
    elif adt and adt.startswith(E.P.crate + '::') and c.fn.get('i') is not None and E.P.I[c.fn['i']].get('local'):
        return None
    ka = c.path.find('parquet_format::') >= 0
    if ka:
        # newtype over the code
        fa = E.getk(a, ('f', 0, 0, 'i32'))
        fb = E.getk(b, ('f', 0, 0, 'i32'))
        return [(st, E.cmp('eq', fa, fb))]
    return [(st, E.cmp('eq', a, b))]


@h('core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::ne', 'core::cmp::PartialEq::ne', '<alloc::string::String as core::cmp::PartialEq>::ne')
def s_ne(E, st, c):
    # `a != b` of a type with a local eq: the default method calls it
    t = c.argtys[0]
    while t is not None and E.P.T[t]['k'] == 'ref':
        t = E.P.T[t]['a'][0]
    adt = E.adt_of(t) if t is not None else None
    if adt and adt.startswith(E.P.crate + '::') and (c.path == 'core::cmp::PartialEq::ne' or c.path.startswith('core::cmp::impls::')) and c.fn.get('i') is not None and 'err' not in E.P.I[c.fn['i']]:
        return None
    r = s_eq(E, st, c)
    if r is None:
        return None
    return [(s, E.bnot(v)) for s, v in r]


@h('alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_ascii_uppercase', 'alloc::str::<impl str>::to_ascii_lowercase')
def s_case(E, st, c):
    v = seq(E, st, c.args[0])
    if v.op != 'str':
        return None
    return [(st, mk('str', v.a[0].upper() if 'upper' in c.path else v.a[0].lower()))]


@h('core::str::<impl str>::eq_ignore_ascii_case')
def s_eqcase(E, st, c):
    a, b = seq(E, st, c.args[0]), seq(E, st, c.args[1])
    if a.op == 'str' and b.op == 'str':
        return [(st, TRUE if a.a[0].lower() == b.a[0].lower() else FALSE)]
    return None


@h('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def i_discr(E, st, c):
    v = E.content(st, c.args[0])
    adt = None
    if c.argtys[0] is not None:
        T = E.P.T[c.argtys[0]]
        if T['k'] == 'ref':
            adt = E.adt_of(T['a'][0])
    return [(st, E.discr(v, adt))]


@h('core::intrinsics::unreachable', 'core::hint::unreachable_unchecked')
def i_unreachable(E, st, c):
    return []


# ------------------------------------------------------------------- memory
@h('core::mem::replace')
def m_replace(E, st, c):
    r, p = E.target(c.args[0])
    old = E.read(st, r, p)
    E.write(st, r, p, c.args[1])
    return [(st, old)]


@h('core::mem::swap')
def m_swap(E, st, c):
    r, p = E.target(c.args[0])
    r2, p2 = E.target(c.args[1])
    a, b = E.read(st, r, p), E.read(st, r2, p2)
    E.write(st, r, p, b)
    E.write(st, r2, p2, a)
    return [(st, UNIT)]


def default_of(E, tid):
    if tid is None:
        return None
    T = E.P.T[tid]
    s = T['s']
    if s == 'bool':
        return FALSE
    if s in INT:
        return num(0, s)
    if T['k'] == 'adt':
        if T['p'] in (VEC, 'alloc::string::String', 'alloc::collections::vec_deque::VecDeque'):
            return mk('vec', num(0, 'usize'), mk('anyof'), ty=tid)
        if T['p'] == OPT:
            return NONE
        a = E.P.adts.get(T['p'])
        if a and not a['enum'] and not a['variants'][0]['f']:
            return agg(T['p'], 0)
    if T['k'] == 'tuple' and not T['a']:
        return UNIT
    return None


@h('core::mem::take')
def m_take(E, st, c):
    r, p = E.target(c.args[0])
    old = E.read(st, r, p)
    d = default_of(E, c.dty) if c.dty is not None else None
    if d is None and old.op == 'vec':
        d = mk('vec', num(0, 'usize'), mk('anyof'), ty=old.ty)
    if d is None and old.op == 'agg' and old.a[0] == OPT:
        d = NONE
    if d is None:
        d = mk('call', 'default', mk('ty', c.dty))
    E.write(st, r, p, d)
    return [(st, old)]


def dflt(E, st, c):
    d = default_of(E, c.dty)
    if d is not None:
        return [(st, d)]
    return None


TR['core::default::Default'] = dflt


@h('alloc::boxed::Box::<T>::new', 'alloc::rcs::arc::Arc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::boxed::Box::<T>::pin', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::rc::Rc::<T>::new')
def b_new(E, st, c):
    return [(st, agg('box', 0, c.args[0]))]


@h('alloc::boxed::box_new_uninit')
def b_unin(E, st, c):
    return [(st, agg('box', 0, mk('uninit')))]


@h('alloc::boxed::box_assume_init_into_vec_unsafe')
def b_into_vec(E, st, c):
    v = c.args[0]
    if v.op == 'agg' and v.a[0] == 'box':
        v = v.a[2]
    for _ in range(4):
        # MaybeUninit, ManuallyDrop
        if v.op == 'agg' and v.a[0] != 'array' and len(v.a) == 3 and hasattr(v.a[2], 'op'):
            v = v.a[2]
        elif v.op == 'rec' and len(v.a) == 3:
            v = v.a[2]
    return [(st, v)] if v.op == 'agg' and v.a[0] == 'array' else None


@h('<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref', '<alloc::sync::Arc<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref',
   '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut', '<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::sync::Arc<T, A> as core::convert::AsRef<T>>::as_ref',
   '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref')
def b_deref(E, st, c):
    a = c.args[0]
    v = E.content(st, a)
    if v.op == 'agg' and v.a[0] == 'box':
        return [(st, addpath(E, a, ('b',)))]
    return [(st, mk('call', 'arc', v, ty=c.dty))]


# ------------------------------------------------------------------ integers
def int_ty(E, c):
    t = c.argtys[0]
    if t is not None:
        s = tystr(E, t)
        if s in INT:
            return s
    t = c.args[0].ty
    return t if t in INT else None


def exact(E, c, op):
    return E.arith(op, c.args[0], c.args[1], int_ty(E, c))


def within(E, x, ty):
    lo, hi = INT[ty]
    return mk('b_and', E.cmp('le', num(lo), x), E.cmp('le', x, num(hi)), ty='bool')


def int_method(E, st, c):
    name = c.path.split('::')[-1]
    ty = int_ty(E, c)
    if ty is None or c.path.split('::')[1] != 'num':
        return None
    a = c.args
    if name in ('checked_add', 'checked_sub', 'checked_mul'):
        x = exact(E, c, name[8:])
        o = mk('ovf', name[8:], a[0], a[1], ty, ty='bool')
        r = False if (x.op == 'int' and INT[ty][0] <= x.a[0] <= INT[ty][1]) else E.eval_ovf(st, o)
        if r is False:
            return [(st, some(x))]
        if r is True:
            return [(st, NONE)]
        out = []
        s = st.copy()
        if E.assume(s, o, False):
            out.append((s, some(x)))
        s = st.copy()
        if E.assume(s, o, True):
            out.append((s, NONE))
        return out
    if name in ('saturating_sub',):
        x = exact(E, c, 'sub')
        if INT[ty][0] == 0:
            if E.in_range(st, x, ty):
                return [(st, x)]
            return [(st, mk('satsub', a[0], a[1], ty=ty))]
        return [(st, mk('call', name, *a, ty=ty))]
    if name in ('saturating_add', 'saturating_mul'):
        x = exact(E, c, name[11:])
        if E.in_range(st, x, ty):
            return [(st, x)]
        if INT[ty][0] == 0:
            return [(st, mk('min', x, num(INT[ty][1]), ty=ty))]
        return [(st, mk('call', name, *a, ty=ty))]
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        x = exact(E, c, name[9:])
        if x.op == 'int':
            return [(st, E.int_cast(st, num(x.a[0]), 'i128', ty) if ty not in ('u128', 'i128') else x)]
        if E.in_range(st, x, ty):
            return [(st, x)]
        return [(st, mk('wrap', x, ty, ty=ty))]
    if name in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'):
        x = exact(E, c, name[12:])
        return [(st, agg('tuple', 0, mk('wrap', x, ty, ty=ty), mk('ovf', name[12:], a[0], a[1], ty, ty='bool')))]
    if name in ('min', 'max') and len(a) == 2:
        return minmax(E, st, c)
    if name in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        n = BITS[ty] // 8
        return [(st, agg('array', 0, *[mk('call', name, a[0], num(i), ty='u8') for i in range(n)]))]
    if name in ('pow',):
        if a[0].op == 'int' and a[1].op == 'int':
            return [(st, num(a[0].a[0] ** a[1].a[0], ty))]
        return [(st, mk('call', 'pow', *a, ty=ty))]
    if name == 'div_ceil':
        # exact: (a + b - 1) / b for b constant > 0
        if a[1].op == 'int' and a[1].a[0] > 0:
            return [(st, mk('div', E.arith('add', a[0], num(a[1].a[0] - 1), ty), a[1], ty=ty))]
        return [(st, mk('call', 'div_ceil', *a, ty=ty))]
    if name in ('leading_zeros', 'trailing_zeros', 'count_ones'):
        n = mk('call', name, *a, ty='u32')
        n.rng = (0, BITS[ty])
        return [(st, n)]
    if name in ('rem_euclid', 'div_euclid', 'abs', 'unsigned_abs', 'is_power_of_two', 'next_power_of_two', 'checked_div', 'checked_rem', 'signum', 'rotate_left', 'rotate_right', 'ilog2', 'swap_bytes', 'reverse_bits'):
        return None
    return None


PREFIX += [('core::num::<impl ', int_method)]


@h('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def minmax(E, st, c):
    a, b = c.args
    name = c.path.split('::')[-1]
    if not (E.is_int(a) and E.is_int(b)):
        if c.fn.get('i') is not None and not E.P.I[c.fn['i']].get('local'):
            return [(st, mk('call', name, a, b, ty=a.ty))]
        return None
    if a.op == 'int' and b.op == 'int':
        return [(st, num((min if name == 'min' else max)(a.a[0], b.a[0]), a.ty))]
    if E.entails_le(st, a, b):
        return [(st, a if name == 'min' else b)]
    if E.entails_le(st, b, a):
        return [(st, b if name == 'min' else a)]
    if a.id > b.id:
        a, b = b, a
    return [(st, mk(name, a, b, ty=a.ty or b.ty))]


def from_bytes(E, st, c):
    name = c.path.split('::')[-1]
    if name in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        return [(st, mk('call', name, c.args[0], ty=E.scalar(c.dty) if c.dty is not None else None))]
    return None


PREFIX += [('core::num::<impl ', from_bytes), ('core::f32::<impl f32>', from_bytes), ('core::f64::<impl f64>', from_bytes)]


def int_cmp(E, st, c):
    """PartialOrd / Ord on integers through references or values"""
    name = c.fn.get('m')
    if len(c.args) != 2:
        return None
    a, b = c.args
    t = c.argtys[0]
    T = E.P.T[t] if t is not None else None
    while T is not None and T['k'] == 'ref':
        a = E.content(st, a)
        b = E.content(st, b)
        t = T['a'][0]
        T = E.P.T[t]
    if T is None or T['s'] not in INT:
        return None
    if name in ('lt', 'le'):
        return [(st, E.cmp(name, a, b))]
    if name == 'gt':
        return [(st, E.cmp('lt', b, a))]
    if name == 'ge':
        return [(st, E.cmp('le', b, a))]
    if name in ('eq', 'ne'):
        return [(st, E.cmp(name, a, b))]
    return None


TR['core::cmp::PartialOrd'] = int_cmp
TR['core::cmp::PartialEq'] = int_cmp


# ---------------------------------------------------------------- iterators
def mkit(kind, *f):
    return agg('it', kind, *f)


def ty_node(t):
    return mk('ty', t)


def slice_it(E, st, ref, mut=False):
    v = seq(E, st, ref)
    if E.client is not None and hasattr(E.client, 'on_iter'):
        E.client.on_iter(E, st, ref, v)
    return mkit('slice', ref, num(0, 'usize'), E.length(v))


def own_it(E, st, v):
    if E.client is not None and hasattr(E.client, 'on_iter'):
        E.client.on_iter(E, st, None, v)
    return mkit('own', v, num(0, 'usize'), E.length(v))


@h('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a [T]>::into_iter',
   'core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &\'a mut [T]>::into_iter', "<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
   "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter",
   "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter", 'alloc::collections::vec_deque::VecDeque::<T, A>::iter', 'alloc::collections::vec_deque::VecDeque::<T, A>::iter_mut',
   "<&'a alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def i_slice(E, st, c):
    return [(st, slice_it(E, st, c.args[0]))]


@h('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', 'core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter',
   '<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', '<std::collections::hash::set::HashSet<T, S, A> as core::iter::traits::collect::IntoIterator>::into_iter', '<alloc::collections::btree::set::BTreeSet<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def i_own(E, st, c):
    return [(st, own_it(E, st, c.args[0]))]


@h('<core::option::Option<T> as core::iter::traits::collect::IntoIterator>::into_iter')
def i_opt(E, st, c):
    return [(st, mkit('opt', c.args[0]))]


@h('<I as core::iter::traits::collect::IntoIterator>::into_iter')
def i_id(E, st, c):
    return [(st, c.args[0])]


@h('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_exact_mut', 'core::slice::<impl [T]>::windows')
def i_chunks(E, st, c):
    s, n = c.args
    name = c.path.split('::')[-1].replace('_mut', '')
    if not require(E, st, c, 'chunk size', lt(E, num(0, 'usize'), n)):
        return []
    ln = E.length(seq(E, st, s))
    if name == 'chunks_exact':
        return [(st, mkit('chunks_exact', s, num(0, 'usize'), ln, n))]
    return [(st, mkit(name, s, num(0, 'usize'), ln, n))]


@h("core::slice::iter::ChunksExact::<'a, T>::remainder", "core::slice::iter::ChunksExactMut::<'a, T>::into_remainder")
def i_rem(E, st, c):
    v = c.args[0]
    if v.op != 'agg':
        v = E.content(st, v)
    v2 = materialize(E, st, v)
    if v2 is None:
        return None
    b, pos, end, size = v2.a[2:6]
    # the remainder starts after the last whole chunk
    r = mk('rem', end, size, ty='usize')
    a = E.arith('sub', end, r, 'usize')
    return [(st, addpath(E, b, ('s', a, end)))]


@h('core::iter::sources::once::once')
def i_once(E, st, c):
    return [(st, mkit('opt', some(c.args[0])))]


@h('core::iter::sources::repeat::repeat')
def i_repeat(E, st, c):
    return [(st, mkit('repeat', c.args[0]))]


@h('core::iter::sources::empty::empty')
def i_empty(E, st, c):
    return [(st, mkit('opt', NONE))]


def ty0(c):
    return ty_node(c.argtys[0]) if c.argtys and c.argtys[0] is not None else ty_node(None)


@it('map', 'filter', 'filter_map', 'flat_map', 'take_while', 'skip_while', 'map_while', 'inspect')
def a_fn(E, st, c):
    if c.fn['m'] == 'flat_map':
        t = item_ty_flat(E, c)
        k, p = tykind(E, t)
        # before the first of the inner collections: an empty one
        cur = some(mkit('own', mk('vec', num(0, 'usize'), mk('anyof'), ty=t), num(0, 'usize'), num(0, 'usize'))) if p == VEC or k == 'array' else NONE
        return [(st, mkit('flat_map', c.args[0], c.args[1], ty0(c), cur, ty_node(t)))]
    return [(st, mkit(c.fn['m'], c.args[0], c.args[1], ty0(c)))]


def item_ty_flat(E, c):
    if c.dty is None:
        return None
    a = E.P.T[c.dty].get('a') or []
    return a[1] if len(a) > 1 else None


@it('zip')
def a_zip(E, st, c):
    t2 = None
    if c.dty is not None:
        t2 = E.P.T[c.dty]['a'][1]
    out = []
    for s, b in into_iter(E, st, c, c.args[1], c.argtys[1]):
        out.append((s, mkit('zip', c.args[0], b, ty0(c), ty_node(t2))))
    return out


@it('chain')
def a_chain(E, st, c):
    t2 = None
    if c.dty is not None:
        t2 = E.P.T[c.dty]['a'][1]
    out = []
    for s, b in into_iter(E, st, c, c.args[1], c.argtys[1]):
        out.append((s, mkit('chain', c.args[0], b, ty0(c), ty_node(t2), num(0))))
    return out


def into_iter(E, st, c, v, tid):
    """IntoIterator::into_iter on an argument (zip, chain, extend)"""
    if v.op == 'agg' and v.a[0] in ('it', RANGE):
        return [(st, v)]
    k, p = tykind(E, tid)
    if p in (VEC, 'alloc::collections::vec_deque::VecDeque') or (k == 'array'):
        return [(st, own_it(E, st, v))]
    if p == OPT:
        return [(st, mkit('opt', v))]
    if k == 'ref':
        k2, p2 = tykind(E, E.P.T[tid]['a'][0])
        if k2 in ('array', 'slice') or p2 in (VEC, 'alloc::collections::vec_deque::VecDeque'):
            return [(st, slice_it(E, st, v))]
    return [(st, v)]


@it('enumerate')
def a_enum(E, st, c):
    return [(st, mkit('enumerate', c.args[0], num(0, 'usize'), ty0(c)))]


@it('take', 'skip')
def a_take(E, st, c):
    return [(st, mkit(c.fn['m'], c.args[0], c.args[1], ty0(c)))]


@it('cloned', 'copied')
def a_copied(E, st, c):
    return [(st, mkit('copied', c.args[0], ty0(c)))]


@it('rev', 'peekable', 'fuse', 'step_by')
def a_wrap(E, st, c):
    if c.fn['m'] == 'fuse':
        return [(st, c.args[0])]
    if c.fn['m'] == 'step_by':
        return None
    if c.fn['m'] == 'peekable':
        return [(st, mkit('peekable', c.args[0], ty0(c), NONE, num(0)))]
    return [(st, mkit(c.fn['m'], c.args[0], ty0(c)))]


def materialize(E, st, v):
    """view an unknown std iterator value as a modelled one"""
    if v.op == 'agg':
        return v
    t = v.ty
    if not isinstance(t, int):
        return None
    T = E.P.T[t]
    if T['k'] != 'adt':
        return None
    p = T['p']
    base = mk('itsrc', v)
    z = num(0, 'usize')
    if p in ('core::slice::iter::Iter', 'core::slice::iter::IterMut', 'alloc::collections::vec_deque::iter::Iter'):
        b = mk('itbase', v, ty=None)
        cont = mk('deref', b)
        cont.ty = slice_ty(E, T)
        return mkit('slice', b, z, E.length(cont))
    if p in ('core::slice::iter::ChunksExact', 'core::slice::iter::ChunksExactMut', 'core::slice::iter::Chunks', 'core::slice::iter::ChunksMut', 'core::slice::iter::Windows'):
        b = mk('itbase', v)
        cont = mk('deref', b)
        cont.ty = slice_ty(E, T)
        size = mk('itsize', v, ty='usize')
        size.rng = (1, 2**63 - 1)
        kind = {'ChunksExact': 'chunks_exact', 'ChunksExactMut': 'chunks_exact', 'Chunks': 'chunks', 'ChunksMut': 'chunks', 'Windows': 'windows'}[p.split('::')[-1]]
        return mkit(kind, b, z, E.length(cont), size)
    if p == 'alloc::vec::into_iter::IntoIter':
        b = mk('itbase', v)
        b.ty = None
        return mkit('own', b, z, E.length(b))
    a = [x for x in T['a']]
    if p == 'core::iter::adapters::map::Map':
        return mkit('map', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty=a[1]), ty_node(a[0]))
    if p == 'core::iter::adapters::zip::Zip':
        return mkit('zip', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty=a[1]), ty_node(a[0]), ty_node(a[1]))
    if p == 'core::iter::adapters::copied::Copied' or p == 'core::iter::adapters::cloned::Cloned':
        return mkit('copied', mk('itf', v, 0, ty=a[0]), ty_node(a[0]))
    if p == 'core::iter::adapters::take::Take':
        return mkit('take', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty='usize'), ty_node(a[0]))
    if p == 'core::iter::adapters::skip::Skip':
        return mkit('skip', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty='usize'), ty_node(a[0]))
    if p == 'core::iter::adapters::enumerate::Enumerate':
        return mkit('enumerate', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty='usize'), ty_node(a[0]))
    if p == 'core::iter::adapters::filter::Filter':
        return mkit('filter', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty=a[1]), ty_node(a[0]))
    if p == 'core::iter::adapters::filter_map::FilterMap':
        return mkit('filter_map', mk('itf', v, 0, ty=a[0]), mk('itf', v, 1, ty=a[1]), ty_node(a[0]))
    if p == RANGE:
        return agg(RANGE, 0, E.getk(v, ('f', 0, 0, E.scalar(a[0]))), E.getk(v, ('f', 0, 1, E.scalar(a[0]))))
    return None


def slice_ty(E, T):
    """type id of [T] for an iterator over T"""
    for x in T['a']:
        s = '[%s]' % E.P.T[x]['s']
        if s in E.P.tybystr:
            return E.P.tybystr[s]
    return None


def fld(kind, i):
    return ('f', kind, i)


def it_next(E, st, c, ref, nextfn=None, tag='n', back=False):
    """-> [(state, Option value)]"""
    root, path = E.target(ref)
    v = E.read(st, root, path)
    for _ in range(4):
        # &mut I
        if v.op == 'ref':
            root, path = E.target(v)
            v = E.read(st, root, path)
        elif v.op == 'agg' and v.a[0] == 'box':
            path = path + (('b',),)
            v = v.a[2]
        else:
            break
    if v.op != 'agg':
        m = materialize(E, st, v)
        if m is not None:
            st = st.copy()
            E.write(st, root, path, m)
            v = m
    if hook(E, 'on_step'):
        E.client.on_step(E, st, c, root, path, v)
    if v.op == 'agg' and v.a[0] == 'it':
        f = NEXT.get(v.a[1])
        if f is not None:
            return f(E, st, c, root, path, v, tag, back)
    if v.op == 'agg' and v.a[0] == RANGE:
        a, b = v.a[2], v.a[3]
        out = []
        for s, t in branch(E, st, lt(E, a, b)):
            if t:
                if back:
                    b1 = E.arith('sub', b, num(1), b.ty or 'usize')
                    E.write(s, root, path, agg(RANGE, 0, a, b1))
                    out.append((s, some(b1)))
                else:
                    E.write(s, root, path, agg(RANGE, 0, E.arith('add', a, num(1), a.ty or 'usize'), b))
                    for s2 in orself(E.client.on_count(E, s, c, a, b) if hook(E, 'on_count') else None, s):
                        out.append((s2, some(a)))
            else:
                if hook(E, 'on_count') and E.client.on_count(E, s, c, None, b) is False:
                    continue
                out.append((s, NONE))
        return out
    if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('RangeFrom'):
        a = v.a[2]
        s = st.copy()
        E.write(s, root, path, agg(v.a[0], 0, E.arith('add', a, num(1), a.ty or 'usize')))
        return [(s, some(a))]
    if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('RangeInclusive') and len(v.a) >= 5:
        a, b, ex = v.a[2], v.a[3], v.a[4]
        out = []
        for s0, t0 in branch(E, st, ex):
            if t0:
                out.append((s0, NONE))
                continue
            for s, t in branch(E, s0, le(E, a, b)):
                if t:
                    for s2, t2 in branch(E, s, lt(E, a, b)):
                        E.write(s2, root, path, agg(v.a[0], 0, E.arith('add', a, num(1), a.ty or 'usize') if t2 else a, b, FALSE if t2 else TRUE))
                        out.append((s2, some(a)))
                else:
                    out.append((s, NONE))
        return out
    # local implementation
    if nextfn is not None:
        iid = nextfn.get('i')
        if iid is not None:
            return split_opt(E, E.call_fn(st, c, nextfn, [E.ref(root, path)], None, tag), c, tag)
    t = v.ty if isinstance(v.ty, int) else None
    if t is None and v.op == 'agg' and isinstance(v.a[0], str):
        for tid, f in E.P.iter_next.items():
            T = E.P.T[tid]
            if T['k'] == 'adt' and T['p'] == v.a[0] and f.get('i') is not None:
                return split_opt(E, E.call_fn(st, c, f, [E.ref(root, path)], None, tag), c, tag)
    if t is not None and t in E.P.iter_next:
        f = E.P.iter_next[t]
        if f.get('i') is not None:
            return split_opt(E, E.call_fn(st, c, f, [E.ref(root, path)], None, tag), c, tag)
    return opaque_next(E, st, c, root, path, v, nextfn, tag)


def split_opt(E, res, c, tag):
    """make the variant of a returned Option explicit"""
    out = []
    for st, r in res:
        if r.op == 'agg':
            out.append((st, r))
            continue
        vs = E.variants(st, r, OPT)
        if 0 in vs:
            s = st.copy()
            if E.assume_var(s, r, OPT, 0, True):
                out.append((s, NONE))
        if 1 in vs:
            s = st.copy()
            if E.assume_var(s, r, OPT, 1, True):
                t = None
                if isinstance(r.ty, int) and E.P.T[r.ty].get('a'):
                    t = E.scalar(E.P.T[r.ty]['a'][0])
                out.append((s, some(E.getk(r, ('f', 1, 0, t)))))
    return out


def opaque_next(E, st, c, root, path, v, nextfn, tag):
    st = st.copy()
    if E.client is not None and hasattr(E.client, 'on_next'):
        r = E.client.on_next(E, st, c, root, path, v, tag)
        if r is not None:
            return r
    base = v
    while base.op == 'mut' and base.a[0] == 'next':
        base = base.a[3]
    r = mk('eff', 'next', c.site + (tag,), base, ty=c.dty if tag == 'direct' else None)
    E.forget(st, r)
    E.write(st, root, path, mk('mut', 'next', c.site + (tag,), 0, base, ty=v.ty))
    return split_opt(E, [(st, r)], c, tag)


NEXT = {}


def nx(*ks):
    def d(f):
        for k in ks:
            NEXT[k] = f
        return f
    return d


@nx('slice', 'own')
def n_slice(E, st, c, root, path, v, tag, back):
    b, pos, end = v.a[2], v.a[3], v.a[4]
    out = []
    for s, t in branch(E, st, lt(E, pos, end)):
        if not t:
            if hook(E, 'on_end') and E.client.on_end(E, s, b, pos) is False:
                continue
            out.append((s, NONE))
            continue
        if back:
            i = E.arith('sub', end, num(1), 'usize')
            E.write(s, root, path + (fld(v.a[1], 2),), i)
        else:
            i = pos
            E.write(s, root, path + (fld(v.a[1], 1),), E.arith('add', pos, num(1), 'usize'))
        x = addpath(E, b, ('i', i)) if v.a[1] == 'slice' else E.getk(b, ('i', i))
        for s2 in orself(E.client.on_elem(E, s, c, b, i, x, back) if hook(E, 'on_elem') else None, s):
            out.append((s2, some(x)))
    return out


def orself(r, s):
    return [s] if r is None else r


def hook(E, name):
    return E.client is not None and hasattr(E.client, name)


@nx('chunks_exact')
def n_chunks_exact(E, st, c, root, path, v, tag, back):
    b, pos, end, size = v.a[2:6]
    e = E.arith('add', pos, size, 'usize')
    out = []
    for s, t in branch(E, st, le(E, e, end)):
        if not t:
            out.append((s, NONE))
            continue
        E.write(s, root, path + (fld('chunks_exact', 1),), e)
        out.append((s, some(addpath(E, b, ('s', pos, e)))))
    return out


@nx('windows')
def n_windows(E, st, c, root, path, v, tag, back):
    b, pos, end, size = v.a[2:6]
    e = E.arith('add', pos, size, 'usize')
    out = []
    for s, t in branch(E, st, le(E, e, end)):
        if not t:
            out.append((s, NONE))
            continue
        E.write(s, root, path + (fld('windows', 1),), E.arith('add', pos, num(1), 'usize'))
        out.append((s, some(addpath(E, b, ('s', pos, e)))))
    return out


@nx('chunks')
def n_chunks(E, st, c, root, path, v, tag, back):
    b, pos, end, size = v.a[2:6]
    out = []
    for s, t in branch(E, st, lt(E, pos, end)):
        if not t:
            out.append((s, NONE))
            continue
        e = E.arith('add', pos, size, 'usize')
        if E.entails_le(s, e, end):
            m = e
        elif E.entails_le(s, end, e):
            m = end
        else:
            x, y = (e, end) if e.id < end.id else (end, e)
            m = mk('min', x, y, ty='usize')
        E.write(s, root, path + (fld('chunks', 1),), m)
        out.append((s, some(addpath(E, b, ('s', pos, m)))))
    return out


@nx('opt')
def n_opt(E, st, c, root, path, v, tag, back):
    out = []
    for s, o in split_opt(E, [(st, v.a[2])], c, tag):
        s = s.copy()
        E.write(s, root, path + (fld('opt', 0),), NONE)
        out.append((s, o))
    return out


@nx('repeat')
def n_repeat(E, st, c, root, path, v, tag, back):
    return [(st, some(v.a[2]))]


def sub(E, root, path, kind, i):
    return E.ref(root, path + (fld(kind, i),))


def inner_fn(E, tynode):
    t = tynode.a[0]
    if t is None:
        return None
    return E.P.iter_next.get(t)


@nx('map')
def n_map(E, st, c, root, path, v, tag, back):
    out = []
    for s, o in it_next(E, st, c, sub(E, root, path, 'map', 0), inner_fn(E, v.a[4]), tag + 'm', back):
        if o.a[1] == 0:
            out.append((s, NONE))
            continue
        for s2, r in E.call_value(s, c, sub(E, root, path, 'map', 1), [o.a[2]], None, tag + 'mf'):
            out.append((s2, some(r)))
    return out


@nx('inspect')
def n_inspect(E, st, c, root, path, v, tag, back):
    return it_next(E, st, c, sub(E, root, path, 'inspect', 0), inner_fn(E, v.a[4]), tag + 'i', back)


@nx('copied')
def n_copied(E, st, c, root, path, v, tag, back):
    out = []
    for s, o in it_next(E, st, c, sub(E, root, path, 'copied', 0), inner_fn(E, v.a[3]), tag + 'c', back):
        out.append((s, some(E.content(s, o.a[2])) if o.a[1] == 1 else NONE))
    return out


@nx('enumerate')
def n_enumerate(E, st, c, root, path, v, tag, back):
    out = []
    for s, o in it_next(E, st, c, sub(E, root, path, 'enumerate', 0), inner_fn(E, v.a[4]), tag + 'e', back):
        if o.a[1] == 0:
            out.append((s, NONE))
            continue
        s = s.copy()
        i = E.read(s, root, path + (fld('enumerate', 1),))
        E.write(s, root, path + (fld('enumerate', 1),), E.arith('add', i, num(1), 'usize'))
        out.append((s, some(agg('tuple', 0, i, o.a[2]))))
    return out


@nx('take')
def n_take(E, st, c, root, path, v, tag, back):
    out = []
    n = v.a[3]
    for s, t in branch(E, st, lt(E, num(0, 'usize'), n)):
        if not t:
            out.append((s, NONE))
            continue
        E.write(s, root, path + (fld('take', 1),), E.arith('sub', n, num(1), 'usize'))
        out += it_next(E, s, c, sub(E, root, path, 'take', 0), inner_fn(E, v.a[4]), tag + 't', back)
    return out


@nx('skip')
def n_skip(E, st, c, root, path, v, tag, back):
    n = v.a[3]
    out = []
    for s, t in branch(E, st, lt(E, num(0, 'usize'), n)):
        if not t:
            out += it_next(E, s, c, sub(E, root, path, 'skip', 0), inner_fn(E, v.a[4]), tag + 's', back)
            continue
        inner = sub(E, root, path, 'skip', 0)
        iv = E.content(s, inner)
        if iv.op == 'agg' and iv.a[0] == 'it' and iv.a[1] in ('slice', 'own'):
            b, pos, end = iv.a[2:5]
            np_ = E.arith('add', pos, n, 'usize')
            for s2, t2 in branch(E, s, le(E, np_, end)):
                ir, ip = E.target(inner)
                E.write(s2, ir, ip + (fld(iv.a[1], 1),), np_ if t2 else end)
                E.write(s2, root, path + (fld('skip', 1),), num(0, 'usize'))
                out += it_next(E, s2, c, inner, inner_fn(E, v.a[4]), tag + 's', back)
            continue
        # unknown number of discarded items
        ir, ip = E.target(inner)
        iv = E.read(s, ir, ip)
        E.write(s, ir, ip, mk('mut', 'skip', c.site + (tag,), 0, iv, ty=iv.ty))
        E.write(s, root, path + (fld('skip', 1),), num(0, 'usize'))
        out += it_next(E, s, c, inner, inner_fn(E, v.a[4]), tag + 's', back)
    return out


@nx('zip')
def n_zip(E, st, c, root, path, v, tag, back):
    out = []
    for s, o in it_next(E, st, c, sub(E, root, path, 'zip', 0), inner_fn(E, v.a[4]), tag + 'z0', back):
        if o.a[1] == 0:
            out.append((s, NONE))
            continue
        for s2, o2 in it_next(E, s, c, sub(E, root, path, 'zip', 1), inner_fn(E, v.a[5]), tag + 'z1', back):
            if o2.a[1] == 0:
                out.append((s2, NONE))
            else:
                out.append((s2, some(agg('tuple', 0, o.a[2], o2.a[2]))))
    return out


@nx('chain')
def n_chain(E, st, c, root, path, v, tag, back):
    out = []
    k = v.a[6]
    if k.op == 'int' and k.a[0] == 0:
        for s, o in it_next(E, st, c, sub(E, root, path, 'chain', 0), inner_fn(E, v.a[4]), tag + 'h0', back):
            if o.a[1] == 1:
                out.append((s, o))
                continue
            s = s.copy()
            E.write(s, root, path + (fld('chain', 4),), num(1))
            out += it_next(E, s, c, sub(E, root, path, 'chain', 1), inner_fn(E, v.a[5]), tag + 'h1', back)
        return out
    if k.op == 'int':
        return it_next(E, st, c, sub(E, root, path, 'chain', 1), inner_fn(E, v.a[5]), tag + 'h1', back)
    a = it_next(E, st.copy(), c, sub(E, root, path, 'chain', 0), inner_fn(E, v.a[4]), tag + 'h0', back)
    for s, o in a:
        if o.a[1] == 1:
            out.append((s, o))
    out += it_next(E, st.copy(), c, sub(E, root, path, 'chain', 1), inner_fn(E, v.a[5]), tag + 'h1', back)
    return out


@nx('rev')
def n_rev(E, st, c, root, path, v, tag, back):
    return it_next(E, st, c, sub(E, root, path, 'rev', 0), inner_fn(E, v.a[3]), tag + 'r', not back)


@nx('filter', 'filter_map', 'take_while', 'skip_while', 'map_while')
def n_filter(E, st, c, root, path, v, tag, back):
    kind = v.a[1]
    inner = sub(E, root, path, kind, 0)
    fn = sub(E, root, path, kind, 1)

    def step(E, s, fr, accs):
        out = []
        for s1, o in it_next(E, s, c, inner, inner_fn(E, v.a[4]), tag + 'f', back):
            if o.a[1] == 0:
                out.append((s1, 'brk', NONE))
                continue
            x = o.a[2]
            if kind in ('filter_map', 'map_while'):
                for s2, r in E.call_value(s1, c, fn, [x], None, tag + 'ff'):
                    for s3, oo in split_opt(E, [(s2, r)], c, tag):
                        if oo.a[1] == 1:
                            out.append((s3, 'brk', oo))
                        else:
                            out.append((s3, 'cont', None) if kind == 'filter_map' else (s3, 'brk', NONE))
                continue
            s1 = s1.copy()
            cell = ('l', fr.id, 9)
            s1.mem[cell] = x
            for s2, r in E.call_value(s1, c, fn, [E.ref(cell, ())], None, tag + 'ff'):
                for s3, t in branch(E, s2, r):
                    if kind == 'skip_while':
                        t = not t
                    if t:
                        out.append((s3, 'brk', some(x)))
                    else:
                        out.append((s3, 'cont', None) if kind in ('filter', 'skip_while') else (s3, 'brk', NONE))
        return out
    return loop(E, st, c, [], step, tag + 'loop')


@nx('flat_map')
def n_flat_map(E, st, c, root, path, v, tag, back):
    inner = sub(E, root, path, 'flat_map', 0)
    fn = sub(E, root, path, 'flat_map', 1)
    slot = path + (fld('flat_map', 3),)
    uty = v.a[6].a[0]

    def step(E, s, fr, accs):
        out = []
        cur = E.read(s, root, slot)
        for s0, co in split_opt(E, [(s, cur)], c, tag):
            if co.a[1] == 1:
                s0 = s0.copy()
                E.write(s0, root, slot, co)
                for s1, o in it_next(E, s0, c, E.ref(root, slot + (('f', 1, 0),)), E.P.iter_next.get(uty), tag + 'u', back):
                    if o.a[1] == 1:
                        out.append((s1, 'brk', o))
                    else:
                        outer(s1.copy(), out)
                continue
            outer(s0, out)
        return out

    def outer(s0, out):
        for s1, o in it_next(E, s0, c, inner, inner_fn(E, v.a[4]), tag + 'f', back):
            if o.a[1] == 0:
                out.append((s1, 'brk', NONE))
                continue
            for s2, r in E.call_value(s1, c, fn, [o.a[2]], None, tag + 'ff'):
                for s3, iv in into_iter(E, s2, c, r, uty):
                    s3 = s3.copy()
                    E.write(s3, root, slot, some(iv))
                    out.append((s3, 'cont', None))
    return loop(E, st, c, [], step, tag + 'loop')


# -------------------------------------------------------- synthetic loops
LOOPS = {}


def syn_inst(kind):
    i = LOOPS.get(kind)
    if i is None:
        blk = lambda t: [[], t, 0, False]
        i = {'id': ('syn', kind), 'p': '<%s>' % kind, 'b': [blk(['goto', 1]), blk(['py', loop_block, [1, 2]]), blk(['ret'])],
             'tys': [0] * 12, 'argc': 0, 'local': False, 'file': '', 'line': 0, 'syn': True}
        LOOPS[kind] = i
    return i


def loop_block(E, fr, st, ev):
    step, ev_c = E.loops[fr.id]
    save = ev_c.ev
    ev_c.ev = ev
    try:
        out = []
        accs = None
        for s, ctl, val in step(E, st, fr, accs):
            if ctl == 'cont':
                out.append((1, s))
            else:
                s = s.copy()
                s.mem[('l', fr.id, 0)] = val
                out.append((2, s))
        return out
    finally:
        ev_c.ev = save


def loop(E, st, c, cells, step, tag):
    """iterate `step` to a fixpoint; cells: initial values of accumulator cells 2.."""
    inst = syn_inst('loop')
    fr = E.push_frame(inst, c.fr, c.site + (tag,), c.fr.depth + 1)
    if not hasattr(E, 'loops'):
        E.loops = {}
    E.loops[fr.id] = (step, c)
    st = st.copy()
    for k, v in enumerate(cells):
        st.mem[('l', fr.id, 2 + k)] = v
    evs = []
    ex = E.exec_body(fr, st, evs)
    c.ev.extend(evs)
    return ex


def acc(fr, k):
    return ('l', fr.id, 2 + k)


@it('next')
def c_next(E, st, c):
    return it_next(E, st, c, c.args[0], c.fn if c.fn.get('i') is not None or c.fn.get('k') == 'virtual' else None, 'direct')


def back_next(E, st, c):
    if c.fn['m'] == 'next_back':
        return it_next(E, st, c, c.args[0], None, 'direct', True)
    return None


TR['core::iter::traits::double_ended::DoubleEndedIterator'] = back_next

for _p in ('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next',):
    H[_p] = c_next


def consume(E, st, c, cells, on_item, final, tag='it', selfv=None, nextfn='self'):
    """drive an iterator passed by value (or by reference) to its end"""
    it0 = c.args[0] if selfv is None else selfv
    nf = c.fn.get('next') if nextfn == 'self' else nextfn
    inst = syn_inst('loop')
    fr0 = E.push_frame(inst, c.fr, c.site + (tag,), c.fr.depth + 1)
    cell = ('l', fr0.id, 1)
    st = st.copy()
    if it0.op == 'ref' or (isinstance(it0.ty, int) and tykind(E, it0.ty)[0] == 'ref'):
        itref = it0
    else:
        st.mem[cell] = it0
        itref = E.ref(cell, ())

    def step(E, s, fr, accs):
        out = []
        for s1, o in it_next(E, s, c, itref, nf, tag):
            if o.a[1] == 0:
                out.append((s1, 'brk', agg('done', 0)))
            else:
                out += on_item(E, s1, fr, o.a[2])
        return out
    # cells survive the loop: finals read them from the exit state before merge
    fin = []
    inst2 = syn_inst('loop')
    E.loops = getattr(E, 'loops', {})

    def step2(E, s, fr, accs):
        out = []
        for s1, ctl, val in step(E, s, fr, accs):
            if ctl == 'brk' and val.op == 'agg' and val.a[0] == 'done':
                for s2, v in final(E, s1, fr):
                    out.append((s2, 'brk', v))
            else:
                out.append((s1, ctl, val))
        return out
    return loop(E, st, c, cells, step2, tag)


@it('for_each')
def c_for_each(E, st, c):
    f = c.args[1]

    def on_item(E, s, fr, x):
        s = s.copy()
        return [(s2, 'cont', None) for s2, r in E.call_value(s, c, E.ref(acc(fr, 0), ()), [x], None, 'fe')]
    return consume(E, st, c, [f], on_item, lambda E, s, fr: [(s, UNIT)])


@it('fold')
def c_fold(E, st, c):
    def on_item(E, s, fr, x):
        out = []
        a = s.mem[acc(fr, 1)]
        for s2, r in E.call_value(s, c, E.ref(acc(fr, 0), ()), [a, x], None, 'fo'):
            s2 = s2.copy()
            s2.mem[acc(fr, 1)] = r
            out.append((s2, 'cont', None))
        return out
    return consume(E, st, c, [c.args[2], c.args[1]], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 1)])])


def split_enum(E, st, r, adt, tys=()):
    """[(state, agg)] one per possible variant of a Result/Option-like value"""
    if r.op == 'agg':
        return [(st, r)]
    out = []
    vs = E.variants(st, r, adt)
    a = None
    if isinstance(r.ty, int):
        a = E.P.T[r.ty].get('a')
    for v in sorted(vs):
        s = st.copy()
        if not E.assume_var(s, r, adt, v, True):
            continue
        nf = 0
        ad = E.P.adts.get(adt)
        if adt == RES:
            nf = 1
        elif adt == OPT:
            nf = v
        elif adt == CFP:
            nf = 1
        elif ad:
            nf = len(ad['variants'][v]['f'])
        fs = []
        for i in range(nf):
            t = None
            if a and adt == RES:
                t = E.scalar(a[v])
            elif a and adt == OPT:
                t = E.scalar(a[0])
            fs.append(E.getk(r, ('f', v, i, t)))
        out.append((s, agg(adt, v, *fs)))
    return out


CFP = 'core::ops::control_flow::ControlFlow'


def try_kind(E, r, tid):
    if r.op == 'agg':
        return r.a[0]
    if isinstance(r.ty, int):
        return E.adt_of(r.ty)
    return E.adt_of(tid) if tid is not None else RES


def try_split(E, st, c, r, dty):
    """[(state, is_continue, value)]"""
    k = try_kind(E, r, dty)
    out = []
    for s, v in split_enum(E, st, r, k):
        if k == RES:
            out.append((s, v.a[1] == 0, v))
        elif k == OPT:
            out.append((s, v.a[1] == 1, v))
        else:
            out.append((s, v.a[1] == 0, v))
    return out


def try_unit(k):
    if k == OPT:
        return some(UNIT)
    if k == RES:
        return ok(UNIT)
    return agg(CFP, 0, UNIT)


@it('try_for_each')
def c_try_for_each(E, st, c):
    def on_item(E, s, fr, x):
        out = []
        for s2, r in E.call_value(s, c, E.ref(acc(fr, 0), ()), [x], None, 'tfe'):
            for s3, go, v in try_split(E, s2, c, r, c.dty):
                out.append((s3, 'cont', None) if go else (s3, 'brk', v))
        return out
    return consume(E, st, c, [c.args[1]], on_item, lambda E, s, fr: [(s, try_unit(E.adt_of(c.dty) if c.dty is not None else RES))])


@it('try_fold')
def c_try_fold(E, st, c):
    def on_item(E, s, fr, x):
        out = []
        for s2, r in E.call_value(s, c, E.ref(acc(fr, 0), ()), [s.mem[acc(fr, 1)], x], None, 'tfo'):
            for s3, go, v in try_split(E, s2, c, r, c.dty):
                if go:
                    s3 = s3.copy()
                    s3.mem[acc(fr, 1)] = v.a[2]
                    out.append((s3, 'cont', None))
                else:
                    out.append((s3, 'brk', v))
        return out

    def final(E, s, fr):
        k = E.adt_of(c.dty) if c.dty is not None else RES
        a = s.mem[acc(fr, 1)]
        return [(s, some(a) if k == OPT else (ok(a) if k == RES else agg(CFP, 0, a)))]
    return consume(E, st, c, [c.args[2], c.args[1]], on_item, final)


@it('count')
def c_count(E, st, c):
    def on_item(E, s, fr, x):
        s = s.copy()
        s.mem[acc(fr, 0)] = E.arith('add', s.mem[acc(fr, 0)], num(1), 'usize')
        return [(s, 'cont', None)]
    return consume(E, st, c, [num(0, 'usize')], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 0)])])


@it('sum')
def c_sum(E, st, c):
    ty = tystr(E, c.dty)
    if ty not in INT:
        return None

    def on_item(E, s, fr, x):
        if x.op == 'ref':
            x = E.content(s, x)
        a = s.mem[acc(fr, 0)]
        o = mk('ovf', 'add', a, x, ty, ty='bool')
        s = s.copy()
        if not require(E, s, c, 'sum overflow', E.bnot(o)):
            return []
        s.mem[acc(fr, 0)] = E.arith('add', a, x, ty)
        return [(s, 'cont', None)]
    return consume(E, st, c, [num(0, ty)], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 0)])])


@it('any', 'all', 'find', 'position', 'find_map')
def c_search(E, st, c):
    m = c.fn['m']

    def on_item(E, s, fr, x):
        out = []
        s = s.copy()
        arg = x
        if m == 'find':
            s.mem[('l', fr.id, 8)] = x
            arg = E.ref(('l', fr.id, 8), ())
        for s2, r in E.call_value(s, c, E.ref(acc(fr, 0), ()), [arg], None, 'se'):
            if m == 'find_map':
                for s3, o in split_opt(E, [(s2, r)], c, 'se'):
                    out.append((s3, 'brk', o) if o.a[1] == 1 else (s3, 'cont', None))
                continue
            for s3, t in branch(E, s2, r):
                if m == 'any':
                    out.append((s3, 'brk', TRUE) if t else (s3, 'cont', None))
                elif m == 'all':
                    out.append((s3, 'cont', None) if t else (s3, 'brk', FALSE))
                elif m == 'find':
                    out.append((s3, 'brk', some(x)) if t else (s3, 'cont', None))
                else:
                    i = s3.mem[acc(fr, 1)]
                    if t:
                        out.append((s3, 'brk', some(i)))
                    else:
                        s3 = s3.copy()
                        s3.mem[acc(fr, 1)] = E.arith('add', i, num(1), 'usize')
                        out.append((s3, 'cont', None))
        return out
    end = {'any': FALSE, 'all': TRUE}.get(m, NONE)
    return consume(E, st, c, [c.args[1], num(0, 'usize')], on_item, lambda E, s, fr: [(s, end)])


@it('last')
def c_last(E, st, c):
    def on_item(E, s, fr, x):
        s = s.copy()
        s.mem[acc(fr, 0)] = some(x)
        return [(s, 'cont', None)]
    return consume(E, st, c, [NONE], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 0)])])


@it('nth')
def c_nth(E, st, c):
    ref, n = c.args
    root, path = E.target(ref)
    v = E.read(st, root, path)
    if v.op != 'agg':
        m = materialize(E, st, v)
        if m is not None:
            v = m
            E.write(st, root, path, v)
    if v.op == 'agg' and v.a[0] == 'it' and v.a[1] in ('slice', 'own'):
        b, pos, end = v.a[2:5]
        i = E.arith('add', pos, n, 'usize')
        out = []
        for s, t in branch(E, st, lt(E, i, end)):
            if t:
                E.write(s, root, path + (fld(v.a[1], 1),), E.arith('add', i, num(1), 'usize'))
                out.append((s, some(addpath(E, b, ('i', i)) if v.a[1] == 'slice' else E.getk(b, ('i', i)))))
            else:
                E.write(s, root, path + (fld(v.a[1], 1),), end)
                out.append((s, NONE))
        return out
    # step n times, then take one
    nf = c.fn.get('next')

    def step(E, s, fr, accs):
        out = []
        k = s.mem[acc(fr, 0)]
        for s0, t in branch(E, s, lt(E, num(0, 'usize'), k)):
            for s1, o in it_next(E, s0, c, ref, nf, 'nth'):
                if o.a[1] == 0 or not t:
                    out.append((s1, 'brk', o))
                else:
                    s1 = s1.copy()
                    s1.mem[acc(fr, 0)] = E.arith('sub', k, num(1), 'usize')
                    out.append((s1, 'cont', None))
        return out
    return loop(E, st, c, [n], step, 'nth')


@it('size_hint')
def c_size_hint(E, st, c):
    n = remaining(E, st, c.args[0])
    if n is None:
        v = E.content(st, c.args[0])
        lo = mk('call', 'size_hint.0', v, ty='usize')
        return [(st, agg('tuple', 0, lo, mk('call', 'size_hint.1', v)))]
    return [(st, agg('tuple', 0, n, some(n)))]


def remaining(E, st, ref):
    v = E.content(st, ref) if not (ref.op == 'agg') else ref
    if v.op == 'ref':
        return remaining(E, st, v)
    if v.op != 'agg':
        m = materialize(E, st, v)
        if m is None:
            return None
        v = m
    if v.a[0] == RANGE:
        return E.arith('sub', v.a[3], v.a[2], 'usize') if E.entails_le(st, v.a[2], v.a[3]) else mk('satsub', v.a[3], v.a[2], ty='usize')
    if v.a[0] != 'it':
        return None
    k = v.a[1]
    if k in ('slice', 'own'):
        return E.arith('sub', v.a[4], v.a[3], 'usize')
    if k == 'chunks_exact':
        return mk('div', E.arith('sub', v.a[4], v.a[3], 'usize'), v.a[5], ty='usize')
    if k in ('map', 'copied', 'enumerate', 'rev'):
        return remaining(E, st, v.a[2])
    if k == 'zip':
        a, b = remaining(E, st, v.a[2]), remaining(E, st, v.a[3])
        if a is None or b is None:
            return None
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return mk('min', a, b, ty='usize')
    if k == 'take':
        a = remaining(E, st, v.a[2])
        if a is None:
            return None
        b = v.a[3]
        if a.id > b.id:
            a, b = b, a
        return mk('min', a, b, ty='usize')
    return None


H['core::iter::traits::exact_size::ExactSizeIterator::len'] = lambda E, st, c: [(st, remaining(E, st, c.args[0]))] if remaining(E, st, c.args[0]) is not None else None


@it('max', 'min', 'max_by', 'min_by', 'reduce', 'max_by_key', 'min_by_key', 'cmp', 'eq')
def c_extreme(E, st, c):
    if c.fn['m'] not in ('max', 'min'):
        if c.fn['m'] == 'reduce':
            return c_reduce(E, st, c)
        return None

    def on_item(E, s, fr, x):
        s = s.copy()
        if x.op == 'ref':
            pass
        a = s.mem[acc(fr, 0)]
        s.mem[acc(fr, 0)] = some(x) if a.a[1] == 0 else some(mk('call', c.fn['m'], a.a[2], x, ty=x.ty))
        return [(s, 'cont', None)]
    return consume(E, st, c, [NONE], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 0)])])


def c_reduce(E, st, c):
    def on_item(E, s, fr, x):
        out = []
        for s0, o in split_opt(E, [(s, s.mem[acc(fr, 1)])], c, 'rd'):
            s0 = s0.copy()
            if o.a[1] == 0:
                s0.mem[acc(fr, 1)] = some(x)
                out.append((s0, 'cont', None))
                continue
            for s2, r in E.call_value(s0, c, E.ref(acc(fr, 0), ()), [o.a[2], x], None, 'rd'):
                s2 = s2.copy()
                s2.mem[acc(fr, 1)] = some(r)
                out.append((s2, 'cont', None))
        return out
    return consume(E, st, c, [c.args[1], NONE], on_item, lambda E, s, fr: [(s, s.mem[acc(fr, 1)])])


def container(E, tid):
    """what a collect target is: (kind, inner)"""
    if tid is None:
        return ('vec', None)
    T = E.P.T[tid]
    if T['k'] == 'adt':
        if T['p'] == RES:
            return ('res', T['a'][0])
        if T['p'] == OPT:
            return ('opt', T['a'][0])
        if T['p'] in (VEC, 'alloc::collections::vec_deque::VecDeque', 'alloc::boxed::Box', 'alloc::string::String'):
            return ('vec', tid)
        if 'HashSet' in T['p'] or 'HashMap' in T['p'] or 'BTree' in T['p']:
            return ('set', tid)
    if T['k'] == 'tuple' and not T['a']:
        return ('unit', tid)
    return ('?', tid)


@it('collect')
def c_collect(E, st, c):
    return collect(E, st, c, c.dty, None)


def collect(E, st, c, tid, selfv, nextfn='self'):
    wrap, inner = container(E, tid)
    target = tid
    if wrap in ('res', 'opt'):
        kind, target = container(E, inner)
    else:
        kind = wrap
    if kind == '?':
        return None

    def push(E, s, fr, x):
        s = s.copy()
        v = s.mem[acc(fr, 0)]
        if kind == 'unit':
            return [(s, 'cont', None)]
        if hook(E, 'on_push'):
            E.client.on_push(E, s, c, None, None, v, x)
        if kind == 'set':
            s.mem[acc(fr, 0)] = mk('vec', v.a[0], E.anyof(v.a[1], x), ty=target)
            return [(s, 'cont', None)]
        s.mem[acc(fr, 0)] = mk('vec', E.arith('add', v.a[0], num(1), 'usize'), E.anyof(v.a[1], x), ty=target)
        return [(s, 'cont', None)]

    def on_item(E, s, fr, x):
        if wrap == 'res':
            out = []
            for s2, r in split_enum(E, s, x, RES):
                if r.a[1] == 1:
                    out.append((s2, 'brk', r))
                else:
                    out += push(E, s2, fr, r.a[2])
            return out
        if wrap == 'opt':
            out = []
            for s2, r in split_opt(E, [(s, x)], c, 'col'):
                if r.a[1] == 0:
                    out.append((s2, 'brk', NONE))
                else:
                    out += push(E, s2, fr, r.a[2])
            return out
        return push(E, s, fr, x)

    def final(E, s, fr):
        v = s.mem[acc(fr, 0)]
        if kind == 'unit':
            v = UNIT
        if kind == 'set' and hook(E, 'on_set'):
            E.client.on_set(E, s, v)
        return [(s, ok(v) if wrap == 'res' else (some(v) if wrap == 'opt' else v))]
    init = mk('vec', num(0, 'usize'), mk('anyof'), ty=target) if kind == 'vec' else (mk('vec', mk('eff', 'setlen', c.site, ty='usize'), mk('anyof'), ty=target) if kind == 'set' else UNIT)
    return consume(E, st, c, [init], on_item, final, 'col', selfv, nextfn)


@it('unzip')
def c_unzip(E, st, c):
    def on_item(E, s, fr, x):
        s = s.copy()
        for k in (0, 1):
            v = s.mem[acc(fr, k)]
            s.mem[acc(fr, k)] = mk('vec', E.arith('add', v.a[0], num(1), 'usize'), E.anyof(v.a[1], E.getk(x, ('f', 0, k))))
        return [(s, 'cont', None)]
    e = mk('vec', num(0, 'usize'), mk('anyof'))
    return consume(E, st, c, [e, e], on_item, lambda E, s, fr: [(s, agg('tuple', 0, s.mem[acc(fr, 0)], s.mem[acc(fr, 1)]))])


@it('partition')
def c_partition(E, st, c):
    return None


def extend(E, st, c):
    if c.fn.get('m') != 'extend':
        return None
    dst = c.args[0]
    r, p = E.target(dst)
    t = c.argtys[0]
    k, ap = ('?', None)
    if t is not None and E.P.T[t]['k'] == 'ref':
        k, ap = tykind(E, E.P.T[t]['a'][0])
    if ap not in (VEC, 'alloc::collections::vec_deque::VecDeque'):
        return None
    out = []
    for s0, itv in into_iter(E, st, c, c.args[1], c.argtys[1]):
        def on_item(E, s, fr, x):
            s = s.copy()
            if x.op == 'ref' and '&' in tystr(E, c.argtys[1]) and c.path.find("Extend<&'a T>") >= 0:
                x = E.content(s, x)
            v = E.read(s, r, p)
            n, e = vparts(E, v)
            E.write(s, r, p, mk('vec', E.arith('add', n, num(1), 'usize'), E.anyof(e, x), ty=v.ty))
            if E.client is not None and hasattr(E.client, 'on_push'):
                E.client.on_push(E, s, c, r, p, v, x)
            return [(s, 'cont', None)]
        out += consume(E, s0, c, [], on_item, lambda E, s, fr: [(s, UNIT)], 'ext', itv, c.fn.get('next'))
    return out


TR['core::iter::traits::collect::Extend'] = extend


def from_iter(E, st, c):
    if c.fn.get('m') != 'from_iter':
        return None
    out = []
    for s0, itv in into_iter(E, st, c, c.args[0], c.argtys[0]):
        r = collect(E, s0, c, c.dty, itv, c.fn.get('next'))
        if r is None:
            return None
        out += r
    return out


TR['core::iter::traits::collect::FromIterator'] = from_iter


# ------------------------------------------------------------------ futures
@h('core::pin::Pin::<P>::new_unchecked', 'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new')
def p_new(E, st, c):
    return [(st, agg('core::pin::Pin', 0, c.args[0]))]


def poll(E, st, c):
    """await of a future that is not a local coroutine"""
    f = E.unpin(st, c.args[0])
    if c.fn.get('i') is not None and not (f.op == 'agg' and f.a[0] == 'fut'):
        inst = E.P.I[c.fn['i']]
        if 'err' not in inst and inst.get('cor'):
            return None
    res_ty = None
    if c.dty is not None and E.P.T[c.dty].get('a'):
        res_ty = E.P.T[c.dty]['a'][0]
    if f.op == 'agg' and f.a[0] == 'fut':
        c2 = E.subcall(c, f.a[2].a[0].d, list(f.a[4:]), None, 'poll')
        c2.argtys = list(f.a[3].a[0])
        c2.dty = res_ty
        c2.decl = c2.path = IO_NAMES.get(c2.decl, c2.decl)
        c2.line = c.line
        if E.client is not None and hasattr(E.client, 'on_call'):
            r = E.client.on_call(E, st, c2)
            if r is not None:
                return [(s, agg(POLL, 0, v)) for s, v in r]
        hh = H.get(c2.path)
        r = hh(E, st, c2) if hh else E.opaque(st, c2)
        return [(s, agg(POLL, 0, v)) for s, v in r]
    if f.op == 'agg' and f.a[0] == 'closure':
        e = E.P.closures.get(f.a[1])
    r = mk('eff', 'await', c.site, f, ty=E.scalar(res_ty) if res_ty is not None else None)
    E.forget(st, r)
    return [(st, agg(POLL, 0, r))]


IO_NAMES = {
    'futures_util::io::AsyncReadExt::read_to_end': 'io::read_to_end', 'alloc::io::read::Read::read_to_end': 'io::read_to_end',
    'futures_util::io::AsyncReadExt::read_exact': 'io::read_exact', 'alloc::io::read::Read::read_exact': 'io::read_exact',
    'futures_util::io::AsyncReadExt::read': 'io::read', 'alloc::io::read::Read::read': 'io::read',
    'futures_util::io::AsyncSeekExt::seek': 'io::seek', 'core::io::seek::Seek::seek': 'io::seek', 'alloc::io::seek::Seek::seek': 'io::seek',
    'futures_util::io::AsyncWriteExt::write_all': 'io::write_all', 'core::io::write::Write::write_all': 'io::write_all', 'alloc::io::write::Write::write_all': 'io::write_all',
    'futures_util::io::AsyncWriteExt::flush': 'io::flush', 'core::io::write::Write::flush': 'io::flush', 'alloc::io::write::Write::flush': 'io::flush',
    'futures_util::io::AsyncWriteExt::write': 'io::write', 'core::io::write::Write::write': 'io::write',
    'futures_util::io::AsyncWriteExt::close': 'io::close',
    'futures_util::io::copy::copy': 'io::copy',
    'async_stream::yielder::Sender::<T>::send': 'stream::yield',
    'futures_util::future::try_join_all::try_join_all': 'fut::try_join_all',
}


def fut_ctor(E, st, c):
    """a future of an external async method: the effect happens when it is awaited"""
    return [(st, agg('fut', 0, mk('fn', FnBox(c.fn)), mk('tys', tuple(c.argtys)), *c.args))]


for _k in IO_NAMES:
    if _k.startswith('futures_util') or _k.startswith('async_stream'):
        H[_k] = fut_ctor
PREFIX += [('parquet_format_safe::parquet_format::', lambda E, st, c: fut_ctor(E, st, c) if 'stream' in c.path.split('::')[-1] and c.dty is not None and E.P.T[c.dty]['k'] in ('coroutine', 'alias') else None)]


def io_call(E, st, c, op):
    c.path = c.decl = op
    if E.client is not None and hasattr(E.client, 'on_io'):
        r = E.client.on_io(E, st, c, op)
        if r is not None:
            return r
    return IO[op](E, st, c)


def io_result(E, st, c, value, havoc=()):
    """Ok(value) or an io error"""
    s1 = st.copy()
    s2 = st.copy()
    e = mk('eff', 'ioerr', c.site, mk('str', c.path))
    return [(s1, ok(value)), (s2, err(e))]


@h('alloc::io::read::Read::take', 'futures_util::io::AsyncReadExt::take')
def io_take(E, st, c):
    return [(st, agg('take', 0, c.args[0], c.args[1]))]


def reader_of(E, st, a):
    """(reader value, limit)"""
    lim = None
    for _ in range(6):
        if a.op == 'agg' and a.a[0] == 'take':
            lim = a.a[3]
            a = a.a[2]
        elif a.op == 'ref':
            v = E.content(st, a)
            if v.op == 'agg' and v.a[0] == 'take':
                a = v
            elif v.op == 'ref':
                a = v
            else:
                break
        else:
            break
    return a, lim


def io_read_to_end(E, st, c):
    rd, lim = reader_of(E, st, c.args[0])
    r, p = E.target(c.args[1])
    old = E.read(st, r, p)
    n0, e0 = vparts(E, old)
    k = mk('eff', 'nread', c.site, ty='usize')
    E.forget(st, k)
    out = []
    s = st.copy()
    okk = True
    if lim is not None:
        okk = E.assume(s, E.cmp('le', k, lim), True)
    if okk:
        src = mk('eff', 'filedata', c.site, lim if lim is not None else mk('none'), ty='u8')
        E.write(s, r, p, mk('vec', E.arith('add', n0, k, 'usize'), E.anyof(e0, src) if not (n0.op == 'int' and n0.a[0] == 0) else src, ty=old.ty))
        out.append((s, ok(k)))
    s = st.copy()
    m = mk('mut', 'io::read_to_end', c.site, 0, old, ty=old.ty)
    E.write(s, r, p, m)
    out.append((s, err(mk('eff', 'ioerr', c.site, mk('str', c.path)))))
    return out


def io_read_exact(E, st, c):
    d = c.args[1]
    r, p = E.target(d)
    old = E.read(st, r, p)
    n = E.length(old)
    src = mk('eff', 'filedata', c.site, n, ty='u8')
    E.forget(st, src)
    s = st.copy()
    E.write(s, r, p, mk('vec', n, src, ty=old.ty))
    return [(s, ok(UNIT)), (st.copy(), err(mk('eff', 'ioerr', c.site, mk('str', c.path))))]


def io_seek(E, st, c):
    k = mk('eff', 'seekpos', c.site, ty='u64')
    E.forget(st, k)
    return io_result(E, st, c, k)


def io_write_all(E, st, c):
    t = tystr(E, c.argtys[0]) if c.argtys[0] is not None else ''
    if t == '&mut &mut [u8]':
        # writing to memory: the bytes go to the front of the slice, which shrinks
        r, p = E.target(c.args[0])
        cur = E.read(st, r, p)
        r2, p2 = E.target(cur)
        dv, sv = E.read(st, r2, p2), seq(E, st, c.args[1])
        room, n = E.length(dv, st), E.length(sv, st)
        s1, s2 = st.copy(), st.copy()
        out = []
        if E.assume(s1, E.cmp('le', n, room), True):
            a, b = (p2[-1][1], p2[-1][2]) if p2 and p2[-1][0] == 's' else (num(0, 'usize'), room)
            base = p2[:-1] if p2 and p2[-1][0] == 's' else p2
            mid = E.arith('add', a, n, 'usize')
            E.write(s1, r2, base + (('s', a, mid),), sv)
            E.write(s1, r, p, E.ref(r2, base + (('s', mid, b),)))
            out.append((s1, ok(UNIT)))
        if E.assume(s2, E.cmp('lt', room, n), True):
            out.append((s2, err(mk('eff', 'ioerr', c.site, mk('str', c.path)))))
        return out
    return io_result(E, st, c, UNIT)


def io_flush(E, st, c):
    return io_result(E, st, c, UNIT)


def io_yield(E, st, c):
    return [(st, UNIT)]


IO = {'io::read_to_end': io_read_to_end, 'io::read_exact': io_read_exact, 'io::seek': io_seek, 'io::write_all': io_write_all, 'io::flush': io_flush, 'stream::yield': io_yield}


def _mk_io(op):
    return lambda E, st, c: io_call(E, st, c, op)


for _k, _op in IO_NAMES.items():
    if _op in IO:
        if not (_k.startswith('futures_util') or _k.startswith('async_stream')):
            H[_k] = _mk_io(_op)
        H[_op] = _mk_io(_op)
