"""Transfer functions for library calls (std collections, stable structures, memory,
slices, integers).  Everything not listed is a deterministic opaque function of the
values it can read, which also havocs what it can write."""
from terms import *
from engine import mget

H = {}


def m(*names):
    def d(f):
        for x in names:
            H[x] = f
        return f
    return d


MAPS = ('SMap', 'BMap', 'HMap')


def lookup(A, f, argtys):
    cls, nm = A.fname(f)
    h = H.get(cls + '::' + nm)
    if h is None and cls in MAPS:
        h = H.get('Map::' + nm)
    if h is None and f['path'].startswith('core::num::') or f.get('raw', '').startswith('core::num::{'):
        h = H.get('num::' + nm) or h
    if h is None and f.get('intrinsic'):
        h = H.get('intrinsic::' + nm)
    if h is None:
        h = H.get('raw:' + f.get('path', ''))
    if h is None and f.get('inst') is None:
        h = H.get('*::' + nm)
    return h


def tgt(A, st, v):
    return A.deref_target(v)


def get(A, st, v):
    """value denoted by an argument that is a reference (one level, wrappers skipped)"""
    return A.val(st, v)


# ---------------------------------------------------------------- maps
@m('Map::new', 'Map::with_capacity', 'Map::default')
def _(A, n, st, fr, t, f, a, ty):
    return app('mapnew')


def _default(A, n, st, fr, t, f, a, ty):
    if 'selfty' in f:
        s = A.P.tname(f['selfty'])
        if s in MAPS:
            return app('mapnew')
        if s == 'Vec':
            return app('vecnew')
        k = A.P.tk(f['selfty'])
        if k in ('int', 'uint', 'bool'):
            return ZERO
        if s == 'Option':
            return none()
    return NotImplemented


H['Default::default'] = _default


def ev(A, n, st, fr, t, f, a, res, cls=None):
    c, nm = A.fname(f)
    vals = [A.deepval(st, x) for x in a]
    return A.event(n, st, fr, f, cls or c, nm, a[0] if a else None, vals, a, res, t[5])


def mapcls(A, f):
    return A.fname(f)[0]


@m('Map::init', 'Map::load', 'SCell::init', 'SCell::load', 'MemoryManager::init', 'MemoryManager::get')
def _(A, n, st, fr, t, f, a, ty):
    c, nm = A.fname(f)
    r = app(c + '::' + nm, *[A.deepval(st, x) for x in a])
    ev(A, n, st, fr, t, f, a, r)
    return r


@m('Map::get')
def _(A, n, st, fr, t, f, a, ty):
    k = A.deepval(st, a[1])
    r = mget(get(A, st, a[0]), k, A, st)
    ev(A, n, st, fr, t, f, a, r)
    return r


@m('Map::contains_key')
def _(A, n, st, fr, t, f, a, ty):
    k = A.deepval(st, a[1])
    r = mget(get(A, st, a[0]), k, A, st)
    d = A.disc_opt(st, r)
    b = eq(d, ONE)
    ev(A, n, st, fr, t, f, a, b)
    return b


@m('Map::get_mut')
def _(A, n, st, fr, t, f, a, ty):
    k = A.deepval(st, a[1])
    loc, path = tgt(A, st, a[0])
    r = app('getm', mget(A.rd(st, loc, path), k, A, st), mk('ref', loc, path + (('k', k),)))
    ev(A, n, st, fr, t, f, a, r)
    return r


@m('Map::insert')
def _(A, n, st, fr, t, f, a, ty):
    k = A.deepval(st, a[1])
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    r = mget(old, k, A, st)
    ev(A, n, st, fr, t, f, a, r)
    A.wr(st, loc, path, mk('upd', 'insert', old, k, a[2]))
    return r


@m('Map::remove')
def _(A, n, st, fr, t, f, a, ty):
    k = A.deepval(st, a[1])
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    r = mget(old, k, A, st)
    ev(A, n, st, fr, t, f, a, r)
    A.wr(st, loc, path, mk('upd', 'remove', old, k))
    return r


@m('Map::clear', 'Map::clear_new', 'Vec::clear')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    ev(A, n, st, fr, t, f, a, None)
    A.wr(st, loc, path, app('vecnew') if A.fname(f)[0] == 'Vec' else app('mapnew'))
    return UNIT


@m('Map::range', 'Map::keys_range', 'Map::iter', 'Map::keys', 'Map::values', 'Map::values_range')
def _(A, n, st, fr, t, f, a, ty):
    vals = [A.deepval(st, x) for x in a]
    nm = f['name']
    r = app('iter_' + nm, *vals)
    ev(A, n, st, fr, t, f, a, r)
    return r


@m('Map::len', 'Vec::len', 'slice::len', 'str::len', 'String::len', 'array::len')
def _(A, n, st, fr, t, f, a, ty):
    return A.length(st, get(A, st, a[0]))


@m('Map::is_empty', 'Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty')
def _(A, n, st, fr, t, f, a, ty):
    return eq(A.length(st, get(A, st, a[0])), ZERO)


@m('Map::entry')
def _(A, n, st, fr, t, f, a, ty):
    ev(A, n, st, fr, t, f, a, None)
    return app('entry', a[0], A.deepval(st, a[1]))


@m('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with')
def _(A, n, st, fr, t, f, a, ty):
    e = A.val(st, a[0])
    if e.op == 'app' and e.a[0] == 'entry' and e.a[1].op == 'ref':
        loc, path = e.a[1].a[0], e.a[1].a[1]
        mp = A.rd(st, loc, path)
        if f['name'] == 'or_insert':
            dv = a[1]
        elif f['name'] == 'or_default':
            dv = ZERO if A.P.tk(f['args'][1] if len(f['args']) > 1 else -1) in ('uint', 'int') else app('default')
        else:
            return NotImplemented
        v = app('at_or', mp, e.a[2], dv)
        o = mget(mp, e.a[2], A, st)
        if o.op == 'agg':
            v = o.a[3] if o.a[1] == 'Some' else dv
        A.wr(st, loc, path, mk('upd', 'insert', mp, e.a[2], v))
        ev(A, n, st, fr, t, f, [e.a[1], e.a[2], dv], None, 'Entry')
        return mk('ref', loc, path + (('k', e.a[2]),))
    return NotImplemented


@m('Option::copied', 'Option::cloned')
def _(A, n, st, fr, t, f, a, ty):
    """what was found in a map is a value already"""
    return a[0] if a[0].op == 'app' and a[0].a[0] == 'get' else NotImplemented


@m('Option::unwrap_or', 'Option::unwrap_or_default')
def _(A, n, st, fr, t, f, a, ty):
    """a counter kept in a map, zero where there is none"""
    v = a[0]
    if v.op == 'app' and v.a[0] == 'get':
        d = a[1] if len(a) > 1 else ZERO if f['args'] and A.P.tk(f['args'][-1]) in ('uint', 'int') else None
        if d is ZERO:
            return app('at_or', v.a[1], v.a[2], ZERO)
    return NotImplemented


# LazyEntry of stable btreemap
@m('LazyEntry::key')
def _(A, n, st, fr, t, f, a, ty):
    return fld(get(A, st, a[0]), '0', 'tuple')


@m('LazyEntry::value', 'LazyEntry::into_pair')
def _(A, n, st, fr, t, f, a, ty):
    v = get(A, st, a[0])
    return fld(v, '1', 'tuple') if f['name'] == 'value' else v


# ---------------------------------------------------------------- cells / wrappers
@m('SCell::get')
def _(A, n, st, fr, t, f, a, ty):
    v = get(A, st, a[0])
    r = v.a[2] if v.op == 'upd' and v.a[0] == 'cellset' else app('cellget', v)
    return r


@m('SCell::set')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    ev(A, n, st, fr, t, f, a, None)
    A.wr(st, loc, path, mk('upd', 'cellset', old, a[1]))
    return app('cellget', old)


def _ident(A, n, st, fr, t, f, a, ty):
    v = a[0]
    if v.op == 'ref':
        x = A.rd(st, v.a[0], v.a[1])
        if x.op == 'ref':
            return x
    return v


for nm in ('Deref::deref', 'DerefMut::deref_mut', 'RefCell::borrow', 'RefCell::borrow_mut', 'AsRef::as_ref', 'AsMut::as_mut',
           'Borrow::borrow', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_bytes', 'str::as_bytes', 'String::as_str', 'str::as_ptr',
           'slice::as_ptr', 'slice::as_mut_ptr', 'Vec::as_ptr', 'Box::as_ref', 'Box::as_mut', 'RefCell::get_mut', 'Cow::as_ref'):
    H[nm] = _ident


@m('Rc::new', 'RefCell::new', 'Box::new', 'Cell::new', 'Cow::into_owned', 'String::into_bytes', 'RefCell::into_inner')
def _(A, n, st, fr, t, f, a, ty):
    return a[0]


def _toown(A, n, st, fr, t, f, a, ty):
    return A.val(st, a[0])


for nm in ('ToString::to_string', 'ToOwned::to_owned', 'slice::to_vec', 'str::to_owned', 'slice::into_vec', 'str::to_string'):
    H[nm] = _toown


@m('From::from')
def _(A, n, st, fr, t, f, a, ty):
    if f.get('inst') is not None and f.get('inst') in A.P.I:
        return NotImplemented
    s = A.P.tname(f['selfty']) if 'selfty' in f else ''
    if s in ('String', 'Vec', 'Box', 'Rc'):
        return A.val(st, a[0])
    return NotImplemented


# ---------------------------------------------------------------- vectors, iterators
@m('Vec::new', 'Vec::with_capacity')
def _(A, n, st, fr, t, f, a, ty):
    return app('vecnew')


@m('Vec::push')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    ev(A, n, st, fr, t, f, a, None)
    A.wr(st, loc, path, mk('upd', 'push', old, a[1]))
    return UNIT


@m('Vec::pop')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    r = app('pop', old)
    ev(A, n, st, fr, t, f, a, r)
    A.wr(st, loc, path, mk('upd', 'popped', old))
    return r


@m('slice::iter', 'Vec::iter', 'slice::iter_mut', 'Vec::iter_mut')
def _(A, n, st, fr, t, f, a, ty):
    if f['name'] == 'iter_mut':
        return app('itermut', a[0])
    return app('iter', get(A, st, a[0]))


@m('IntoIterator::into_iter')
def _(A, n, st, fr, t, f, a, ty):
    if f.get('inst') is not None and f['inst'] in A.P.I:
        return NotImplemented
    v = a[0]
    if ty[0] is not None and A.P.is_mutref(ty[0]):
        return app('itermut', v)
    x = A.val(st, v)
    if x.op == 'app' and (x.a[0].startswith('iter') or x.a[0] in ('split', 'next')):
        return x
    if ty[0] is not None and A.P.tname(ty[0]) in ('Vec', 'slice', 'array') + MAPS:
        return app('iter', x)
    # already an iterator
    return x


def is_app0(t, nm):
    return t.op == 'app' and t.a[0] == nm


def fill_loop(body, head):
    """the constant c when the loop calling next() in block `head` is  for x in it { *x = c }"""
    B = body['blocks']
    t = B[head]['t']
    if t[0] != 'call' or t[3][1] or t[4] < 0:
        return None
    opt = t[3][0]
    b = B[t[4]]
    ds = [s[1][0] for s in b['s'] if s[0] == '=' and not s[1][1] and s[2][0] == 'discr' and s[2][1] == [opt, []]]
    if b['t'][0] != 'switch' or len(ds) != 1 or (b['t'][1].get('m') or b['t'][1].get('c')) != [ds[0], []]:
        return None
    if any(s[0] == '=' and s[2][0] != 'discr' for s in b['s']):
        return None
    nx = [x for v, x in b['t'][2] if v == '1']
    if len(nx) != 1:
        return None
    elem, val, cur, seen = None, None, nx[0], set()
    while cur != head:
        if cur in seen:
            return None
        seen.add(cur)
        for s in B[cur]['s']:
            if s[0] in ('live', 'dead'):
                continue
            if s[0] != '=' or s[2][0] != 'use':
                return None
            (l, p), v = s[1], s[2][1]
            k = v.get('k', {})
            if not p:
                src = v.get('m') or v.get('c')
                if src and src[0] == opt and len(src[1]) == 2:
                    elem = l
                elif src and src == [elem, []]:
                    elem = l
                elif not k.get('zst'):
                    return None
            elif l == elem and p == ['*'] and val is None and 'i' in k:
                val = int(k['i'])
            else:
                return None
        if B[cur]['t'][0] != 'goto':
            return None
        cur = B[cur]['t'][1]
    # the block with the call does nothing else
    if any(s[0] == '=' and s[2][0] != 'ref' for s in B[head]['s'] if s[0] not in ('live', 'dead')):
        return None
    return val


def _next(A, n, st, fr, t, f, a, ty):
    if f.get('inst') is not None and f['inst'] in A.P.I:
        return NotImplemented
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    if f['name'] == 'next' and is_app0(old, 'itermut') and old.a[1].op == 'ref':
        k = fill_loop(fr.body, n.block)
        if k is not None:
            # the loop does nothing but set every element to a constant
            v = INT(k)
            ev(A, n, st, fr, t, {**f, 'name': 'fill'}, [old.a[1], v], None, 'slice')
            l2, p2 = tgt(A, st, old.a[1])
            A.wr(st, l2, p2, app('filled', v, A.length(st, A.rd(st, l2, p2))))
            A.wr(st, loc, path, mk('upd', 'advance', old))
            return none()
    r = app(f['name'], old)
    A.domain[mk('disc', r)] = frozenset([0, 1])
    ev(A, n, st, fr, t, f, a, r)
    A.wr(st, loc, path, mk('upd', 'advance', old))
    return r


H['Iterator::next'] = _next
H['DoubleEndedIterator::next_back'] = _next


@m('Index::index', 'IndexMut::index_mut')
def _(A, n, st, fr, t, f, a, ty):
    b = a[0]
    loc, path = tgt(A, st, b)
    i = a[1]
    k = A.P.tname(ty[1]) if ty[1] is not None else ''
    base = A.rd(st, loc, path)
    ln = A.length(st, base)
    if k == 'Range':
        lo, hi = fld(i, 'start', 'Range'), fld(i, 'end', 'Range')
    elif k == 'RangeTo':
        lo, hi = ZERO, fld(i, 'end', 'RangeTo')
    elif k == 'RangeFrom':
        lo, hi = fld(i, 'start', 'RangeFrom'), ln
    elif k == 'RangeFull':
        return b
    elif k == 'RangeInclusive':
        lo, hi = fld(i, 'start', 'RangeInclusive'), add(fld(i, 'end', 'RangeInclusive'), ONE)
    elif A.P.tk(ty[1]) in ('uint',):
        return mk('ref', loc, path + (('i', i),))
    else:
        bc = A.P.tname(ty[0]) if ty[0] is not None else ''
        if bc in MAPS:
            return mk('ref', loc, path + (('k', A.deepval(st, i)),))
        return NotImplemented
    ev(A, n, st, fr, t, f, [b, lo, hi], None, 'Index')
    # bounds check succeeded
    A.assume(st, le(lo, hi), True)
    A.assume(st, le(hi, ln), True)
    return part(loc, path, lo, hi, ln)


@m('slice::split_at', 'slice::split_at_mut')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    ln = A.length(st, A.rd(st, loc, path))
    ev(A, n, st, fr, t, f, [a[0], ZERO, a[1]], None, 'Index')
    A.assume(st, le(a[1], ln), True)
    return tup(part(loc, path, ZERO, a[1], ln), part(loc, path, a[1], ln, ln))


def part(loc, path, lo, hi, ln):
    if lo is ZERO and hi is ln:
        return mk('ref', loc, path)
    # slice of slice
    if path and path[-1][0] == 'sl':
        l0 = path[-1][1]
        return mk('ref', loc, path[:-1] + (('sl', add(l0, lo), add(l0, hi)),))
    return mk('ref', loc, path + (('sl', lo, hi),))


@m('slice::copy_from_slice', 'slice::clone_from_slice')
def _(A, n, st, fr, t, f, a, ty):
    ev(A, n, st, fr, t, f, a, None)
    loc, path = tgt(A, st, a[0])
    A.wr(st, loc, path, A.val(st, a[1]))
    return UNIT


@m('slice::fill')
def _(A, n, st, fr, t, f, a, ty):
    ev(A, n, st, fr, t, f, a, None)
    loc, path = tgt(A, st, a[0])
    ln = A.length(st, A.rd(st, loc, path))
    A.wr(st, loc, path, app('filled', a[1], ln))
    return UNIT


@m('raw::from_raw_parts', 'raw::from_raw_parts_mut', 'slice::from_raw_parts', 'slice::from_raw_parts_mut')
def _(A, n, st, fr, t, f, a, ty):
    p = a[0]
    if p.op == 'ref':
        return p
    v = app('raw', p, a[1])
    return mk('ref', ('d', v), ())


# ---------------------------------------------------------------- memories
def memname(A, f):
    return 'Memory'


@m('VMem::size', 'dyn Memory::size')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    v = A.rd(st, loc, path)
    while v.op == 'upd' and v.a[0] == 'mwrite':
        v = v.a[1]
    r = app('msize', v)
    ev(A, n, st, fr, t, f, a, r, 'Memory')
    return r


@m('VMem::grow', 'dyn Memory::grow')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    v = A.rd(st, loc, path)
    r = app('mgrow', v, a[1])
    ev(A, n, st, fr, t, f, a, r, 'Memory')
    A.wr(st, loc, path, mk('upd', 'mgrow', v, a[1]))
    return r


@m('VMem::write', 'dyn Memory::write')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    v = A.rd(st, loc, path)
    ev(A, n, st, fr, t, f, a, None, 'Memory')
    A.wr(st, loc, path, mk('upd', 'mwrite', v, a[1], A.val(st, a[2])))
    return UNIT


@m('VMem::read', 'dyn Memory::read')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    v = A.rd(st, loc, path)
    ev(A, n, st, fr, t, f, a, None, 'Memory')
    l2, p2 = tgt(A, st, a[2])
    ln = A.length(st, A.rd(st, l2, p2))
    A.wr(st, l2, p2, app('mread', v, a[1], ln))
    return UNIT


# ---------------------------------------------------------------- integers
@m('num::div_ceil')
def _(A, n, st, fr, t, f, a, ty):
    x = sub(add(a[0], a[1]), ONE)
    if x.op == 'int' and a[1].op == 'int':
        return INT(x.a[0] // a[1].a[0])
    return app('div', x, a[1])


@m('num::is_multiple_of')
def _(A, n, st, fr, t, f, a, ty):
    return eq0(app('rem', a[0], a[1]))


def _chk(nm):
    def h(A, n, st, fr, t, f, a, ty):
        x, y = A.val(st, a[0]), A.val(st, a[1])
        r = app(nm, x, y)
        A.domain[mk('disc', r)] = frozenset([0, 1])
        if nm == 'checked_sub' and A.P.types[ty[0]].get('s', '').startswith('u'):
            A.unsigned_sub = A.unsigned_sub | {mk('disc', r)}
        return r
    return h


for nm in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div'):
    H['num::' + nm] = _chk(nm)
for nm in ('saturating_add', 'saturating_sub', 'saturating_mul', 'abs_diff', 'pow', 'count_ones', 'leading_zeros', 'to_le_bytes', 'to_be_bytes', 'to_ne_bytes',
           'from_le_bytes', 'next_multiple_of', 'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'wrapping_neg', 'wrapping_abs', 'unsigned_abs', 'next_power_of_two',
           'trailing_zeros', 'ilog2', 'swap_bytes', 'rotate_left', 'checked_neg', 'checked_abs', 'abs', 'checked_add_signed', 'saturating_add_signed', 'checked_rem'):
    def _pf(nm):
        def h(A, n, st, fr, t, f, a, ty):
            signed = nm == 'saturating_sub' and not A.P.types[ty[0]].get('s', '').startswith('u')
            r = app('signed_' + nm if signed else nm, *[A.val(st, x) for x in a])
            rt = fr.body['locals'][t[3][0]] if not t[3][1] else None
            if rt is not None and A.P.tname(rt) == 'Option':
                A.domain[mk('disc', r)] = frozenset([0, 1])
            return r
        return h
    H['num::' + nm] = _pf(nm)
H['num::wrapping_add'] = lambda A, n, st, fr, t, f, a, ty: add(a[0], a[1])
H['num::wrapping_sub'] = lambda A, n, st, fr, t, f, a, ty: sub(a[0], a[1])
H['num::wrapping_mul'] = lambda A, n, st, fr, t, f, a, ty: mul(a[0], a[1])
H['num::unchecked_add'] = H['num::wrapping_add']
H['num::unchecked_sub'] = H['num::wrapping_sub']


def _mm(nm):
    def h(A, n, st, fr, t, f, a, ty):
        k = A.P.tk(f['args'][0]) if f.get('args') else None
        if k in ('uint', 'int') or A.P.tk(ty[0]) in ('uint', 'int'):
            return minmax(nm, A.val(st, a[0]), A.val(st, a[1]))
        return NotImplemented
    return h


for nm in ('min', 'max'):
    H['Ord::' + nm] = _mm(nm)
    H['cmp::' + nm] = _mm(nm)
H['intrinsic::integer_min'] = _mm('min')
H['intrinsic::integer_max'] = _mm('max')
H['raw:std::cmp::min'] = _mm('min')
H['raw:std::cmp::max'] = _mm('max')


@m('intrinsic::discriminant_value')
def _(A, n, st, fr, t, f, a, ty):
    tt = A.P.types[ty[0]].get('to')
    return A.disc_of(st, A.val(st, a[0]), tt)


@m('mem::size_of', 'intrinsic::size_of', 'raw:std::mem::size_of', 'raw:core::mem::size_of')
def _(A, n, st, fr, t, f, a, ty):
    x = A.P.types[f['args'][0]]
    if 'size' in x:
        return INT(x['size'])
    if x.get('k') in ('uint', 'int'):
        return INT(x['bits'] // 8)
    return app('size_of', mk('str', x['s']))


@m('raw:std::mem::replace', 'raw:core::mem::replace')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    if loc[0] in ('p', 'd'):
        A.store_event(n, st, fr, loc, path, a[1], t[5])
    A.wr(st, loc, path, a[1])
    return old


@m('raw:std::mem::take', 'raw:core::mem::take')
def _(A, n, st, fr, t, f, a, ty):
    loc, path = tgt(A, st, a[0])
    old = A.rd(st, loc, path)
    k = A.P.tname(f['args'][0])
    k2 = A.P.tk(f['args'][0])
    if k == 'Vec':
        v = app('vecnew')
    elif k in MAPS:
        v = app('mapnew')
    elif k2 in ('uint', 'int', 'bool'):
        v = ZERO
    elif k == 'Option':
        v = none()
    else:
        v = app('default', mk('str', k))
    if loc[0] in ('p', 'd'):
        A.store_event(n, st, fr, loc, path, v, t[5])
    A.wr(st, loc, path, v)
    return old


@m('raw:std::mem::swap', 'raw:core::mem::swap')
def _(A, n, st, fr, t, f, a, ty):
    l1, p1 = tgt(A, st, a[0])
    l2, p2 = tgt(A, st, a[1])
    x, y = A.rd(st, l1, p1), A.rd(st, l2, p2)
    A.wr(st, l1, p1, y)
    A.wr(st, l2, p2, x)
    return UNIT


@m('PartialEq::eq', 'PartialEq::ne')
def _(A, n, st, fr, t, f, a, ty):
    if f.get('inst') is not None and f['inst'] in A.P.I:
        b = A.P.I[f['inst']]
        if b['local'] or b['raw'].startswith('core::cmp'):
            return NotImplemented
    x, y = A.deepval(st, a[0]), A.deepval(st, a[1])
    if x is y:
        r = TRUE
    elif x.op in ('str', 'bytes') and y.op in ('str', 'bytes'):
        bx = x.a[0].encode() if x.op == 'str' else bytes(x.a[0])
        by = y.a[0].encode() if y.op == 'str' else bytes(y.a[0])
        r = TRUE if bx == by else FALSE
    else:
        r = eqv(A, st, x, y)
    return r if f['name'] == 'eq' else neg(r)


def eqv(A, st, x, y):
    '''structural equality of two values (derived PartialEq semantics)'''
    if x is y:
        return TRUE
    if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[0] not in ('closure', 'array'):
        if x.a[1] != y.a[1]:
            return FALSE
        open_ = []
        for u, v in zip(x.a[3:], y.a[3:]):
            r = eqv(A, st, u, v)
            if r is FALSE:
                return FALSE
            if r is not TRUE:
                open_.append(r)
        if not open_:
            return TRUE
        if len(open_) == 1:
            return open_[0]
    if x.op == 'int' and y.op == 'int':
        return FALSE
    if x.op == 'int' or y.op == 'int':
        return eq(x, y)
    if x.op == 'agg' or y.op == 'agg':
        a, b = (x, y) if x.op == 'agg' else (y, x)
        # a fieldless variant: equality is a test of the discriminant
        if a.a[1] and not a.a[2] and a.a[0] == 'Option':
            return eq0(mk('disc', b)) if a.a[1] == 'None' else neg(eq0(mk('disc', b)))
        if a.a[0] == 'Option' and a.a[1] == 'Some':
            d = A.disc_opt(st, b)
            k = A.truth(st, eq0(d))
            if k is True:
                return FALSE
            if k is False:
                return eqv(A, st, a.a[3], fld(b, 'Some.0', 'Option'))
    p, q = sorted((x, y), key=lambda z: z.id)
    return neg(eq0(app('eqv', p, q)))


@m('intrinsic::raw_eq')
def _(A, n, st, fr, t, f, a, ty):
    x, y = A.deepval(st, a[0]), A.deepval(st, a[1])
    if x is y:
        return TRUE
    return eqv(A, st, x, y)


def _pred(A, n, st, fr, t, f, a, ty):
    c, nm = A.fname(f)
    return neg(eq0(app(nm, *[A.deepval(st, x) for x in a])))


H['str::starts_with'] = _pred
H['str::ends_with'] = _pred
H['str::contains'] = _pred
H['slice::contains'] = _pred
H['slice::starts_with'] = _pred


@m('str::split')
def _(A, n, st, fr, t, f, a, ty):
    r = app('split', A.deepval(st, a[0]), A.deepval(st, a[1]))
    A.event(n, st, fr, f, 'str', 'split', a[0], [A.deepval(st, x) for x in a], a, r, t[5])
    return r


@m('raw:std::boxed::box_assume_init_into_vec_unsafe', 'raw:alloc::boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec')
def _(A, n, st, fr, t, f, a, ty):
    """the vec![..] macro: a boxed array becomes a vector"""
    v = A.deepval(st, a[0])
    if v.op != 'agg' or v.a[0] != 'array':
        return NotImplemented
    r = app('vecnew')
    for x in v.a[3:]:
        r = mk('upd', 'push', r, x)
    return r
