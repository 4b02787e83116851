"""Hash-consed symbolic terms (a global value-numbering domain) and their
normalisation.  A term denotes the value some expression has at a program point;
equal terms denote equal values.  There is no solver behind this: equality is
pointer equality after rewriting to a normal form."""


class T:
    __slots__ = ('op', 'a', 'id', 'phis')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
EMPTY = frozenset()


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        ph = None
        if op == 'phi':
            ph = frozenset([a[0]])
        for x in a:
            p = None
            if type(x) is T:
                p = x.phis
            elif type(x) is tuple:
                for y in x:
                    if type(y) is T and y.phis:
                        p = y.phis if not p else p | y.phis
                    elif type(y) is tuple:
                        for z in y:
                            if type(z) is T and z.phis:
                                p = z.phis if not p else p | z.phis
            if p:
                ph = p if ph is None else (ph | p)
        t.phis = ph or EMPTY
        _tab[k] = t
    return t


def INT(n):
    return mk('int', n)


ZERO = INT(0)
ONE = INT(1)
TRUE = INT(1)
FALSE = INT(0)
UNIT = mk('agg', 'tuple', '', ())
TOP = mk('top')


def is_int(t):
    return t.op == 'int'


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], {x: c for (c, x) in t.a[1]}
    return 0, {t: 1}


def mk_lin(c, d):
    d = {x: k for x, k in d.items() if k != 0}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
    return mk('lin', c, tuple(sorted(((k, x) for x, k in d.items()), key=lambda p: p[1].id)))


def add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + sign * k
    return mk_lin(ca + sign * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def app(f, *args):
    return mk('app', f, *args)


def mul(a, b):
    if a.op == 'int':
        return scale(b, a.a[0])
    if b.op == 'int':
        return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return app('mul', x, y)


def minmax(f, a, b):
    s = []
    for x in (a, b):
        if x.op == 'app' and x.a[0] == f:
            s.extend(x.a[1:])
        else:
            s.append(x)
    ints = [x.a[0] for x in s if x.op == 'int']
    rest = {x for x in s if x.op != 'int'}
    if ints:
        rest.add(INT(min(ints) if f == 'min' else max(ints)))
    rest = sorted(rest, key=lambda t: t.id)
    if len(rest) == 1:
        return rest[0]
    return app(f, *rest)


# comparisons: canonical boolean atoms le0(L) / sle0(L) / eq0(L); a boolean term is
# (atom, polarity) encoded as the atom or mk('not', atom)
def neg(t):
    if t.op == 'int':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def _canon(L):
    """sign-normalise a linear form: first coefficient positive. returns (L, flipped)"""
    c, d = lin_parts(L)
    if not d:
        return L, False
    x = min(d, key=lambda t: t.id)
    if d[x] < 0:
        return scale(L, -1), True
    return L, False


def eq0(L):
    if L.op == 'int':
        return TRUE if L.a[0] == 0 else FALSE
    L, _ = _canon(L)
    c, d = lin_parts(L)
    if len(d) == 1:
        (x, k), = d.items()
        if c == 0 and x.op == 'app' and x.a[0] == 'saturating_sub':
            return le0(sub(x.a[1], x.a[2]))
        # (v & C) == C  with C a power of two is the same test as (v & C) != 0
        if k == 1 and x.op == 'app' and x.a[0] == 'band' and x.a[2].op == 'int':
            C = x.a[2].a[0]
            if C & (C - 1) == 0 and -c == C and C:
                return neg(mk('eq0', x))
    return mk('eq0', L)


def le0(L, signed=False):
    """L <= 0 over the integers (unsigned leaves unless signed)"""
    if L.op == 'int':
        return TRUE if L.a[0] <= 0 else FALSE
    L2, fl = _canon(L)
    if fl:
        # -L2 <= 0  <=>  L2 >= 0  <=> not (L2 <= -1) <=> not(L2+1 <= 0)
        r = neg(_le0c(add(L2, ONE), signed))
        return r
    return _le0c(L2, signed)


def _le0c(L, signed):
    c, d = lin_parts(L)
    if not signed:
        if all(k > 0 for k in d.values()):
            if c > 0:
                return FALSE
            if c == 0 and len(d) == 1:
                return mk('eq0', mk_lin(0, {x: 1 for x in d}))
    return mk('sle0' if signed else 'le0', L)


def lt(a, b, signed=False):
    return le0(add(sub(a, b), ONE), signed)


def le(a, b, signed=False):
    return le0(sub(a, b), signed)


def eq(a, b):
    if a is b:
        return TRUE
    return eq0(sub(a, b))


# ---------------------------------------------------------------- structures
def agg(label, variant, keys, *vals):
    if keys and label not in ('closure', 'array') and not variant:
        # eta: rebuilding a struct out of its own fields is the struct
        v0 = vals[0]
        if v0.op == 'fld' and v0.a[1] == keys[0]:
            base = v0.a[0]
            if all(v.op == 'fld' and v.a[0] is base and v.a[1] == k for k, v in zip(keys, vals)):
                return base
        if len(keys) >= 4 and label != 'tuple':
            # functional update: a struct most of whose fields are those of one other value is that value with some fields replaced
            n = {}
            for v, k in zip(vals, keys):
                if v.op == 'fld' and v.a[1] == k:
                    n[v.a[0]] = n.get(v.a[0], 0) + 1
            if n:
                base = max(n, key=lambda b: n[b])
                if 2 * n[base] >= len(keys):
                    return mk('with', base, tuple(sorted((k, v) for v, k in zip(vals, keys) if not (v.op == 'fld' and v.a[0] is base and v.a[1] == k))))
    return mk('agg', label, variant, keys, *vals)


def fld(t, key, label=''):
    """component `key` of value t (label = struct/enum name)"""
    op = t.op
    if op == 'agg':
        ks = t.a[2]
        if key in ks:
            return t.a[3 + ks.index(key)]
        # another variant: impossible; a struct seen through another layout: unknown
        return mk('bot') if t.a[1] else mk('fld', t, key, '')
    if op == 'with':
        for k, v in t.a[1]:
            if k == key:
                return v
        return fld(t.a[0], key, label)
    if op == 'app':
        r = app_fld(t, key)
        if r is not None:
            return r
    if op == 'bot':
        return t
    return mk('fld', t, key, '')        # the struct's name is not part of a term's identity


def app_fld(t, key):
    f = t.a[0]
    if f in ('get',) and key == 'Some.0':
        return app('at', *t.a[1:])
    return None


def setfld(t, key, v, label=''):
    op = t.op
    if op == 'agg':
        ks = t.a[2]
        if key in ks:
            vals = list(t.a[3:])
            vals[ks.index(key)] = v
            return agg(t.a[0], t.a[1], ks, *vals)
        return t
    if op == 'with':
        d = dict(t.a[1])
        base = t.a[0]
    else:
        d = {}
        base = t
    if v is fld(base, key, label):
        d.pop(key, None)
    else:
        d[key] = v
    if not d:
        return base
    return mk('with', base, tuple(sorted(d.items())))


def none():
    return mk('agg', 'Option', 'None', ())


def some(x):
    return mk('agg', 'Option', 'Some', ('Some.0',), x)


def ok(x):
    return mk('agg', 'Result', 'Ok', ('Ok.0',), x)


def tup(*xs):
    return agg('tuple', '', tuple(str(i) for i in range(len(xs))), *xs)


def subterms(t, seen=None, limit=100000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            break
        for y in x.a:
            if type(y) is T:
                st.append(y)
            elif type(y) is tuple:
                for z in y:
                    if type(z) is T:
                        st.append(z)
                    elif type(z) is tuple:
                        for w in z:
                            if type(w) is T:
                                st.append(w)
    return seen


def contains(t, x):
    return x in subterms(t)


def substitute(t, m, memo=None):
    """replace subterms per dict m (term->term), rebuilding normal forms"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    op = t.op
    r = t
    if op in ('int', 'init', 'phi', 'str', 'static', 'top', 'bot'):
        r = t
    elif op == 'lin':
        r = INT(t.a[0])
        for k, x in t.a[1]:
            r = add(r, scale(substitute(x, m, memo), k))
    elif op == 'fld':
        b = substitute(t.a[0], m, memo)
        r = t if b is t.a[0] else fld(b, t.a[1], t.a[2])
    else:
        na = []
        ch = False
        for x in t.a:
            if type(x) is T:
                y = substitute(x, m, memo)
                ch = ch or (y is not x)
                na.append(y)
            elif type(x) is tuple and op == 'with':
                y = tuple((k, substitute(v, m, memo)) for k, v in x)
                ch = ch or (y != x)
                na.append(y)
            else:
                na.append(x)
        if ch:
            r = rebuild(op, na)
    memo[t] = r
    return r


def rebuild(op, na):
    if op == 'eq0':
        return eq0(na[0])
    if op in ('le0', 'sle0'):
        return le0(na[0], op == 'sle0')
    if op == 'not':
        return neg(na[0])
    if op == 'app' and na[0] in ('min', 'max') and len(na) >= 3:
        r = na[1]
        for x in na[2:]:
            r = minmax(na[0], r, x)
        return r
    return mk(op, *na)


def show(t, d=0):
    if type(t) is not T:
        return str(t)
    if d > 12:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'int':
        return str(a[0])
    if o == 'init':
        return a[0]
    if o == 'lin':
        r = ' + '.join((s(x) if k == 1 else '%d*%s' % (k, s(x))) for k, x in a[1])
        return '(%s%s)' % (r, (' + %d' % a[0]) if a[0] else '')
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'upd':
        return '%s!(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'agg':
        return '%s%s{%s}' % (a[0], ('::' + str(a[1])) if a[1] != '' else '', ', '.join('%s:%s' % (k, s(v)) for k, v in zip(a[2], a[3:])))
    if o == 'with':
        return '%s{%s}' % (s(a[0]), ', '.join('%s:=%s' % (k, s(v)) for k, v in a[1]))
    if o == 'phi':
        return 'phi%s' % (t.id,)
    if o == 'ref':
        return '&%s%s' % (a[0], ''.join('.' + str(p) for p in a[1]))
    if o == 'not':
        return '!%s' % s(a[0])
    if o in ('le0', 'sle0', 'eq0'):
        return '(%s %s)' % (s(a[0]), {'le0': '<= 0', 'sle0': '<= 0', 'eq0': '== 0'}[o])
    return '%s(%s)' % (o, ', '.join(s(x) if type(x) is T else str(x) for x in a))
