"""Where the bytes go: the arithmetic of transfers between a caller's buffer and a file."""
from core import *
from roles import *
from rules_fd import edge_subst
from rules_fs import *
from rules_io import *
from rules_st import *
from terms import *
import engine


def atoms(t):
    """phis a term's value is computed from, including those inside atoms"""
    return t.phis


class Arith:
    """integer identities over the values of one method: normal forms of polynomials, and their proof along all paths backwards"""
    def __init__(self, S, A):
        self.S, self.A = S, A
        self.memo_elem = {}
        self.inserts = None
        self.nfm = {}
        self.busy = set()
        self.lowm = {}
        self.gem = {}
        self.cut = 0

    # ---------------------------------------------------------------- normal form
    def nf(self, t):
        r = self.nfm.get(t)
        if r is None:
            r = self.nf_(t)
            if not self.busy:
                self.nfm[t] = r
        return r

    def nf_(self, t):
        op = t.op
        if op == 'int':
            return t
        if op == 'lin':
            r = INT(t.a[0])
            for k, x in t.a[1]:
                r = add(r, scale(self.nf(x), k))
            return r
        if op == 'app':
            f = t.a[0]
            if f == 'trunc' or str(f).startswith('cast'):
                return self.nf(t.a[1])
            if f == 'mul':
                return self.product([self.nf(x) for x in t.a[1:]])
            if f == 'div':
                x, y = self.nf(t.a[1]), self.nf(t.a[2])
                return self.div(x, y)
            if f == 'rem':
                x, y = self.nf(t.a[1]), self.nf(t.a[2])
                return sub(x, self.product([y, self.div(x, y)]))
            if f in ('min', 'max'):
                xs = [self.nf(x) for x in t.a[1:]]
                return self.mm(f, xs)
            if f == 'saturating_sub' or f == 'satsub':
                return self.mm('max', [sub(self.nf(t.a[1]), self.nf(t.a[2])), ZERO])
            if f == 'len' and (is_app(t.a[1], 'sl') or t.a[1].op in ('ref', 'phi')):
                r = self.slice_at(t.a[1], app('sllen', t.a[1]), 1)
                return r if not is_app(r, 'sllen') else app('len', r.a[1])
            if f == 'idxof':
                return self.idxof(t.a[1], t)
            if f == 'slstart':
                return self.slice_at(t.a[1], t, 0)
            if f == 'sllen':
                return self.slice_at(t.a[1], t, 1)
            if f == 'cnt':
                return self.cnt(t.a[1])
            if f == 'vlen':
                return self.vlen(t.a[1])
            if f in ('vsum', 'isum'):
                return self.vsum(f, t.a[1], t.a[2])
            return t
        if op == 'fld':
            return self.field(t)
        return t

    def product(self, fs):
        r = ONE
        for f in fs:
            c1, d1 = lin_parts(r)
            c2, d2 = lin_parts(f)
            s = INT(c1 * c2)
            for x, k in d1.items():
                s = add(s, scale(x, k * c2))
            for x, k in d2.items():
                s = add(s, scale(x, k * c1))
            for x, k in d1.items():
                for y, l in d2.items():
                    xs = (x.a[1:] if is_app(x, 'mul') else (x,)) + (y.a[1:] if is_app(y, 'mul') else (y,))
                    s = add(s, scale(app('mul', *sorted(xs, key=lambda z: z.id)), k * l))
            r = s
        return r

    def div(self, x, y):
        if y.op == 'int' and y.a[0] > 0:
            c, d = lin_parts(x)
            if all(k % y.a[0] == 0 for k in d.values()):
                return mk_lin(c // y.a[0], {z: k // y.a[0] for z, k in d.items()})
        else:
            # y*q + y*k.. : take whole multiples out
            c, d = lin_parts(x)
            if c == 0 and d and all(is_app(z, 'mul') and y in z.a[1:] or z is y for z in d):
                r = ZERO
                for z, k in d.items():
                    if z is y:
                        r = add(r, INT(k))
                    else:
                        xs = list(z.a[1:])
                        xs.remove(y)
                        r = add(r, scale(xs[0] if len(xs) == 1 else app('mul', *xs), k))
                return r
        return app('div', x, y)

    def mm(self, f, xs):
        r = []
        for x in xs:
            r.extend(x.a[1:] if is_app(x, f) else [x])
        if f == 'min' and len(r) > 1:
            # the largest file there can be: sizes and ends of writes are below it (C02, C13)
            r = [x for x in r if not (x.op == 'int' and x.a[0] >= MAXC)] or r
        keep = []
        for i, x in enumerate(r):
            drop = False
            for j, y in enumerate(r):
                if i == j:
                    continue
                d = sub(y, x) if f == 'max' else sub(x, y)
                if self.ge0(d) and not (j > i and self.ge0(scale(d, -1))):
                    drop = True
            if not drop and x not in keep:
                keep.append(x)
        t = keep[0]
        for x in keep[1:]:
            t = minmax(f, t, x)
        return t

    def lower(self, x, depth=0):
        """a lower bound of an unsigned value, as a term, or None"""
        if x.op == 'phi' and x in self.A.phi_in:
            if x in self.lowm:
                if self.lowm[x] is None:
                    self.cut += 1
                return self.lowm[x]
            self.lowm[x] = None
            self.lowm[x] = self.lower_phi(x)
            return self.lowm[x]
        if is_app(x, 'mul'):
            for y in x.a[1:]:
                lo = self.lower(y, depth + 1)
                if lo is not None and lo is not y:
                    xs = list(x.a[1:])
                    xs.remove(y)
                    return self.product([lo] + xs)
        if is_app(x, 'cnt'):
            its = self.starts(x.a[1])
            if its and len(its) == 1:
                return self.cnt_start(next(iter(its)))
        return None

    def lower_phi(self, x):
        """the one value x starts from when all it does after that is grow, possibly through other phis"""
        lo, seen, st = None, set(), [x]
        while st:
            z = st.pop()
            if z in seen:
                continue
            seen.add(z)
            for y in self.A.phi_in.get(z, ()):
                c, d = lin_parts(y)
                w = next(iter(d)) if len(d) == 1 else None
                if w is not None and d[w] == 1 and c >= 0 and w.op == 'phi' and w in self.A.phi_in:
                    st.append(w)
                    continue
                y = self.nf(y)
                if y.phis or lo is not None and y is not lo:
                    return None
                lo = y
        return lo

    def ge0(self, d, depth=0):
        """d >= 0 for certain"""
        k = (d, depth)
        if k in self.gem:
            return self.gem[k]
        n = self.cut
        r = self.ge0_(d, depth)
        if r or n == self.cut:
            self.gem[k] = r
        return r

    def ge0_(self, d, depth):
        c, p = lin_parts(d)
        if not p:
            return c >= 0
        if all(k >= 0 for k in p.values()) and c >= 0:
            return True
        # x - y*div(x,y) is between 0 and y-1
        if depth < 3:
            for w, l in p.items():
                if is_app(w, 'div') and w.a[2].op == 'int' and abs(l) == w.a[2].a[0]:
                    a, y, l1 = w.a[1], w.a[2], l
                    m = scale(w, abs(l))
                elif is_app(w, 'mul') and abs(l) == 1 and len(w.a) == 3:
                    q = next(((x, y) for x, y in ((w.a[1], w.a[2]), (w.a[2], w.a[1])) if is_app(x, 'div') and x.a[2] is y), None)
                    if q is None:
                        continue
                    a, y, m = q[0].a[1], q[1], w
                else:
                    continue
                if l > 0 and self.ge0(sub(d, add(sub(m, a), sub(y, ONE))), depth + 1):
                    return True
                if l < 0 and self.ge0(sub(d, sub(a, m)), depth + 1):
                    return True
        if depth < 3:
            for z, k in p.items():
                if k > 0:
                    lo = self.lower(z)
                    if lo is not None and self.ge0(self.nf(add(sub(d, scale(z, k)), scale(lo, k))), depth + 1):
                        return True
                if is_app(z, 'max') and k > 0 and any(self.ge0(add(sub(d, scale(z, k)), scale(y, k)), depth + 1) for y in z.a[1:]):
                    return True
                if is_app(z, 'min') and k < 0 and any(self.ge0(add(sub(d, scale(z, k)), scale(y, k)), depth + 1) for y in z.a[1:]):
                    return True
        return False

    # ---------------------------------------------------------------- slices
    def slice_at(self, b, t, which):
        """start / length, within the caller's buffer, of a slice"""
        A = self.A
        if is_app(b, 'itermut', 'iter', 'deref'):
            return self.slice_at(b.a[1], t, which)
        if is_app(b, 'sl'):
            if which == 1:
                return self.nf(sub(b.a[3], b.a[2]))
            return add(self.nf(b.a[2]), self.slice_at(b.a[1], t, 0))
        if b.op == 'ref':
            loc, path = b.a
            if type(loc) is tuple and loc and loc[0] == 'd' and isinstance(loc[1], T):
                base, basel = self.slice_at(loc[1], t, 0), None
            else:
                base = ZERO
            n = None
            for p in path:
                if type(p) is tuple and p and p[0] == 'sl':
                    base = add(base, self.nf(p[1]))
                    n = self.nf(sub(p[2], p[1]))
            if which == 0:
                return base
            if n is not None:
                return n
            if loc[0] == 'd':
                return self.slice_at(loc[1], t, 1)
            return app('len', mk('init', loc[1])) if loc[0] == 'p' else t
        if b.op == 'init':
            return ZERO if which == 0 else app('len', b)
        if b.op == 'upd' and which == 0:
            return self.slice_at(b.a[1], t, 0)
        return app(t.a[0], b)

    # ---------------------------------------------------------------- iterators
    def field(self, t):
        x, path = t, []
        while x.op == 'fld' and not is_app(x.a[0], 'next', 'next_back', 'pop'):
            path.append(x.a[1])
            x = x.a[0]
        if x.op == 'fld' and x.a[1] == 'Some.0' and is_app(x.a[0], 'next'):
            it = x.a[0].a[1]
            path.reverse()
            if not path:
                st = self.starts(it)
                if st and all(self.is_int_range(y) for y in st):
                    return self.cnt(it)
            e = self.elem(it, tuple(path), False)
            if e is not None:
                return e
        return t

    def is_int_range(self, y):
        return y.op == 'agg' and 'Range' in str(y.a[0]) and fld(y, 'start').op != 'agg' and 'tuple' not in str(fld(y, 'start').a[:1])

    def starts(self, it):
        """the iterators as they were made, before any element was taken"""
        out, seen, st = set(), set(), [it]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi' and x in self.A.phi_in:
                st.extend(self.A.phi_in[x])
            elif x.op == 'upd' and x.a[0] == 'advance':
                st.append(x.a[1])
            elif is_app(x, 'into_iter', 'iter') and x.a[1].op == 'agg' and 'Range' in str(x.a[1].a[0]):
                out.add(x.a[1])
            else:
                out.add(x)
        return out

    def cnt_start(self, x):
        if self.is_int_range(x):
            return self.nf(fld(x, 'start'))
        return ZERO

    def cnt(self, it):
        """number of the element next() gives: for an integer range, the element itself"""
        if it.op == 'upd' and it.a[0] == 'advance':
            return add(self.cnt(it.a[1]), ONE)
        if it.op == 'phi' and it in self.A.phi_in:
            return app('cnt', it)
        if is_app(it, 'into_iter', 'iter') and it.a[1].op == 'agg' and 'Range' in str(it.a[1].a[0]):
            it = it.a[1]
        return self.cnt_start(it)

    def vecs(self, it):
        v = set()
        for x in self.starts(it):
            while is_app(x, 'iter', 'into_iter', 'peekable'):
                x = x.a[1]
            v.add(x)
        return v

    def pushes(self, v):
        """push terms a vector is built by; None if anything else builds it"""
        out, seen, st = set(), set(), [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi' and x in self.A.phi_in:
                st.extend(self.A.phi_in[x])
            elif x.op == 'upd' and x.a[0] == 'push':
                out.add(x)
                st.append(x.a[1])
            elif is_app(x, 'vecnew'):
                pass
            else:
                return None
        return out

    def vlen(self, v):
        if v.op == 'upd' and v.a[0] == 'push':
            return add(self.vlen(v.a[1]), ONE)
        if is_app(v, 'vecnew'):
            return ZERO
        return app('vlen', v)

    def vsum(self, f, v, path):
        if f == 'vsum':
            if v.op == 'upd' and v.a[0] == 'push':
                return add(self.vsum(f, v.a[1], path), self.nf(self.at(v.a[2], path)))
            if is_app(v, 'vecnew'):
                return ZERO
        else:
            if v.op == 'upd' and v.a[0] == 'advance':
                y = app('next', v.a[1])
                return add(self.vsum(f, v.a[1], path), self.nf(self.at(fld(y, 'Some.0'), path)))
            if not (v.op == 'phi' and v in self.A.phi_in):
                return ZERO
        return app(f, v, path)

    def at(self, v, path):
        for p in path.a if isinstance(path, T) else path:
            v = fld(v, p)
        return v

    def elem(self, it, path, idx):
        """the integer (idx: the number of the chunk at the address) kept at `path` of the element next() gives, if it is a constant more
        than the element's position"""
        vs = self.vecs(it)
        if len(vs) != 1:
            return None
        v = next(iter(vs))
        k = (v, path, idx)
        if k in self.busy:
            return None
        if k not in self.memo_elem:
            self.busy.add(k)
            try:
                self.memo_elem[k] = self.elem_(v, path, idx)
            finally:
                self.busy.discard(k)
        x = self.memo_elem[k]
        return None if x is None else add(x, self.cnt(it))

    def elem_(self, v, path, idx):
        ps = self.pushes(v)
        if not ps:
            return None
        xs = set()
        for p in ps:
            f = self.at(p.a[2], path)
            if idx:
                f = app('idxof', f)
            elif f.op == 'agg':
                return None
            r = self.bases(sub(f, app('vlen', p.a[1])), INT(1 << 40))
            if r is None:
                return None
            xs |= r
        return xs.pop() if len(xs) == 1 else None

    # ---------------------------------------------------------------- chunk addresses
    def idxof(self, b, t):
        """number of the chunk that starts at address b"""
        A, S = self.A, self.S
        if b.op == 'fld' and 'ChunkExists' in str(b.a[1]) and b.a[0].op == 'agg':
            b = b.a[0]
        x = b
        path = []
        while x.op == 'fld':
            path.append(x.a[1])
            if x.a[1] == 'Some.0' and is_app(x.a[0], 'next'):
                break
            x = x.a[0]
        if x.op == 'fld':
            # element of an iterator
            it = x.a[0].a[1]
            path = tuple(reversed(path[:-1]))
            rng = [y for y in self.starts(it) if is_app(y, 'iter_range')]
            if rng:
                if path[:1] == ('1',):
                    return self.nf(self.at(fld(x.a[0], 'Some.0'), ('0', '1')))
            else:
                e = self.elem(it, path, True)
                if e is not None:
                    return e
        elif is_app(x, 'at', 'at_or') and isinstance(x.a[2], T) and not [p for p in path if p not in ('ChunkExists.0', 'bytes')]:
            return self.nf(fld(x.a[2], '1', 'tuple'))
        elif x.op == 'agg' and x.a[1] == 'ChunkExists':
            return self.idxof(fld(x, 'ChunkExists.0'), t)
        if b.op != 'phi' or b not in A.phi_in or b in self.ins():
            r = self.ins().get(b)
            if r is not None:
                return self.nf(r)
        return app('idxof', b)

    def ins(self):
        if self.inserts is None:
            self.inserts = {}
            for e in self.S.map_ev(self.A, self.S.ptr, 'insert'):
                i = self.S.key_of(e)[1]
                k = e.args[2]
                if self.inserts.get(k, i) is not i:
                    i = None
                self.inserts[k] = i
        return self.inserts

    # ---------------------------------------------------------------- proof
    def le_facts(self, facts):
        out = []
        for t, v in facts.items():
            if t.op == 'le0' and v in (frozenset([0]), frozenset([1])):
                L = self.nf(t.a[0])
                out.append(L if 1 in v else sub(ONE, L))
            elif t.op == 'eq0' and v == frozenset([1]):
                L = self.nf(t.a[0])
                out += [L, scale(L, -1)]
            elif is_app(t, 'len') and type(v) is frozenset and v:
                out.append(sub(self.nf(t), INT(max(v))))
            elif t.op in ('phi', 'lin', 'app') and v == frozenset([0]):
                out.append(self.nf(t))
        for x in list(out):
            # a maximum is below only if all of its parts are
            for z, k in lin_parts(x)[1].items():
                if is_app(z, 'max') and k > 0:
                    out += [add(sub(x, scale(z, k)), scale(y, k)) for y in z.a[1:]]
        for t, v in facts.items():
            if t.op == 'eq0' and v == frozenset([0]):
                L = self.nf(t.a[0])
                out += [add(x, ONE) for x in (L, scale(L, -1)) if x in out]
        return out

    def choices(self, t, pick, limit=24):
        """values obtained by choosing one argument of every min (or max when negative): upper bounds of t (pick=+1)"""
        out = [t]
        for _ in range(4):
            nxt = []
            more = False
            for x in out:
                c, d = lin_parts(x)
                z = next((z for z, k in d.items() if is_app(z, 'min') and k * pick > 0 or is_app(z, 'max') and k * pick < 0), None)
                if z is None:
                    nxt.append(x)
                    continue
                more = True
                for y in z.a[1:]:
                    nxt.append(add(sub(x, scale(z, d[z])), scale(y, d[z])))
            out = nxt[:limit]
            if not more:
                break
        return out

    def none_left(self, N, H):
        """N <= 0: nothing is transferred"""
        us = self.choices(N, 1)
        if any(self.ge0(scale(u, -1)) for u in us):
            return True
        for h in H:
            # h <= 0: one of the cases holds; in each, some bound of N is below one of h
            cases = self.choices(h, 1)
            if len(cases) < 20 and all(any(self.ge0(sub(g, ONE)) or any(self.ge0(sub(g, u)) for u in us) for g in self.choices(x, -1)) for x in cases):
                return True
        return False

    def bases(self, D, N):
        """values D can have, followed backwards over every path to the entry where no value is left that varies; None if it is not constant"""
        self.out = set()
        ok = self.walk(self.nf(D), self.nf(N), [], {}, None)
        return ok

    def zero(self, D, N, facts=()):
        """D == 0 whenever N > 0"""
        r = self.walk(self.nf(D), self.nf(N), self.le_facts(dict(facts)), {}, ZERO)
        return r is not None

    def never_pos(self, X, facts=(), memo=None, depth=0):
        """X <= 0 whichever way control came"""
        X = self.nf(X)
        memo = set() if memo is None else memo
        if X in memo or self.none_left(X, self.le_facts(dict(facts))):
            return True
        self.why = X
        if depth > 30 or not X.phis:
            return False
        memo.add(X)
        A = self.A
        J = A.nodelist[max(X.phis, key=lambda i: A.prio(A.nodelist[i]))]
        n = 0
        for s in J.ins.values():
            (X2,), _ = edge_subst(A, J, s, [X], {})
            if X2 is X and any(x.op == 'phi' and x.a[0] == J.id and A.phi_on_edge(x, s) is None for x in subterms(X)):
                return False
            n += 1
            if not self.below(X2, s.facts, memo, depth + 1):
                return False
        return n > 0

    def below(self, X, facts, memo, depth):
        """X <= 0, possibly because of something known here (h <= 0) that brings it down"""
        if self.never_pos(X, facts, memo, depth):
            return True
        X = self.nf(X)
        vs = lin_parts(X)[1]
        for h in self.le_facts(dict(facts)):
            if depth < 8 and any(vs.get(v) == -k or vs.get(v) == k for v, k in lin_parts(h)[1].items()):
                Y = sub(X, h)
                if len(lin_parts(Y)[1]) <= len(vs) and self.never_pos(Y, (), set(memo), depth + 1):
                    return True
        return False

    def bases2(self, D, good):
        """every value D starts from satisfies good and D never changes after that"""
        self.good = good
        try:
            r = self.walk(D, BIG, [], {}, None)
        finally:
            self.good = None
        return r is not None and all(good(x) for x in r)

    good = None

    def walk(self, D, N, H, memo, goal, depth=0, C=()):
        """set of base values of D (None: failure)"""
        D, N = self.nf(D), self.nf(N)
        if goal is not None and D is goal or no_elem(D):
            return set()
        if self.good and self.good(D):
            return {D}
        if self.none_left(N, H):
            return set()
        if depth == 0:
            self.steps = 0
            self.split = set()
        self.steps += 1
        if depth > 60 or len(memo) > 400 or self.steps > 6000:
            self.why = D
            return None
        mm = sorted((z for z in lin_parts(D)[1] if is_app(z, 'min', 'max')), key=lambda z: (is_app(z, 'max'), z.id))
        if not mm or not is_app(mm[0], 'min'):
            mm = sorted({z for x in subterms(D) if is_app(x, 'div') for z in lin_parts(x.a[1])[1] if is_app(z, 'min')}, key=lambda z: z.id) + mm
        mins = [z for z in mm if is_app(z, 'min')]
        ph = [x for x in D.phis if True]
        js = {i for i in (D.phis | N.phis)}
        key = D
        hyp = frozenset(h for h, _ in C)
        if D.phis and any(m <= hyp for m in memo.get(key, ())):
            return set()
        if mins or (mm and not D.phis):
            z = mins[0] if mins else mm[0]
            out = set()
            k = (D, N, frozenset(H))
            if D.phis and k in self.split:
                return set()
            self.split.add(k)
            for y in z.a[1:]:
                hs = []
                for w in z.a[1:]:
                    if w is not y:
                        hs.append(sub(y, w) if is_app(z, 'min') else sub(w, y))
                m = {z: y}
                r = self.walk(substitute(D, m), substitute(N, m), H + hs, memo, goal, depth + 1, C + tuple((x, frozenset()) for x in hs if x.phis))
                if r is None:
                    return None
                out |= r
            return out
        if not D.phis:
            if goal is not None:
                self.why = D
                return None
            return {D}
        if any(k is not D and not sub(k, D).phis for k in memo) or len(memo.get(key, ())) > 12:
            self.why = D        # differs from an earlier value by a constant: it keeps changing
            return None
        memo.setdefault(key, []).append(hyp)
        A = self.A
        J = A.nodelist[max(js, key=lambda i: A.prio(A.nodelist[i]))]
        # what was assumed on the way is carried along as long as it is about values not older than these
        C = [(h, js) for h, js in C if J.id not in js and all(A.prio(A.nodelist[i]) <= A.prio(J) for i in h.phis)][-8:]
        out = set()
        n = 0
        for s in J.ins.values():
            (D2, N2, *C2), f2 = edge_subst(A, J, s, [D, N] + [h for h, _ in C], {})
            if f2 is None:
                continue
            if D2 is D and any(x.op == 'phi' and x.a[0] == J.id and A.phi_on_edge(x, s) is None for x in subterms(D)):
                self.why = D
                return None
            n += 1
            C2 = [(self.nf(h), js | {J.id}) for h, (_, js) in zip(C2, C)]
            H2 = self.le_facts(s.facts)
            C3 = tuple((h, js) for h, js in C2 if h.phis) + tuple((h, frozenset()) for h in H2 if h.phis)
            r = self.walk(D2, N2, H2 + [h for h, _ in C2], memo, goal, depth + 1, C3)
            if r is None:
                return None
            out |= r
        if not n:
            self.why = D
            return None
        return out


def no_elem(t):
    """computed from an element of a list that has none"""
    return any(is_app(x, 'next') and is_app(x.a[1], 'iter', 'into_iter') and is_app(x.a[1].a[1], 'vecnew') for x in subterms(t))


class Transfer:
    """bytes going between a slice of the caller's buffer and a place in the file (kind: read, write) or a slice being zeroed (zero)"""
    def __init__(self, kind, e, where, base, off, B, N, cs):
        self.kind, self.e, self.where, self.base, self.off, self.B, self.N, self.cs = kind, e, where, base, off, B, N, cs


def buf_arg(A):
    return A.argnames[3]


def of_buffer(A, t, name, seen=None):
    """the slice is (part of) the caller's buffer"""
    seen = set() if seen is None else seen
    if t in seen:
        return True
    seen.add(t)
    if is_app(t, 'itermut', 'iter', 'sl', 'deref'):
        return of_buffer(A, t.a[1], name, seen)
    if t.op == 'ref':
        loc, path = t.a
        if type(loc) is tuple and loc and loc[0] == 'p':
            return loc[1] == name and all(type(p) is tuple and p and p[0] == 'sl' for p in path)
        if type(loc) is tuple and loc and loc[0] == 'd' and isinstance(loc[1], T):
            return of_buffer(A, loc[1], name, seen)
        return False
    if t.op == 'init':
        return t.a[0] == name
    if t.op == 'upd' and t.a[0] in ('splice', 'store', 'storeany', 'mread', 'filled', 'foreach'):
        return of_buffer(A, t.a[1], name, seen)
    if t.op == 'phi' and t in A.phi_in:
        return bool(A.phi_in[t]) and all(of_buffer(A, x, name, seen) for x in A.phi_in[t])
    return False


def mentions_buffer(A, t, name):
    for x in closure_terms(A, t):
        if x.op == 'init' and x.a[0] == name:
            return True
        if x.op == 'ref' and x.a[0] == ('p', name):
            return True
    return False


def split_addr(A, S, addr):
    """(address of the chunk, offset in it)"""
    c, d = lin_parts(addr)
    b = [x for x, k in d.items() if k == 1 and S.ptr_kinds(A, x)]
    if len(b) != 1:
        return None
    return b[0], sub(addr, b[0])


def v1_chunk(A, S, t):
    """(chunk number term, from, to) when t is a slice of the bytes of a stored chunk of the first version"""
    lo = hi = None
    while is_app(t, 'sl', 'deref'):
        if t.a[0] == 'sl':
            if lo is not None:
                return None
            lo, hi = t.a[2], t.a[3]
        t = t.a[1]
    if not (t.op == 'fld' and t.a[1] == 'bytes'):
        return None
    b = t.a[0]
    if is_app(b, 'at', 'at_or') and started(A, b.a[1], S.term(S.v1)):
        return fld(b.a[2], '1', 'tuple'), lo, hi
    if b.op == 'fld' and b.a[1] == '1':
        return fld(fld(b.a[0], '0', 'tuple'), '1', 'tuple'), lo, hi
    return None


def transfers(S, A, kind, buf):
    """every place where bytes of the caller's buffer are given to or taken from the file"""
    out = []
    cs = S.term(S.csize) if S.csize else None
    for e in A.events():
        st = None
        if e.cls in ('Memory', 'VMem') and e.meth == kind and e.recv is not None and mentions_buffer(A, e.args[2], buf) and of_buffer(A, e.args[2], buf):
            b = e.args[2]
            B, N = app('slstart', b), app('sllen', b)
            if S.mem and S.at(e, A, S.mem):
                r = split_addr(A, S, e.args[1])
                if r is None:
                    out.append((e, None))
                    continue
                out.append((e, Transfer(kind, e, 'v2', app('idxof', r[0]), r[1], B, N, cs)))
            else:
                out.append((e, Transfer(kind, e, 'mounted', None, e.args[1], B, N, None)))
        elif kind == 'read' and e.cls == 'slice' and e.meth in ('copy_from_slice', 'clone_from_slice') and of_buffer(A, e.args[0], buf):
            r = v1_chunk(A, S, e.args[1])
            if r is None or r[1] is None:
                out.append((e, None))
                continue
            i, lo, hi = r
            out.append((e, Transfer(kind, e, 'v1', i, lo, app('slstart', e.args[0]), sub(hi, lo), INT(4096))))
        elif kind == 'read' and e.meth in ('for_each', 'fill') and of_buffer(A, e.args[0], buf):
            out.append((e, Transfer('zero', e, '', None, None, app('slstart', e.args[0]), app('sllen', e.args[0]), None)))
    if kind == 'write':
        for e, n, i, lo, hi, src, below, v in v1_writes(A, S):
            if src is not None and of_buffer(A, src, buf):
                if lo is None:
                    out.append((e, None))
                    continue
                out.append((e, Transfer(kind, e, 'v1', i, lo, app('slstart', src), sub(hi, lo), INT(4096))))
    return out


def element_parts(x):
    """parts of elements of iterators in a term: {part: (iterator, path)}"""
    r = {}
    for y in subterms(x):
        z, p = y, []
        while z.op == 'fld' and not is_app(z.a[0], 'next'):
            p.append(z.a[1])
            z = z.a[0]
        if z.op == 'fld' and z.a[1] == 'Some.0' and p:
            r[y] = (z.a[0].a[1], tuple(reversed(p)))
    return r


def place(ar, t):
    """position in the file of the first byte of a transfer, as a term"""
    A = ar.A
    P = t.off if t.base is None else add(mul(t.base, t.cs), t.off)
    # taken from the element of a list that is a run of pieces that follow each other
    m = element_parts(P)
    N = ar.nf(t.N)
    n = element_parts(N)
    if m and N in n and all(x[0] is n[N][0] for x in m.values()):
        it, npath = n[N]
        vs = ar.vecs(it)
        if len(vs) == 1:
            ps = ar.pushes(next(iter(vs)))
            xs = set()
            for p in ps or ():
                Q = substitute(P, {y: ar.at(p.a[2], q) for y, (_, q) in m.items()})
                r = ar.bases(sub(Q, app('vsum', p.a[1], npath)), ar.at(p.a[2], npath))
                xs |= {None} if r is None else r
            if ps and len(xs) == 1 and None not in xs:
                return add(xs.pop(), app('isum', it, npath))
    return P


def moved_before(A, ar, X, node, idx, T, memo, why):
    """X, a number of bytes at this point, is what the transfers on the way here have moved"""
    X = ar.nf(X)
    n = A.nodelist[node]
    for e in reversed(n.events[:idx]):
        t = T.get(id(e))
        if t is not None:
            d = sub(X, ar.nf(add(t.B, t.N)))
            why.append(d)
            return ar.zero(d, BIG, e.facts)
    if (node, X) in memo:
        return True
    memo.add((node, X))
    if len(memo) > 20000 or sum(1 for m, _ in memo if m == node) > 40:
        why.append(X)
        return False
    if not A.g.pred.get(node):
        why.append(X)
        return X is ZERO or ar.zero(X, BIG, n.facts or {})
    for k, s in n.ins.items():
        if k[0] == 'entry':
            if X is not ZERO:
                why.append(X)
                return False
            continue
        if k[0] not in A.g.succ or node not in A.g.succ[k[0]]:
            continue
        (X2,), f = edge_subst(A, n, s, [X], {})
        if f is None:
            continue
        p = A.nodelist[k[0]]
        if not moved_before(A, ar, X2, p.id, len(p.events), T, memo, why):
            return False
    return True


BIG = INT(1 << 40)


def is_size(A, v):
    """the size of a file, or that capped by its limit"""
    if v.op == 'fld' and v.a[1] == 'size':
        return True
    return is_app(v, 'min') and any(is_size(A, x) for x in v.a[1:])


def parts_of_pushes(ar, terms):
    """the terms with parts of list elements replaced by what was pushed: one list per push"""
    m = {}
    for x in terms:
        m.update(element_parts(x))
    m = {y: p for y, p in m.items() if any(not is_app(z, 'iter_range', 'iter_values_range', 'iter_keys_range') and ar.pushes(z) for z in ar.vecs(p[0]))}
    its = {i for i, _ in m.values()}
    if len(its) != 1 or len(ar.vecs(next(iter(its)))) != 1:
        return [list(terms)]
    ps = ar.pushes(next(iter(ar.vecs(next(iter(its))))))
    return [[substitute(x, {y: ar.at(p.a[2], q) for y, (_, q) in m.items()}) for x in terms] for p in ps] if ps else [list(terms)]


def full_length(ar, A, t, off, cs, buf, kind):
    """the length of a transfer is bounded only by the end of the chunk, of the buffer and (reading) of the file; else the bound that is none of them"""
    P = t.off if t.base is None else add(mul(t.base, t.cs), t.off)
    N = ar.nf(t.N)
    end = add(off, app('len', mk('init', buf)))
    ps = parts_of_pushes(ar, [P, t.off, N])
    listed = ps != [[P, t.off, N]]
    if not listed:
        ps = [[add(t.B, off), t.off, N]]
    for pos, o, N in ps:
        r = bounds(ar, A, pos, o, N, end, cs if t.base is not None else None, kind, set(), 0, listed)
        if r is not None:
            return r
    return None


def bounds(ar, A, pos, o, N, end, cs, kind, seen, depth, listed=False):
    N, pos = ar.nf(N), ar.nf(pos)
    if (N, pos) in seen:
        return None
    seen.add((N, pos))
    if cs is not None and ar.nf(sub(add(N, o), cs)) is ZERO:
        return None
    if cs is None and listed:
        c0, d0 = lin_parts(ar.nf(add(N, pos)))
        if c0 % 4096 == 0 and all(k % 4096 == 0 for k in d0.values()):
            return None
    if ar.zero(sub(add(N, pos), end), BIG):
        return None
    if kind == 'read' and ar.bases2(add(N, pos), lambda v: is_size(A, v)):
        return None
    z = next((z for z, k in lin_parts(N)[1].items() if is_app(z, 'min') and k == 1), None)
    if z is not None:
        for y in z.a[1:]:
            r = bounds(ar, A, pos, o, add(sub(N, z), y), end, cs, kind, seen, depth, listed)
            if r is not None:
                return r
        return None
    # a value joined from several places: look at each
    ph = [x for x in lin_parts(N)[1] if x.op == 'phi' and x in A.phi_in]
    if not ph or depth > 12:
        return N
    J = A.nodelist[max((x.a[0] for x in ph), key=lambda i: A.prio(A.nodelist[i]))]
    for s in J.ins.values():
        (p2, o2, n2), _ = edge_subst(A, J, s, [pos, o, N], {})
        r = bounds(ar, A, p2, o2, n2, end, cs, kind, seen, depth + 1)
        if r is not None:
            return r
    return None


def decisions(A, ts):
    """edges on which it is decided that nothing more is moved"""
    g = A.g
    has = {e.node.id for e, t in ts}
    can = set()
    work = list(has)
    while work:
        n = work.pop()
        for p in g.pred.get(n, ()):
            if p not in can:
                can.add(p)
                work.append(p)
    return {(a, b) for a in can for b in g.succ.get(a, ()) if b not in can and b not in has}


def past(ar, A, h, end, cs):
    """h <= 0 says that the chunk number reached is past the last one needed"""
    c, d = lin_parts(h)
    for v, k in d.items():
        if k == -1 and (v.op == 'phi' or is_app(v, 'cnt')):
            if all(far(ar, A, x, end, cs) for x in ar.choices(ar.nf(mul(add(h, v), cs)), 1)):
                return True
    return False


def last_empty(ar, A, g, h, end, cs):
    """g <= 0 and h <= 0 say that the chunk reached is the last one and that nothing of it is left"""
    for v, k in lin_parts(h)[1].items():
        if k == -1 and v.op == 'phi' and past(ar, A, add(h, ONE), end, cs):
            for z, l in lin_parts(g)[1].items():
                if is_app(z, 'min') and l == 1 and end in z.a[1:] and ar.nf(mul(add(v, ONE), cs)) in z.a[1:]:
                    w = sub(z, g)
                    if w is ar.nf(mul(v, cs)) or is_app(w, 'max') and ar.nf(mul(v, cs)) in w.a[1:]:
                        return True
    return False


def far(ar, A, x, end, cs):
    """position x is at or past the end of the buffer or of the file"""
    if any(ar.ge0(sub(y, end)) for y in ar.choices(x, -1)):
        return True
    for z in subterms(x):
        if is_app(z, 'div') and z.a[2] is cs and ar.ge0(sub(x, add(mul_nf(ar, z, cs), cs))) and ar.bases2(z.a[1], lambda w: is_size(A, w)):
            return True
    return False


def mul_nf(ar, a, b):
    return ar.nf(mul(a, b))


def short_list(A, ar, v, to, end, css):
    """an edge on which the list stops being filled although there is more"""
    ps = ar.pushes(v)
    ev = [e for e in A.events() if e.cls == 'Vec' and e.meth == 'push' and e.res is not None and (e.res in ps or any(x in ps for x in subterms(e.res)))]
    if not ev:
        ev = [e for e in A.events() if e.cls == 'Vec' and e.meth == 'push' and any(e.args[1] is p.a[2] for p in ps)]
    if not ev:
        return True
    g = A.g
    for a, b in decisions(A, [(e, None) for e in ev]):
        if b != to and to not in g.reach_nodes([b])[2]:
            continue
        for k, s in A.nodelist[b].ins.items():
            if k[0] != a:
                continue
            old = set(ar.le_facts(A.nodelist[a].facts or {}))
            new = [h for h in ar.le_facts(s.facts) if h not in old]
            if any(past(ar, A, h, end, cs) for h in new for cs in css):
                continue
            if any(last_empty(ar, A, g, h, end, cs) for g in new for h in ar.le_facts(s.facts) for cs in css):
                continue
            for t, val in s.facts.items():
                l = t.a[1] if t.op == 'phi' else None
                l = l[0] if type(l) is tuple and len(l) == 1 else l
                if val == frozenset([1]) and type(l) is tuple and len(l) == 3 and l[0] == 'sub' and l[2][0] == 'exhausted':
                    E = mk('phi', t.a[0], ('sub', l[1], ('end', 'RangeInclusive')))
                    E = A.phi_on_edge(E, s) or A.phi_on_edge(E, A.nodelist[a])
                    if E is not None and any(all(far(ar, A, x, end, cs) for x in ar.choices(ar.nf(mul(add(E, ONE), cs)), 1)) for cs in css):
                        break
            else:
                return True
    return False


def finished(A, ar, X, node, memo, dec, end, css, kind, bad, has):
    """nothing more is moved although X bytes were: only because that is all there is"""
    X = ar.nf(X)
    if (node, X) in memo or len(memo) > 20000:
        return
    memo.add((node, X))
    n = A.nodelist[node]
    if sum(1 for m, _ in memo if m == node) > 40:
        bad.append((n, X, []))
        return
    for k, s in n.ins.items():
        if k[0] == 'entry' or node not in A.g.succ.get(k[0], ()):
            continue
        (X2,), f = edge_subst(A, n, s, [X], {})
        if f is None:
            continue
        p = A.nodelist[k[0]]
        if (p.id, node) in dec:
            X2 = ar.nf(X2)
            H = ar.le_facts(s.facts)
            old = set(ar.le_facts(p.facts or {}))
            new = [h for h in H if h not in old]
            off = end[0]
            ok = False
            for h in H:
                if ar.zero(sub(h, sub(end[1], X2)), BIG) or kind == 'read' and ar.bases2(add(add(h, off), X2), lambda v: is_size(A, v)):
                    ok = True
                    break
            if not ok:
                ok = any(past(ar, A, h, add(off, end[1]), cs) for h in new for cs in css)
            if not ok:
                none = [t.a[0].a[1] for t, v in s.facts.items() if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'next') and (p.facts or {}).get(t) != v]
                ok = any(ar.pushes(v) and not short_list(A, ar, v, p.id, add(off, end[1]), css) for it in none for v in ar.vecs(it))
            if not ok:
                bad.append((p, X2, new))
            continue
        if p.id not in has:
            finished(A, ar, X2, p.id, memo, dec, end, css, kind, bad, has)


def c28(c):
    R = Roles(c)
    c.rule('C28.place', 'byte i of the buffer is byte offset+i of the file, in every transfer, whichever path leads to it')
    n = {'read': 0, 'write': 0}
    fits = []
    runs = []
    for ty in BACK:
        S = St(c, R, ty)
        for kind in ('read', 'write'):
            A = S.an(kind)
            ar = Arith(S, A)
            buf = A.argnames[3]
            off = mk('init', A.argnames[2])
            ts = transfers(S, A, kind, buf)
            runs.append((S, A, ar, ts, kind))
            for e, t in ts:
                what = '%s.%s' % (ty, kind)
                if t is None:
                    c.check(False, what + '.place', '%s moves bytes of the buffer to or from a place that could not be recognised: `%s`' % (what, [show(x)[:120] for x in e.args]), A, e)
                    continue
                if t.kind == 'zero':
                    continue
                n[kind] += 1
                ar.why = None
                D = sub(sub(place(ar, t), t.B), off)
                facts = dict(e.facts)
                ok = ar.zero(D, t.N, facts)
                if not ok and t.where == 'v1' and kind == 'read':
                    for f, v in facts.items():
                        if f.op == 'eq0' and v == frozenset([1]) and lin_parts(f.a[0])[1].get(t.base) in (1, -1):
                            k = lin_parts(f.a[0])[1][t.base]
                            i = sub(t.base, scale(f.a[0], k))
                            if ar.zero(sub(sub(add(mul(i, t.cs), t.off), t.B), off), t.N, facts):
                                ok = True
                if t.base is not None:
                    fits.append((A, ar, e, t, what))
                c.check(ok, what + '.' + t.where, '%s: byte i of the buffer is not byte offset+i of the file (%s): off by `%s`' % (what, t.where, show(ar.why)[:int(__import__('os').environ.get('WL','200'))]), A, e)
    c.need(9, 'transfers')
    c.rule('C28.within', 'a transfer never goes past the end of the chunk it starts in')
    for A, ar, e, t, what in fits:
        X = sub(add(ar.nf(t.N), ar.nf(t.off)), t.cs)
        m = element_parts(X)
        its = {i for i, _ in m.values()}
        if len(its) == 1 and len(ar.vecs(next(iter(its)))) == 1:
            ps = ar.pushes(next(iter(ar.vecs(next(iter(its))))))
            ok = bool(ps) and all(ar.never_pos(substitute(X, {y: ar.at(p.a[2], q) for y, (_, q) in m.items()})) for p in ps)
        else:
            ok = ar.never_pos(X, e.facts)
        c.check(ok, what + '.' + t.where, '%s: a transfer may go past the end of its chunk (%s): `%s`' % (what, t.where, show(ar.why)[:200]), A, e)
    c.need(6, 'transfers with chunks')
    c.rule('C28.reported', 'what is reported as read or written is what was moved: transfers follow each other in the buffer, from its start')
    for S, A, ar, ts, kind in runs:
        what = '%s.%s' % (S.ty, kind)
        T = {id(e): t for e, t in ts if t is not None}
        for e, t in ts:
            if t is None:
                continue
            why = []
            ok = moved_before(A, ar, t.B, e.node.id, e.idx, T, set(), why)
            c.check(ok, what + '.next.' + t.kind + t.where, '%s: a transfer (%s) does not start where the one before ended: off by `%s`' % (what, t.kind + ' ' + t.where, show(why[-1])[:200] if why else '?'), A, e)
        for x in A.exits:
            if x.exit is None or 'Ok' not in variant(A, x):
                continue
            why = []
            r = fld(x.exit, 'Ok.0', 'Result')
            ok = moved_before(A, ar, r, x.id, len(x.events), T, set(), why)
            c.check(ok, what + '.result', '%s can report `%s`, which is not what it moved: off by `%s`' % (what, show(r)[:100], show(why[-1])[:200] if why else '?'), A)
    c.need(14, 'transfers and results')
    c.rule('C28.full', 'a transfer is shorter than what was asked only at the end of a chunk or of the file')
    for S, A, ar, ts, kind in runs:
        what = '%s.%s' % (S.ty, kind)
        for e, t in ts:
            if t is None or t.kind == 'zero':
                continue
            r = full_length(ar, A, t, mk('init', A.argnames[2]), t.cs, A.argnames[3], kind)
            c.check(r is None, what + '.length.' + t.where, '%s: the length of a transfer (%s) is bounded by something other than chunk, buffer and file: `%s`' % (what, t.where, show(r)[:200] if r is not None else ''), A, e)
        dec = decisions(A, ts)
        css = [INT(4096)] + ([S.term(S.csize)] if S.csize else [])
        for x in A.exits:
            if x.exit is None or 'Ok' not in variant(A, x):
                continue
            bad = []
            finished(A, ar, fld(x.exit, 'Ok.0', 'Result'), x.id, set(), dec, (mk('init', A.argnames[2]), app('len', mk('init', A.argnames[3]))), css, kind, bad, {e.node.id for e, _ in ts})
            c.check(not bad, what + '.early', '%s can stop after `%s` bytes although there may be more to move' % (what, show(bad[0][1])[:100] if bad else ''), A, None, '' if not bad else str([show(h)[:150] for h in bad[0][2]]))


# ---------------------------------------------------------------- bytes never written
def fills_zero(A, e):
    """what the buffer is filled with is zero"""
    if e.meth == 'fill':
        v = e.args[1]
        return v.op == 'int' and v.a[0] == 0
    cl = e.raw[1] if len(e.raw) > 1 else None
    if cl is None or cl.op != 'agg':
        return False
    b = A.P.I[A.closure_inst(cl)]
    st = [s for bl in b['blocks'] for s in bl['s'] if s[0] == '=' and s[1][1]]
    return len(b['blocks']) == 1 and len(st) == 1 and st[0][1] == [2, ['*']] and st[0][2][0] == 'use' and st[0][2][1].get('k', {}).get('i') == '0'


def from_range(A, S, x):
    """iterators over the stored chunks whose elements x can be"""
    out = set()
    for y in closure_terms(A, x):
        if is_app(y, 'next'):
            for r in iter_srcs(A, y.a[1]):
                if r.a[1] is S.term(S.v1):
                    out.add(y)
    return out


def no_chunk(A, S, ar, e, ptrs):
    """(kind, term) for every known fact at e that says there is no chunk where the bytes come from"""
    for t, v in e.facts.items():
        if t.op == 'disc' and v == frozenset([0]):
            x = t.a[0]
            if is_app(x, 'get') and x.a[1] is S.term(S.v1):
                yield 'none', x.a[2]
            elif from_range(A, S, x):
                yield 'end', x
        if t.op == 'eq0' and v == frozenset([0]) or t.op == 'le0' and v in (frozenset([0]), frozenset([1])):
            for z, k in lin_parts(t.a[0])[1].items():
                if z.op == 'fld' and z.a[1] == '1' and k in (1, -1):
                    b = z
                    while b.op == 'fld':
                        b = b.a[0]
                    if from_range(A, S, b):
                        rest = sub(z, scale(t.a[0], k))
                        if t.op == 'eq0':
                            yield 'other', (b, rest)
                        elif (k == 1) == (0 in v):
                            yield 'other', (b, sub(rest, ONE) if 0 in v else rest)
        if t.op == 'disc' and len(v) == 1:
            for b in ptrs:
                if b.op == 'fld' and b.a[0] is t.a[0] and v != frozenset([0 if b.a[1] == 'ChunkExists.0' else 1]):
                    yield 'missing', b


def c15(c):
    R = Roles(c)
    texts = {'C15.zero': 'what is put into the buffer where no chunk is stored is zero',
             'C15.missing': 'zeros are given instead of stored bytes only where it is known that no chunk is stored',
             'C15.kept': 'a chunk taken from the list of stored chunks is not dropped before its bytes were given',
             'C15.start': 'the list of stored chunks starts with the chunk read first and goes on far enough'}
    for k, x in texts.items():
        c.rule(k, x)
    nz = 0
    for ty in BACK:
        S = St(c, R, ty)
        A = S.an('read')
        ar = Arith(S, A)
        ts = transfers(S, A, 'read', A.argnames[3])
        what = ty + '.read'
        copies = {id(e) for e, t in ts if t is not None and t.where == 'v1'}
        ptrs = {t.base.a[1] for e, t in ts if t is not None and t.where == 'v2'}
        for e, t in ts:
            if t is None or t.kind != 'zero':
                continue
            nz += 1
            c.rule('C15.zero', texts['C15.zero'])
            c.check(fills_zero(A, e), what + '.fill', '%s fills the buffer with something other than zero' % what, A, e)
            ev = list(no_chunk(A, S, ar, e, ptrs))
            c.rule('C15.missing', texts['C15.missing'])
            c.check(bool(ev), what + '.unknown', '%s gives zeros although nothing says that no chunk is stored there' % what, A, e)
            c.rule('C15.start', texts['C15.start'])
            for k, x in ev:
                if k == 'other':
                    b, cur = x
                    check_merge(c, A, S, ar, what, b, cur, e)
        nexts = [e for e in A.events() if e.meth == 'next' and e.res is not None and from_range(A, S, e.res)]
        for e in nexts:
            c.rule('C15.kept', texts['C15.kept'])
            bad = dropped(A, S, e, nexts, copies)
            c.check(bad is None, what + '.kept', '%s can take the next stored chunk although the one taken before was not given to the reader' % what, A, e)
    c.rule('C15.zero', texts['C15.zero'])
    c.need(3, 'places filled with zeros')
    c.rule('C15.fresh', 'a new chunk is all zero apart from the bytes written: it is filled before and after them before the write ends')
    fresh(c, R)
    c.rule('C15.default', 'a chunk of the older format that did not exist starts as zeros')
    n = 0
    for ty in BACK:
        S = St(c, R, ty)
        A = S.an('write')
        for e in S.map_ev(A, S.v1, 'insert', 'entry'):
            if e.meth == 'entry':
                continue
            for x in A.sources(fld(e.args[2], 'bytes', 'FileChunk')):
                while x.op == 'upd' and x.a[0] == 'splice':
                    x = x.a[1]
                for y in A.sources(x):
                    n += 1
                    k = chunk_of(A, S, y)
                    c.check(k, ty + '.write.default', '%s.write builds a new chunk on `%s`, not on the stored chunk or zeros' % (ty, show(y)[:100]), A, e)
        for e in A.events():
            if e.cls in ('Entry', 'LazyEntry') and e.meth in ('or_default', 'or_insert', 'or_insert_with') and S.at(e, A, S.v1):
                n += 1
                x = e.args[-1]
                c.check(is_app(x, 'default') or is_zeros(fld(x, 'bytes', 'FileChunk')), ty + '.write.default', '%s.write starts a new chunk with something other than zeros' % ty, A, e)
    c.need(2, 'new chunks')
    b = [i for i in c.P.I.values() if i['path'].endswith('FileChunk as std::default::Default>::default')]
    for i in b:
        v = engine.Analysis(c.P, i).exits
        c.check(all(is_zeros(fld(x.exit, 'bytes', 'FileChunk')) for x in v if x.exit is not None), 'FileChunk.default', 'a default chunk is not zero')


def chunk_of(A, S, y):
    """the stored chunk's bytes, or zeros"""
    if is_zeros(y):
        return True
    return y.op == 'fld' and y.a[1] == 'bytes' and (is_app(y.a[0], 'at', 'at_or') or is_app(y.a[0], 'default') or y.a[0].op == 'phi' and all(chunk_of(A, S, fld(z, 'bytes', 'FileChunk')) for z in A.sources(y.a[0])))


def check_merge(c, A, S, ar, what, b, cur, e):
    """the chunk next in the list is never behind the one looked for: they start together, and the one looked for moves by one"""
    its = {r for y in from_range(A, S, b) for r in iter_srcs(A, y.a[1]) if r.a[1] is S.term(S.v1)}
    for r in its:
        rg = r.a[2]
        s, n = fld(rg, 'start', rg.a[0] if rg.op == 'agg' else 'Range'), fld(rg, 'end', rg.a[0] if rg.op == 'agg' else 'Range')
        first = ar.nf(fld(s, '1', 'tuple'))
        bs = ar.bases(cur, BIG) if not cur.phis else None
        st = ar.lower(ar.nf(cur)) if bs is None else None
        c.check(st is first or bs == {first}, what + '.start', '%s looks for chunks from `%s` on in a list that starts at `%s`' % (what, show(st)[:60] if st is not None else show(cur)[:60], show(first)[:60]), A, e)
        last = ar.nf(fld(n, '1', 'tuple'))
        end = add(mk('init', A.argnames[2]), app('len', mk('init', A.argnames[3])))
        c.check(last.op == 'int' and last.a[0] >= MAXC or far(ar, A, ar.nf(mul(last, INT(4096))), end, INT(4096)), what + '.end', '%s: the list of chunks read ends at `%s`, before the last one asked for' % (what, show(last)[:80]), A, e)


def dropped(A, S, e, nexts, copies):
    """a way to e (taking the next chunk) on which the chunk taken before is not used"""
    ns = {id(x) for x in nexts}
    g = A.g

    def back(node, idx):
        """is a taken chunk reached backwards without passing its use"""
        seen, work = set(), [(node, idx)]
        while work:
            n, i = work.pop()
            N = A.nodelist[n]
            stop = False
            for x in reversed(N.events if i is None else N.events[:i]):
                if id(x) in copies:
                    stop = True
                    break
                if id(x) in ns:
                    return True
            if stop:
                continue
            for p in g.pred.get(n, ()):
                if p not in seen:
                    seen.add(p)
                    work.append((p, None))
        return False
    # nothing is held: known from a value that says so
    held = [t.a[0] for t, v in e.facts.items() if t.op == 'disc' and v == frozenset([0]) and t.a[0].op == 'phi']
    held = [x for x in held if from_range(A, S, x)]
    if not held:
        return True if back(e.node.id, e.idx) else None
    for h in held:
        seen, work, bad = set(), [h], False
        while work and not bad:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            J = A.nodelist[x.a[0]]
            for k, s in J.ins.items():
                v = A.phi_on_edge(x, s)
                if v is None or v is x:
                    continue
                if s.facts.get(mk('disc', v)) in (frozenset([0]), frozenset([1])):
                    continue        # either at its end, or still held (and then not empty)
                if v.op == 'phi' and v in A.phi_in:
                    work.append(v)
                elif v.op == 'agg' and v.a[1] == 'None' and k[0] != 'entry' and back(k[0], None):
                    bad = True
                    break
        if not bad:
            return None
    return True


def may_be(A, x, p):
    """p may be what the join x stands for"""
    seen, work = set(), [x]
    while work:
        y = work.pop()
        if y is p:
            return True
        if y not in seen:
            seen.add(y)
            if y.op == 'phi':
                work.extend(A.phi_in.get(y, ()))
    return False


def fresh(c, R):
    S = St(c, R, 'StableStorage')
    if not S.mem or not S.ptr:
        return
    A = S.an('write')
    ar = Arith(S, A)
    cs = ar.nf(S.term(S.csize))
    ts = transfers(S, A, 'write', A.argnames[3])
    n = 0
    for e in S.map_ev(A, S.ptr, 'insert'):
        if S.metakey(S.key_of(e)[1]) or S.within(e, 'put_metadata'):
            continue
        n += 1
        p = e.args[2]
        iv, raw = {}, {}
        for w in S.mem_ev(A, S.mem, 'write'):
            t = next((t for x, t in ts if x is w), None)
            r = split_addr(A, S, w.args[1])
            if r is None or not may_be(A, r[0], p) or t is None and not is_zeros(w.args[2]):
                continue
            z = w.args[2]
            N = ar.nf(t.N) if t is not None else ar.nf(sub(z.a[3], z.a[2]) if is_app(z, 'sl') else app('sllen', z))
            iv.setdefault((ar.nf(r[1]), N), set()).add(id(w))
            raw.setdefault((ar.nf(r[1]), N), sub(z.a[3], z.a[2]) if is_app(z, 'sl') else app('sllen', z))
        for k in list(iv):
            hit = lambda x, k=k: id(x) in iv[k]
            # not writing an empty piece is fine
            some = lambda a, b, k=k: not all(holds(A, s.facts, le(raw[k], ZERO)) is True for q, s in A.nodelist[b].ins.items() if q[0] == a)
            if not A.g.must_before(e, hit, some) and A.g.must_after(e, hit, edge_ok=some):
                del iv[k]
        pos, ok = ZERO, False
        for _ in range(len(iv) + 1):
            if pos is cs:
                ok = True
                break
            nx = [add(o, N) for o, N in iv if o is pos and N is not ZERO]
            if not nx:
                break
            pos = ar.nf(nx[0])
        c.check(ok, 'StableStorage.write.fresh', 'StableStorage.write leaves the bytes of a new chunk from `%s` on as they were' % show(pos)[:80], A, e)
    c.need(1, 'new chunks of the chunked store')
