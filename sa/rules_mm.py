"""C29: no memory is accessed beyond what it was grown to"""
from rules_tr import *
from rules_ly import ctors
import engine

PAGE = 65536
BYTES = {'u64': 8, 'i64': 8, 'usize': 8, 'u32': 4, 'i32': 4, 'u16': 2, 'u8': 1}


def core_of(t):
    """the memory behind the writes and grows done to it"""
    while t.op == 'upd' and t.a[0] in ('mgrow', 'mwrite'):
        t = t.a[1]
    return t


def roots(A, t):
    """the memories t may be"""
    seen, work, out = set(), [t], set()
    while work:
        x = core_of(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        else:
            out.add(x)
    return out


class Grown:
    def __init__(self, S, A, ok_addr=lambda x: False):
        self.S, self.A = S, A
        self.ar = Arith(S, A)
        self.ok_addr = ok_addr
        self.why = None
        self.rt = {}
        self.bigm = {}
        self.failed = set()

    def same(self, m, M):
        """m is the memory M, at some earlier or later time"""
        for x in (m, M):
            if x not in self.rt:
                self.rt[x] = roots(self.A, x)
        return bool(self.rt[m]) and self.rt[m] == self.rt[M]

    def covers(self, pages, need):
        """that many pages hold the bytes below need"""
        ar = self.ar
        if pages.op == 'int':
            n = ar.nf(need)
            return ar.ge0(sub(INT(pages.a[0] * PAGE), n))
        k, ps = lin_parts(pages)
        if len(ps) == 1:
            (x, m), = ps.items()
            if m == 1 and is_app(x, 'div') and x.a[2].op == 'int' and x.a[2].a[0] == PAGE:
                # at least that many bytes: the division rounds down
                return self.bytes(add(x.a[1], INT(PAGE * k - PAGE + 1)), need)
        return False

    def bytes(self, have, need):
        ar = self.ar
        d = sub(ar.nf(have), ar.nf(need))
        return ar.ge0(d) or ar.ge0(ar.nf(d))

    def said(self, facts, M, need):
        """something known here says that M has the pages"""
        for t, v in facts.items():
            if is_app(t, 'msize') and (type(v) is tuple and v[0] == 'n' and 0 in v[1] or type(v) is frozenset and 0 not in v) and self.same(t.a[1], M) and self.covers(ONE, need):
                return True
        for h in self.ar.le_facts(dict(facts)):
            # h <= 0 with h = P - msize(m)
            for x, k in lin_parts(h)[1].items():
                if k == -1 and is_app(x, 'msize') and self.same(x.a[1], M) and self.covers(add(h, x), need):
                    return True
                if k == -PAGE and is_app(x, 'msize') and self.same(x.a[1], M) and self.bytes(add(h, scale(x, PAGE)), need):
                    return True
        return False

    def options(self, need, depth=0):
        """need, and weaker forms of it that imply it: a minimum is at most each of its parts"""
        mins = [z for z, k in lin_parts(need)[1].items() if is_app(z, 'min') and k > 0]
        if not mins or depth > 3:
            return [need]
        z = mins[0]
        k = lin_parts(need)[1][z]
        out = []
        for y in z.a[1:]:
            out += self.options(self.ar.nf(add(sub(need, scale(z, k)), scale(y, k))), depth + 1)
        return out

    def ok(self, e, need):
        """whichever way e is reached, its memory holds the bytes below need"""
        need = self.ar.nf(need)
        for n in [x for x in self.options(need) if x is not need] + [need]:
            if self.back(e, n):
                return True
        return False

    def grows(self, x, M, need):
        if x.cls not in ('Memory', 'VMem') or x.meth != 'grow' or not self.same(x.args[0], M):
            return False
        amt = x.args[1]
        for y in [amt] + list(amt.a[1:]) if is_app(amt, 'max') else [amt]:
            if self.more(y, M, need):
                return True
        return False

    def more(self, amt, M, need):
        """the memory holds the bytes below need when it was made larger by this"""
        if is_app(amt, 'saturating_sub', 'satsub'):
            amt = sub(amt.a[1], amt.a[2])
        if self.covers(amt, need):
            return True
        return any(k == -1 and is_app(y, 'msize') and self.same(y.a[1], M) and self.covers(add(amt, y), need) for y, k in lin_parts(amt)[1].items())

    def big(self, t):
        """no end in sight: the address grows with every turn of a loop"""
        r = self.bigm.get(t)
        if r is None:
            r = n = 0
            for x in subterms(t):
                n += 1
                r += is_app(x, 'min', 'max')
                if n > 4000:
                    r = 99
                    break
            self.bigm[t] = r
        return r > 6

    def back(self, e, need):
        ar, A, M = self.ar, self.A, e.args[0]
        memo, work = set(), [(e.node, e.idx, need)]
        if self.ok_addr(need) or self.said(e.facts, M, need):
            return True
        while work:
            N, i, need = work.pop()
            if any(self.grows(x, M, need) for x in (N.events if i is None else N.events[:i])):
                continue
            for k, s in N.ins.items():
                n2 = need
                if N.id in need.phis:
                    (n2,), _ = edge_subst(A, N, s, [need], {})
                    n2 = ar.nf(n2)
                    if n2 is need and any(x.op == 'phi' and x.a[0] == N.id and A.phi_on_edge(x, s) is None for x in subterms(need)):
                        self.why = need
                        return False
                if (k[0], n2) in memo:
                    continue
                memo.add((k[0], n2))
                if n2 is not need and self.ok_addr(n2) or self.said(s.facts, M, n2):
                    continue
                if k[0] == 'entry' or len(memo) > 8000 or self.big(n2):
                    self.why = n2
                    return False
                work.append((A.nodelist[k[0]], None, n2))
        return True


def size_of(c, A, S, v, ar):
    """how many bytes the access moves, None when it cannot be told"""
    if is_app(v, 'sl'):
        return ar.nf(sub(v.a[3], v.a[2]))
    if v.op in ('int', 'lin') or is_app(v, 'mread', 'cast', 'at', 'next'):
        return INT(8)
    for t in c.P.types if not hasattr(c.P.types, 'values') else c.P.types.values():
        if v.op == 'agg' and t.get('path') == v.a[0] and t.get('size'):
            return INT(t['size'])
    return None


def tell(c, G, e, need, key, text):
    # one report for a key is enough
    ok = key not in G.failed and G.ok(e, need)
    if not ok:
        G.failed.add(key)
    c.check(ok, key, '%s (not covered: `%s`)' % (text, show(G.why)[:160] if G.why is not None else '?'), G.A, e)


def c29(c):
    R = Roles(c)
    T = {'C29.mounted': 'a mounted memory is read and written only below the size it was grown to on the way there',
         'C29.chunk': 'the chunk memory is grown to the end of a new chunk before anything is done in it, and nothing goes past the end of a chunk',
         'C29.list': 'the memory of the list of free chunks is grown before a number is written to it',
         'C29.start': 'the constructors grow or find grown every memory they look into'}
    for k, x in T.items():
        c.rule(k, x)
    todo = []
    for ty in BACK:
        S = St(c, R, ty)
        for m in S.methods():
            A = S.an(m)
            others = [x for x in S.methods() if x != m]
            for e in A.events():
                if e.cls not in ('Memory', 'VMem') or e.meth not in ('read', 'write') or S.within(e, *others):
                    continue
                k = 'chunk' if S.mem and S.at(e, A, S.mem) else 'list' if S.alloc and (S.at(e, A, S.alloc) or any(x.op == 'fld' and alloc_part(S, x) for x in roots(A, e.args[0]))) else 'mounted'
                todo.append((k, S, A, ty + '.' + m, e))
    gs = {}
    for kind in ('mounted', 'chunk', 'list'):
        c.rule('C29.' + kind, T['C29.' + kind])
        for k, S, A, what, e in todo:
            if k != kind:
                continue
            if id(A) not in gs:
                gs[id(A)] = Grown(S, A)
            G = gs[id(A)]
            ar = G.ar
            n = size_of(c, A, S, e.args[2], ar)
            if kind == 'mounted':
                n = ar.nf(app('sllen', e.args[2])) if n is None else n
                if n is None or is_app(n, 'sllen') and not is_app(e.args[2], 'sl'):
                    n = app('len', e.args[2])
                G.ok_addr = lambda x: False
                tell(c, G, e, add(e.args[1], n), what + '.mounted', '%s may %s a mounted memory beyond its end' % (what, e.meth))
            elif kind == 'list':
                if e.meth == 'write':
                    G.ok_addr = lambda x: False
                    tell(c, G, e, add(e.args[1], n if n is not None else INT(8)), what + '.list', '%s may write to the list of free chunks beyond the end of its memory' % what)
            else:
                chunk(c, G, S, A, what, e, n)
        c.need({'mounted': 6, 'chunk': 6, 'list': 6}[kind], 'accesses')
    c.rule('C29.start', T['C29.start'])
    S = St(c, R, 'StableStorage')
    for K in ctors(c, R, S):
        A = K.A
        G = Grown(S, A)
        for e in A.events():
            if e.cls not in ('Memory', 'VMem') or e.meth not in ('read', 'write') or K.mem_of(e) == dict_of('chunk contents'):
                continue
            n = size_of(c, A, S, e.args[2], G.ar)
            if e.args[1].op != 'int' and e.meth == 'read':
                continue        # a number of the list of free chunks that was pushed before (C14)
            # what a fixed address needs is settled by the page it lies in
            tell(c, G, e, add(e.args[1], n if n is not None and n.op == 'int' else INT(8)), K.name + '.start', '%s may %s a memory that was not grown' % (K.name, e.meth))
    c.need(8, 'accesses')


def dict_of(what):
    from rules_ly import PLACES
    return dict(PLACES)[what]


def alloc_part(S, x):
    t = S.term(S.alloc)
    while x.op == 'fld':
        if x is t:
            return True
        x = x.a[0]
    return False


def chunk(c, G, S, A, what, e, n):
    ar = G.ar
    cs = ar.nf(S.term(S.csize))
    r = split_addr(A, S, e.args[1])
    if r is None:
        c.check(False, what + '.chunk', '%s works in the chunk memory at an address that is not that of a chunk: `%s`' % (what, show(e.args[1])[:100]), A, e)
        return
    base, off = r
    kinds = S.ptr_kinds(A, base)
    if 'meta' in kinds and 'data' not in kinds:
        end = n if n is not None else INT(8)
        want = 'meta'
    else:
        end, want = cs, 'data'
        if is_zeros(e.args[2]) and n is not None:
            ok = ar.never_pos(sub(add(ar.nf(off), n), cs), e.facts)
            c.check(ok, what + '.past', '%s may clear bytes past the end of a chunk: `%s`' % (what, show(ar.why)[:120]), A, e)

    def stored(x):
        q = sub(x, ar.nf(end))
        bs = S.bases(A, q, set())
        return bool(bs) and all(S.ptr_kind(A, b) == {want} for b in bs)
    G.ok_addr = stored
    tell(c, G, e, add(base, end), what + '.chunk', '%s may %s in a chunk beyond the end of the chunk memory' % (what, e.meth))
