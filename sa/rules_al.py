"""Stable storage: chunk allocator and ownership of chunks."""
from core import *
from roles import *
from rules_fd import facts_str
from rules_fs import *
from rules_io import *
from rules_st import *
from rules_sm import *
from terms import *
import engine

LEN, MAXP, SIZE, SLOTS = 16, 24, 8, 128
ST = 'StableStorage'


def apart(a, addr):
    """an 8-byte access at term a cannot overlap the 8 bytes at the constant addr"""
    if a.op == 'int':
        return abs(a.a[0] - addr) >= 8
    k, d = lin_parts(a)
    return all(q > 0 for q in d.values()) and k >= addr + 8


def unchanged(A, m1, m0, addr, apart=apart):
    """no write that can touch addr lies between the memory states m0 and m1"""
    seen, work = set(), [m1]
    while work:
        x = work.pop()
        if x is m0 or x in seen:
            continue
        seen.add(x)
        if x.op == 'upd' and x.a[0] in ('mgrow',):
            work.append(x.a[1])
        elif x.op == 'upd' and x.a[0] == 'mwrite' and apart(x.a[2], addr):
            work.append(x.a[1])
        elif x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        else:
            return False
    return True


class Al:
    def __init__(self, S):
        self.S = S
        self.root = S.term(S.alloc)

    def cur(self, A, e):
        st = engine.State(dict(e.env), dict(e.facts))
        return A.rd(st, ('p', A.argnames[0]), self.S.alloc)

    def read(self, A, t, addr=None):
        """t was read from the allocator's memory (at the constant addr)"""
        return is_app(t, 'mread') and started(A, t.a[1], self.root) and (addr is None or t.a[2].op == 'int' and t.a[2].a[0] == addr)

    def is_len(self, A, t):
        return self.read(A, t, LEN)

    def slot(self, A, a):
        """a = address of slot number i  ->  i"""
        i = sub(a, INT(SLOTS))
        k, d = lin_parts(i)
        if k % 8 or any(q % 8 for q in d.values()):
            return None
        i = INT(k // 8)
        for x, q in d.items():
            i = add(i, scale(x, q // 8))
        return i

    def popped(self, A, t):
        """t was read from the topmost slot -> the length term"""
        if not self.read(A, t):
            return None
        i = self.slot(A, t.a[2])
        if i is None:
            return None
        for L in lin_parts(i)[1]:
            if self.is_len(A, L) and i is sub(L, INT(1)):
                return L
        return None

    def writes(self, A):
        for e in self.S.mem_ev(A, self.S.alloc, 'write'):
            yield e


def same_read(A, x, y):
    """two reads of the same address give the same value"""
    return x is y or is_app(x, 'mread') and is_app(y, 'mread') and x.a[2] is y.a[2] and x.a[2].op == 'int' and \
        (unchanged(A, x.a[1], y.a[1], x.a[2].a[0]) or unchanged(A, y.a[1], x.a[1], x.a[2].a[0]))


def c14(c):
    R = Roles(c)
    S = St(c, R, ST)
    al = Al(S)
    c.rule('C14.book', 'the book of free chunks changes only by taking its last entry, adding an entry at its end, or raising the highest address by one chunk when the book is empty; '
           'each of them reads the current values and is completed before anything else happens to the book')
    c.rule('C14.own', 'an allocated chunk is recorded exactly once, under a number of the file that has no chunk yet, before the next allocation; nothing else is recorded as a chunk')
    c.rule('C14.free', 'a chunk is given back exactly when its record was removed, and exactly once')
    for m in S.methods():
        if m.startswith('new') and m not in ('new_node', 'new_direntry_index') or m == 'set_chunk_size':
            continue
        A = S.an(m)
        ws = list(al.writes(A))
        inside = lambda e: m != 'put_metadata' and S.within(e, 'put_metadata')
        slots, lens, bumps = [], [], []
        c.cur = 'C14.book'
        for e in ws:
            if inside(e):
                c.ob()
                continue
            a, v = e.args[1], e.args[2]
            cur = al.cur(A, e)
            if a.op == 'int' and a.a[0] == LEN:
                k, d = lin_parts(v)
                L = next(iter(d)) if len(d) == 1 and list(d.values()) == [1] else None
                okk = L is not None and al.is_len(A, L) and unchanged(A, cur, L.a[1], LEN) and k in (1, -1)
                if c.check(okk, '%s.len' % m, '%s sets the number of free chunks to `%s`' % (m, show(v)[:120]), A, e):
                    lens.append((e, L, k))
            elif a.op == 'int' and a.a[0] == MAXP:
                M = [x for x in lin_parts(v)[1] if al.read(A, x, MAXP)]
                okk = len(M) == 1 and unchanged(A, cur, M[0].a[1], MAXP) and sub(v, M[0]) is S.term(S.csize)
                if c.check(okk, '%s.max' % m, '%s sets the highest address to `%s`' % (m, show(v)[:120]), A, e):
                    bumps.append((e, M[0]))
                    empty = memo(lambda f: any(al.is_len(A, t) and w == frozenset([0]) and unchanged(A, cur, t.a[1], LEN) for t, w in f.items()))
                    c.check(A.g.established(e, empty, [v]), '%s.reuse' % m, '%s takes new memory although free chunks may be left' % m, A, e)
            else:
                i = al.slot(A, a)
                okk = i is not None and al.is_len(A, i) and unchanged(A, cur, i.a[1], LEN)
                if c.check(okk, '%s.slot' % m, '%s writes to the allocator at `%s`' % (m, show(a)[:120]), A, e):
                    slots.append((e, i, v))
        # pairing
        ids = {id(e) for e in ws}
        allocs = {}
        for e, L, k in lens:
            if k == -1:
                nz = memo(lambda f: not_fact(f, L, 0) or any(al.is_len(A, t) and same_read(A, t, L) and not_fact(f, t, 0) for t in f))
                c.check(A.g.established(e, nz, [L]), '%s.pop.empty' % m, '%s takes an entry of the book of free chunks which may be empty' % m, A, e)
                allocs[id(e)] = (e, lambda t, L=L: (lambda q: q is not None and same_read(A, q, L))(al.popped(A, t)))
            else:
                before = {id(x[0]) for x in slots if same_read(A, x[1], L)}
                c.check(A.g.must_before(e, lambda x: id(x) in before), '%s.push.slot' % m, '%s counts a free chunk that was not entered' % m, A, e)
        for e, i, v in slots:
            after = {id(x[0]) for x in lens if x[2] == 1 and same_read(A, x[1], i)}
            evs, exits, _ = A.g.after(e, lambda x: id(x) in after)
            c.check(not exits and not any(id(x) in ids and id(x) not in after for x in evs), '%s.push.len' % m, '%s enters a free chunk that is not counted' % m, A, e)
        for e, M in bumps:
            allocs[id(e)] = (e, lambda t, M=M: al.read(A, t, MAXP) and same_read(A, t, M))
        # ownership
        c.cur = 'C14.own'
        ins = [e for e in S.map_ev(A, S.ptr, 'insert') if not inside(e)]
        for e, mine in allocs.values():
            rec = {id(x) for x in ins if any(mine(t) for t in A.sources(x.args[2]))}
            evs, exits, _ = A.g.after(e, lambda x: id(x) in rec)
            c.check(not exits and not any(id(x) in allocs for x in evs), '%s.recorded' % m, '%s can allocate a chunk without recording it' % m, A, e)
        for e in ins:
            srcs = A.sources(e.args[2])
            okk = bool(srcs) and all(any(mine(t) for _, mine in allocs.values()) for t in srcs)
            c.check(okk, '%s.value' % m, '%s records `%s` as a chunk which was not just allocated' % (m, show(e.args[2])[:100]), A, e)
            al_ids = {i for i, (x, mine) in allocs.items() if any(mine(t) for t in srcs)}
            evs, _, _ = A.g.after(e, lambda x: id(x) in al_ids)
            iids = {id(x) for x in ins}
            c.check(bool(al_ids) and not any(id(x) in iids and set(A.sources(x.args[2])) & set(srcs) for x in evs), '%s.once' % m, '%s can record a chunk twice' % m, A, e)
            key = e.args[1]
            c.check(A.g.established(e, memo(lambda f: vacant(A, S, R, f, key, fld(key, '0', 'tuple'))), [key]), '%s.vacant' % m, '%s can replace the record of a chunk' % m, A, e, facts_str(e.facts)[-400:])
        for e in S.map_ev(A, S.ptr):
            if e.meth in ('insert', 'remove', 'get', 'contains_key', 'range', 'keys_range', 'values_range', 'iter', 'len', 'is_empty', 'first_key_value', 'last_key_value', 'keys', 'values'):
                continue
            if not inside(e):
                c.check(False, '%s.%s' % (m, e.meth), '%s changes the records of chunks with %s' % (m, e.meth), A, e)
        # release
        c.cur = 'C14.free'
        rms = [e for e in S.map_ev(A, S.ptr, 'remove') if not inside(e)]
        for e in rms:
            val = removed_value(A, e)
            put = {id(x[0]) for x in slots if any(t is val for t in A.sources(x[2]))}
            hit = mk('disc', e.res) if e.res is not None else None
            none = memo(lambda f: hit is not None and has_fact(f, hit, 0))
            bad = A.g.must_after(e, lambda x: id(x) in put, edge_ok=ok_edges(A, none))
            c.check(not bad, '%s.released' % m, '%s can drop the record of a chunk without giving the chunk back' % m, A, e)
        for e, i, v in slots:
            mine = [x for x in rms if any(t is removed_value(A, x) for t in A.sources(v))]
            okk = bool(mine) and all(any(t is removed_value(A, x) for x in rms) for t in A.sources(v))
            c.check(okk, '%s.owned' % m, '%s gives back `%s` which is not a chunk whose record was removed' % (m, show(v)[:100]), A, e)
            mids = {id(x) for x in mine}
            sids = {id(x[0]) for x in slots}
            evs, _, _ = A.g.after(e, lambda x: id(x) in mids)
            c.check(A.g.must_before(e, lambda x: id(x) in mids) and not any(id(x) in sids for x in evs), '%s.twice' % m, '%s can give a chunk back twice' % m, A, e)
    for r, n in (('C14.book', 20), ('C14.own', 12), ('C14.free', 6)):
        c.rule(r, c.rules[r])
        c.need(n, 'obligations')


def removed_value(A, e):
    k = e.args[1]
    r = e.res
    if r is None:
        return None
    if is_app(r, 'get'):
        return app('at', *r.a[1:])
    return fld(r, 'Some.0', 'Option')


def vacant(A, S, R, f, key, node):
    """facts: nothing is recorded under the key"""
    for t, v in f.items():
        if t.op != 'disc':
            continue
        o = t.a[0]
        if v == frozenset([0]):
            if is_app(o, 'get') and o.a[2] is key and started(A, o.a[1], S.term(S.ptr)):
                return True
            # cached metadata that has no chunk
            if S.metakey(fld(key, '1', 'tuple')) and o.op != 'app':
                ss = A.sources(o)
                if ss and all(x.op == 'agg' and x.a[1] == 'None' or x.op == 'fld' and x.a[1] == '1' and cached_md(A, S, x.a[0], node) for x in ss):
                    return True
        # the chunk iterator found none
        if o.op == 'fld' and o.a[1] == '1' and key.op == 'agg' and v == frozenset([missing_discr(R)]):
            idx = fld(key, '1', 'tuple')
            if idx is fld(fld(o.a[0], '0', 'tuple'), '1', 'tuple'):
                return True
    return False


def missing_discr(R):
    ty = R.enums['CachedChunkPtr'][1]
    for v in ty['variants']:
        if v['name'] == 'ChunkMissing':
            return int(v['discr'])
    raise Anchor('variant for a missing chunk not found')


def cached_md(A, S, x, node):
    return is_app(x, 'at') and x.a[2] is node and any(started(A, x.a[1], S.term(p)) for p in S.mcache)
