"""Stable storage: caches in front of the stored metadata and of the chunk records."""
from core import *
from roles import *
from rules_fd import facts_str
from rules_fs import *
from rules_io import *
from rules_st import *
from rules_sm import *
from rules_al import *
from terms import *
import engine

ST = 'StableStorage'


def md_writes(A, S):
    """writes of metadata to its chunk, other than filling it with zeros"""
    for e in S.mem_ev(A, S.mem, 'write'):
        k = S.ptr_kinds(A, e.args[1])
        if 'meta' in k and not all(is_zeros(v) for v in A.sources(e.args[2])):
            yield e
    for p in S.meta:
        for e in S.map_ev(A, p, 'insert'):
            yield e


def same(A, a, b):
    return a is b or set(A.sources(a)) == set(A.sources(b))


def side_of(S, e, A):
    for i, p in enumerate(S.mcache):
        if S.at(e, A, p):
            return i
    return None


def cur_at(A, e, path):
    return A.rd(engine.State(dict(e.env), dict(e.facts)), ('p', A.argnames[0]), path)


def since(A, m1, m0, touches):
    """no change for which touches() holds lies between the states m0 and m1"""
    seen, work = set(), [m1]
    while work:
        x = work.pop()
        if x is m0 or x in seen:
            continue
        seen.add(x)
        if x.op == 'upd' and not touches(x):
            work.append(x.a[1])
        elif x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        else:
            return False
    return True


def opt_value(A, t):
    """payload of an Option which is surely Some, None for a sure None, False if unknown"""
    r = set()
    for s in A.sources(t):
        if s.op == 'agg' and s.a[1] == 'None':
            r.add(None)
        elif s.op == 'agg' and s.a[1] == 'Some':
            r.add(s.a[3])
        else:
            return False
    return r.pop() if len(r) == 1 else False


def missed_ptr(A, S, f, node):
    """facts: no chunk is recorded for the metadata of the node"""
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'get') and started(A, t.a[0].a[1], S.term(S.ptr)):
            k = t.a[0].a[2]
            if fld(k, '0', 'tuple') is node and S.metakey(fld(k, '1', 'tuple')):
                return True
        if t.op == 'app' and t.a[0] == 'contains_key' and v == frozenset([0]) and started(A, t.a[1], S.term(S.ptr)):
            k = t.a[2]
            if fld(k, '0', 'tuple') is node and S.metakey(fld(k, '1', 'tuple')):
                return True
    return False


def c19(c):
    R = Roles(c)
    S = St(c, R, ST)
    c.rule('C19.fill', 'the metadata cache is filled only with what was just read from, or just written to, the place where the metadata of exactly that file is stored, together with the address of that place')
    c.rule('C19.follow', 'stored metadata that changes is replaced in the cache in the same operation')
    c.rule('C19.rm', 'when stored metadata is removed, it leaves the cache in the same operation')
    c.rule('C19.place', 'metadata is written to the chunk that is recorded for the metadata of that file')
    c.rule('C19.answer', 'the metadata reported is that of the cache, of the metadata chunk or of the metadata map of exactly the file asked for; the map is asked only when there is no chunk')
    for m in S.methods():
        A = S.an(m)
        inside = lambda e: m != 'put_metadata' and S.within(e, 'put_metadata') or m != 'get_metadata' and S.within(e, 'get_metadata')
        ins = [(i, e) for i, p in enumerate(S.mcache) for e in S.map_ev(A, p) if e.meth in ('insert', 'entry') and not inside(e)]
        ws = [e for e in md_writes(A, S) if not inside(e)]
        wids = {}
        c.cur = 'C19.fill'
        for i, e in ins:
            if e.meth != 'insert':
                c.check(False, '%s.fill.entry' % m, '%s changes the metadata cache in place' % m, A, e)
                continue
            n, md, opt = e.args[1], fld(e.args[2], '0', 'tuple'), fld(e.args[2], '1', 'tuple')
            p = opt_value(A, opt)
            mine = {id(w) for w in ws if w.cls in ('Memory', 'VMem') and same(A, w.args[2], md) and p not in (None, False) and same(A, w.args[1], p)}
            mine |= {id(w) for w in ws if w.cls not in ('Memory', 'VMem') and w.args[1] is n and same(A, w.args[2], md) and p is None}
            if mine and A.g.must_before(e, lambda x: id(x) in mine):
                for w in mine:
                    wids.setdefault(w, set()).add(id(e))
                c.ob()
                # and nothing else was written over it
                others = {id(w) for w in ws} - mine
                bad = False
                for w in ws:
                    if id(w) in others:
                        evs, _, _ = A.g.after(w, lambda x: id(x) in mine)
                        bad = bad or any(x is e for x in evs)
                c.check(not bad, '%s.fill.late' % m, '%s caches metadata that was overwritten since' % m, A, e)
                continue
            okk = True
            for s in A.sources(md):
                if is_app(s, 'mread'):
                    a = s.a[2]
                    k = a.a[2] if is_app(a, 'at') and started(A, a.a[1], S.term(S.ptr)) else None
                    okk = okk and k is not None and fld(k, '0', 'tuple') is n and S.metakey(fld(k, '1', 'tuple')) and p is not None and p is not False and same(A, p, a) \
                        and started(A, s.a[1], S.term(S.mem)) and since(A, cur_at(A, e, S.mem), s.a[1], lambda u: u.a[0] == 'mwrite' and 'meta' in S.ptr_kinds(A, u.a[2]))
                elif is_app(s, 'at') and any(started(A, s.a[1], S.term(q)) for q in S.meta):
                    okk = okk and s.a[2] is n and p is None and A.g.established(e, memo(lambda f: missed_ptr(A, S, f, n)), [n])
                else:
                    okk = False
            c.check(okk and bool(A.sources(md)), '%s.fill' % m, '%s caches metadata `%s` with the address `%s`, which is not what is stored for the file `%s`' % (m, show(md)[:120], show(opt)[:80], show(n)[:60]), A, e)
        c.cur = 'C19.follow'
        for w in ws:
            mine = {id(e) for i, e in ins if e.meth == 'insert' and id(e) in wids.get(id(w), ())}
            # the same metadata for the same side
            bad = A.g.must_after(w, lambda x: id(x) in mine) if mine else [w]
            c.check(not bad, '%s.follow' % m, '%s stores metadata without replacing what the cache says' % m, A, w)
        c.cur = 'C19.rm'
        rms = []
        for p in S.meta:
            rms += [(e, e.args[1]) for e in S.map_ev(A, p, 'remove') if not inside(e)]
        for e in S.map_ev(A, S.ptr, 'remove'):
            if not inside(e) and may_meta(A, S, e):
                rms.append((e, S.key_of(e)[0]))
        for e, n in rms:
            for i, p in enumerate(S.mcache):
                out = {id(x) for x in S.map_ev(A, p) if x.meth in ('clear', 'clear_new') or x.meth == 'remove' and x.args[1] is n}
                fills = {id(x) for j, x in ins if j == i}
                late = not A.g.must_after(e, lambda x: id(x) in out)
                if not late:
                    evs, exits, _ = A.g.after(e, lambda x: id(x) in out)
                    early = A.g.must_before(e, lambda x: id(x) in out) and not any(
                        id(x) in fills and any(y is e for y in A.g.after(x, lambda z: id(z) in out)[0]) for _, x in ins) and not any(id(x) in fills for x in evs)
                c.check(late or early, '%s.rm%d' % (m, i), '%s removes stored metadata that the cache keeps' % m, A, e)
        c.cur = 'C19.place'
        for w in ws:
            if w.cls not in ('Memory', 'VMem'):
                continue
            n = {e.args[1] for i, e in ins if id(e) in wids.get(id(w), ())}
            if len(n) != 1:
                continue
            n, = n
            okk = S.ptr_kinds(A, w.args[1]) == {'meta'}
            for s in A.sources(w.args[1]):
                okk = okk and of_node(A, S, s, n)
            c.check(okk, '%s.place' % m, '%s writes metadata of `%s` to `%s`, which is not its recorded place' % (m, show(n)[:60], show(w.args[1])[:120]), A, w)
    A = S.an('get_metadata')
    c.cur = 'C19.answer'
    n = mk('init', A.argnames[1])
    for x in A.exits:
        if 'Ok' not in variant(A, x):
            continue
        for s in ok_sources(A, x):
            okk = False
            if is_app(s, 'mread'):
                a = s.a[2]
                okk = is_app(a, 'at') and started(A, a.a[1], S.term(S.ptr)) and fld(a.a[2], '0', 'tuple') is n and S.metakey(fld(a.a[2], '1', 'tuple'))
            elif s.op == 'fld' and s.a[1] == '0' and is_app(s.a[0], 'at'):
                okk = s.a[0].a[2] is n and any(started(A, s.a[0].a[1], S.term(q)) for q in S.mcache)
            elif is_app(s, 'at'):
                okk = s.a[2] is n and any(started(A, s.a[1], S.term(q)) for q in S.meta)
            elif s.op == 'agg':
                okk = True      # initial metadata of the root: C22/C09
            c.check(okk, 'answer', 'get_metadata reports `%s`, which is not the stored metadata of the file asked for' % show(s)[:120], A, None)
    for p in S.meta:
        for e in S.map_ev(A, p, 'get'):
            c.check(e.args[1] is n, 'map.key', 'get_metadata asks the metadata map for another file', A, e)
    c.rule('C19.side', 'what is cached about mounted files and about files that are not mounted is kept apart')
    sides_apart(c, S, ST, S.methods(), 'cache')
    for r, k in (('C19.side', 8), ('C19.fill', 6), ('C19.follow', 4), ('C19.rm', 4), ('C19.place', 4), ('C19.answer', 4)):
        c.rule(r, c.rules[r])
        c.need(k, 'obligations')


def ok_sources(A, x):
    r = set()
    for s in A.sources(x.exit):
        if s.op == 'agg' and s.a[1] == 'Ok':
            r |= set(A.sources(s.a[3]))
        elif s.op == 'agg':
            continue
        else:
            r |= set(A.sources(fld(s, 'Ok.0', 'Result')))
    return r


def may_meta(A, S, e):
    """the removed chunk record may be that of metadata"""
    k = S.key_of(e)
    if S.metakey(k[1]):
        return True
    if k[1].op == 'int':
        return False
    rs = set()
    for x in subterms(k[1]):
        if is_app(x, 'next', 'next_back', 'pop'):
            rs |= iter_srcs(A, x.a[1])
    if not rs:
        return True
    for r in rs:
        rg = r.a[2] if len(r.a) > 2 else None
        if rg is None:
            return True
        s, t = fld(rg, 'start'), fld(rg, 'end')
        hi = fld(t, '1', 'tuple')
        if not (fld(s, '0', 'tuple') is fld(t, '0', 'tuple') and hi.op == 'int' and hi.a[0] <= MAXC):
            return True
    return False


def of_node(A, S, s, n):
    """the address s is recorded as the place of the metadata of node n"""
    if is_app(s, 'at') and started(A, s.a[1], S.term(S.ptr)):
        return fld(s.a[2], '0', 'tuple') is n and S.metakey(fld(s.a[2], '1', 'tuple'))
    for e in S.map_ev(A, S.ptr, 'insert'):
        if any(x is s for x in A.sources(e.args[2])):
            k = S.key_of(e)
            return k[0] is n and S.metakey(k[1])
    x = s
    while x.op == 'fld':
        x = x.a[0]
    if is_app(x, 'at', 'get') and any(started(A, x.a[1], S.term(q)) for q in S.mcache):
        return x.a[2] is n
    return False


# ------------------------------------------------------------------ C20
def elements(A, it):
    """(element, push event or None) for what an iterator over vectors can give; None if something else is in it"""
    out, seen, work = [], set(), [it]
    pushes = {}
    for e in A.events():
        if e.cls == 'Vec' and e.meth in ('push', 'push_back', 'insert'):
            pushes.setdefault(e.args[-1], []).append(e)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        elif x.op == 'upd' and x.a[0] == 'push':
            work.append(x.a[1])
            for p in pushes.get(x.a[2]) or [None]:
                out.append((x.a[2], p))
        elif x.op == 'upd' and x.a[0] in ('advance', 'pop', 'popped', 'clear'):
            work.append(x.a[1])
        elif is_app(x, 'vecnew', 'mapnew'):
            pass
        elif x.op == 'agg' and x.a[0] == 'array':
            out.extend((y, None) for y in x.a[3:])
        elif x.op == 'app' and (x.a[0] in ('iter', 'into_iter', 'itermut', 'rev', 'peekable') or 'collect' in x.a[0] or 'from_iter' in x.a[0]):
            work.append(x.a[1])
        else:
            return None
    return out


def pairs(A, e):
    """(key, value, event whose facts describe it) put into a map by the insert event e"""
    if e.meth == 'extend':
        for x, p in elements(A, e.args[1]) or ():
            yield fld(x, '0', 'tuple'), fld(x, '1', 'tuple'), p or e
        return
    k, v = e.args[1], e.args[2]
    b, path = k, []
    while b.op == 'fld' and not (b.a[1] == 'Some.0' and is_app(b.a[0], 'next', 'next_back', 'pop')):
        path.append(b.a[1])
        b = b.a[0]
    if b.op == 'fld':
        b2, path2 = v, []
        while b2.op == 'fld' and b2 is not b:
            path2.append(b2.a[1])
            b2 = b2.a[0]
        el = elements(A, b.a[0].a[1])
        if b2 is b and el is not None:
            for x, p in el:
                kk, vv = x, x
                for f in reversed(path):
                    kk = fld(kk, f)
                for f in reversed(path2):
                    vv = fld(vv, f)
                yield kk, vv, p or e
            return
        if el is None and b2 is not b:
            # only the key comes from an iteration
            pass
    yield k, v, e


def visits(A, e):
    """the insert event, and the steps of the iteration that surely lead to it once they yield an element"""
    out = {id(e)}
    if e.meth == 'extend':
        return out
    nx = elem_next(A, e.args[1])
    for x in A.events():
        if x.meth in ('next', 'next_back', 'pop') and x.res is not None and x.res in nx:
            d = mk('disc', x.res)

            def some(a, n, d=d):
                return any(k[0] == a and s.facts.get(d) != frozenset([0]) for k, s in A.nodelist[n].ins.items())
            evs, exits, _ = A.g.after(x, lambda y: y is e, some)
            if not exits and not any(y is x for y in evs):
                out.add(id(x))
    return out


def ptr_ranges(A, S, x):
    """the ranges over the chunk records the element x was taken from; None if from anything else"""
    out = set()
    for s in A.sources(x):
        if s.op == 'fld' and s.a[1] == 'Some.0':
            s = s.a[0]
        if not is_app(s, 'next', 'next_back'):
            return None
        r = iter_srcs(A, s.a[1])
        if not r or not all(started(A, y.a[1], S.term(S.ptr)) for y in r):
            return None
        out |= r
    return out


def node_known(A, R_, f, n, x):
    """the element x of a range over the chunk records belongs to file n"""
    xn = fld(fld(x, '0'), '0')
    if xn is n or holds(A, f, eq(xn, n)) is True:
        return True
    for r in R_:
        s, t = fld(r.a[2], 'start'), fld(r.a[2], 'end')
        if not (fld(s, '0') is n and fld(t, '0') is n):
            return False
    return bool(R_)


def elems_in(A, t):
    """x such that x.Some.0 occurs in t"""
    for y in subterms(t):
        if y.op == 'fld' and y.a[1] == 'Some.0':
            yield y


def c20(c):
    R = Roles(c)
    S = St(c, R, ST)
    miss = missing_discr(R)
    data = lambda u: u.a[0] in ('insert', 'remove') and not S.metakey(fld(u.a[2], '1', 'tuple')) or u.a[0] not in ('insert', 'remove')
    c.rule('C20.fill', 'the cache of chunk addresses says where a chunk is only for what is, or was just, recorded for exactly that chunk, and says that there is none only where nothing is recorded')
    c.rule('C20.follow', 'when the record of a chunk is added, replaced or removed, the cached answer is replaced or dropped in the same operation')
    for m in S.methods():
        A = S.an(m)
        inside = lambda e: m != 'put_metadata' and S.within(e, 'put_metadata')
        fills = [e for e in S.map_ev(A, S.pcache) if e.meth in ('insert', 'entry', 'extend') and not inside(e)]
        recs = [e for e in S.map_ev(A, S.ptr, 'insert') if not inside(e)]
        c.cur = 'C20.fill'
        fresh = {}
        for e in fills:
            if e.meth != 'insert' and not (e.meth == 'extend' and elements(A, e.args[1]) is not None):
                c.check(False, '%s.fill.%s' % (m, e.meth), '%s changes cached chunk addresses with %s' % (m, e.meth), A, e)
                continue
            visit = visits(A, e)
            for k, v, at in pairs(A, e):
                n, i = fld(k, '0', 'tuple'), fld(k, '1', 'tuple')
                for s in A.sources(v):
                    if s.op == 'agg' and s.a[1] == 'ChunkExists':
                        okk = False
                        for p in [s.a[3]]:
                            mine = {id(w) for w in recs if same(A, w.args[2], p) and w.args[1] is k}
                            if mine and A.g.must_before(e, lambda x: id(x) in mine):
                                okk = True
                                for w in mine:
                                    fresh.setdefault(w, set()).update(visit)
                            elif is_app(p, 'at') and p.a[2] is k and started(A, p.a[1], S.term(S.ptr)) and since(A, cur_at(A, e, S.ptr), p.a[1], data):
                                okk = True
                            else:
                                for x in elems_in(A, p):
                                    rs = ptr_ranges(A, S, x)
                                    if rs and p is fld(x, '1') and all(since(A, cur_at(A, e, S.ptr), r.a[1], data) for r in rs):
                                        xi = fld(fld(x, '0'), '1')
                                        same_i = lambda f: i is xi or holds(A, f, eq(i, xi)) is True
                                        okk = okk or A.g.established(at, memo(lambda f: same_i(f) and node_known(A, rs, f, n, x)), [i, xi, x])
                        c.check(okk, '%s.exists' % m, '%s caches `%s` as the place of chunk `%s`, which is not what is recorded for it' % (m, show(s)[:120], show(k)[:120]), A, at, facts_str(at.facts)[-300:])
                    elif s.op == 'agg' and s.a[1] == 'ChunkMissing':
                        okk = A.g.established(at, memo(lambda f: absent(A, S, f, k, n, i, lambda mm: since(A, cur_at(A, e, S.ptr), mm, data))), [i])
                        c.check(okk, '%s.missing' % m, '%s caches that chunk `%s` does not exist, without knowing it' % (m, show(k)[:120]), A, at, facts_str(at.facts)[-2400:])
                    else:
                        c.check(False, '%s.value' % m, '%s caches `%s` for chunk `%s`' % (m, show(s)[:120], show(k)[:100]), A, at)
        c.cur = 'C20.follow'
        clears = [e for e in S.map_ev(A, S.pcache) if e.meth in ('clear', 'clear_new') and not inside(e)]
        for w in recs:
            if S.metakey(S.key_of(w)[1]):
                continue
            mine = fresh.get(id(w), set()) | {id(x) for x in clears} | {id(x) for x in S.map_ev(A, S.pcache, 'remove') if x.args[1] is w.args[1]}
            bad = A.g.must_after(w, lambda x: id(x) in mine)
            c.check(not bad, '%s.follow' % m, '%s records a chunk without replacing what the cache says' % m, A, w)
        for w in S.map_ev(A, S.ptr):
            if w.meth in ('insert', 'get', 'contains_key', 'range', 'keys_range', 'values_range', 'iter', 'len', 'is_empty', 'first_key_value', 'last_key_value', 'keys', 'values') or inside(w):
                continue
            k = S.key_of(w)
            if w.meth == 'remove' and k and S.metakey(k[1]):
                continue
            out = {id(x) for x in clears}
            if w.meth == 'remove':
                out |= {id(x) for x in S.map_ev(A, S.pcache, 'remove') if x.args[1] is w.args[1]}
            late = not A.g.must_after(w, lambda x: id(x) in out)
            early = False
            if not late:
                early = A.g.must_before(w, lambda x: id(x) in out) and not any(any(y is w for y in A.g.after(x, lambda z: id(z) in out)[0]) for x in fills)
            c.check(late or early, '%s.drop' % m, '%s removes the record of a chunk that the cache still knows' % m, A, w)
    for r, k in (('C20.fill', 6), ('C20.follow', 4)):
        c.rule(r, c.rules[r])
        c.need(k, 'obligations')


def absent(A, S, f, k, n, i, fresh):
    """facts: nothing is recorded under the key k = (n, i)"""
    root = S.term(S.ptr)
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([0]):
            o = t.a[0]
            if is_app(o, 'get') and o.a[2] is k and started(A, o.a[1], root) and fresh(o.a[1]):
                return True
            if is_app(o, 'next'):
                # the range over the records is exhausted
                rs = iter_srcs(A, o.a[1])
                if rs and all(started(A, r.a[1], root) and fresh(r.a[1]) and in_range(A, f, r, n, i) for r in rs):
                    return True
        if t.op == 'app' and t.a[0] == 'contains_key' and v == frozenset([0]) and t.a[2] is k and started(A, t.a[1], root) and fresh(t.a[1]):
            return True
        if t.op in ('le0', 'sle0', 'eq0'):
            # below the next number recorded
            for x in elems_in(A, t):
                xi = fld(fld(x, '0'), '1')
                if holds(A, f, lt(i, xi)) is True:
                    rs = ptr_ranges(A, S, x)
                    if rs and node_known(A, rs, f, n, x) and all(fresh(r.a[1]) for r in rs):
                        return True
    # a number counted up to the next one recorded
    if i.op == 'fld' and i.a[1] == 'Some.0' and is_app(i.a[0], 'next'):
        for r in A.sources(i.a[0].a[1]):
            while r.op == 'upd':
                r = r.a[1]
            for y in subterms(r):
                if y.op == 'agg' and 'Range' in str(y.a[0]):
                    hi = fld(y, 'end')
                    for x in elems_in(A, hi):
                        rs = ptr_ranges(A, S, x)
                        if rs and hi is fld(fld(x, '0'), '1') and node_known(A, rs, f, n, x) and all(fresh(q.a[1]) for q in rs):
                            return True
                    for t, v in f.items():
                        if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'next'):
                            rs = iter_srcs(A, t.a[0].a[1])
                            if rs and all(q.op == 'app' and q.a[0].startswith('iter_') and started(A, q.a[1], root) and fresh(q.a[1]) and fld(fld(q.a[2], 'start'), '0') is n and
                                          fld(fld(q.a[2], 'end'), '0') is n and fld(fld(q.a[2], 'end'), '1') is hi for q in rs):
                                return True
    return False


def in_range(A, f, r, n, i):
    """facts: number i of file n lies below the end of the range"""
    s, t = fld(r.a[2], 'start'), fld(r.a[2], 'end')
    hi = fld(t, '1')
    if not (fld(s, '0') is n and fld(t, '0') is n):
        return False
    return holds(A, f, lt(i, hi)) is True
