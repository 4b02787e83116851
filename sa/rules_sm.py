"""Storage back ends: limits, mounts, caches, chunk ownership, layout."""
from core import *
from roles import *
from rules_fd import facts_str
from rules_fs import *
from rules_io import *
from rules_st import *
from terms import *
import engine

MAXSIZE = 4294967285 * 4096


def ineqs(f):
    """linear forms L with L <= 0 on the facts"""
    for t, v in f.items():
        if t.op == 'le0' and type(v) is frozenset and len(v) == 1:
            yield t.a[0] if 1 in v else sub(INT(1), t.a[0])
        elif t.op == 'eq0' and v == frozenset([1]):
            yield t.a[0]
            yield sub(INT(0), t.a[0])


def ubounds(f, s):
    """terms U with s <= U on the facts, taken apart at minima"""
    if s.op == 'int':
        yield s
    for L in ineqs(f):
        U = sub(s, L)
        if U.op == 'lin':
            if any(x in lin_parts(L)[1] and k != -1 for k, x in U.a[1]):
                continue
        yield U
        if is_app(U, 'min'):
            yield from U.a[1:]


def none_fact(f, o):
    return has_fact(f, mk('disc', o), 0)


def cases(A, U, f):
    """(value, chain, facts) of a term at a join, else the term itself"""
    return [(v, ch, f2) for v, f2, ch in leaf_paths(A, U, f)] if U.op == 'phi' else [(U, (), f)]


def not_above(A, f, v, lim):
    """facts: v is at most the optional limit lim"""
    x = fld(lim, 'Some.0', 'Option')
    return v is x or none_fact(f, lim) or lim.op == 'agg' and lim.a[1] == 'None' or holds(A, f, lt(x, v)) is False


def within_limits(A, f, s, lim, what='both'):
    """facts: s is at most the optional limit lim and at most the largest file size"""
    top = low = False
    low = lim.op == 'agg' and lim.a[1] == 'None' or none_fact(f, lim)
    for U in ubounds(f, s):
        cs = cases(A, U, f)
        top = top or all(v is not None and (v.op == 'bot' or on_chain(A, f2, ch, lambda g: any(u.op == 'int' and u.a[0] <= MAXSIZE for u in (v, *ubounds(g, v))))) for v, ch, f2 in cs)
        low = low or all(v is not None and (v.op == 'bot' or on_chain(A, f2, ch, lambda g: not_above(A, g, v, lim))) for v, ch, f2 in cs)
        if top and low:
            return True
    return False


def same_as_old(A, S, f, md, key, disc=False):
    """facts: attribute `key` of md equals the one of metadata read before"""
    x = fld(md, key, 'Metadata')
    for y in A.sources(x):
        if not (y.op == 'fld' and y.a[1] == key and is_md_read(A, S, y.a[0])):
            break
    else:
        return True
    for t, v in f.items():
        if t.op == 'eq0' and v == frozenset([1]):
            for p in lin_parts(t.a[0])[1]:
                y = p.a[0] if disc and p.op == 'disc' else p
                if y.op == 'fld' and y.a[1] == key and is_md_read(A, S, y.a[0]) and y is not x:
                    z = mk('disc', x) if disc else x
                    if holds(A, f, eq(p, z)) is True:
                        return True
    return False


def stored_changes(A, S):
    """events that change what is stored for files: chunks, chunk memory, metadata, mounted memory"""
    for p in (S.v1, S.ptr) + tuple(S.meta):
        for e in S.map_ev(A, p, 'insert', 'remove', 'entry', 'clear_new', 'pop_first', 'pop_last', 'retain', 'append'):
            yield e
    for e in A.events():
        if e.cls in ('Memory', 'VMem') and e.meth in ('write', 'grow'):
            yield e
    for x in v1_writes(A, S):
        yield x[0]


def uniq(evs):
    seen = set()
    for e in evs:
        if id(e) not in seen:
            seen.add(id(e))
            yield e


def data_writes(A, S):
    """events that write bytes of file contents"""
    for x in v1_writes(A, S):
        yield x[0]
    for e in A.events():
        if e.cls in ('Memory', 'VMem') and e.meth == 'write' and e.recv is not None:
            if mounted_memory(A, S, e) is not None or ('data' in S.ptr_kinds(A, e.args[1]) if S.ptr and S.at(e, A, S.mem) else False):
                yield e


def c13(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        c.rule('C13.size', 'no metadata is stored whose size is above the limit set for the file or above the largest possible file size')
        c.rule('C13.kind', 'stored metadata is replaced only by metadata of the same kind of file and the same node number')
        for m in S.methods():
            A = S.an(m)
            for e, n, md in md_stores(A, S):
                if m != 'put_metadata' and S.within(e, 'put_metadata'):
                    c.cur = 'C13.size'
                    c.ob()
                    continue
                s, lim = fld(md, 'size', 'Metadata'), fld(md, 'maximum_size_allowed', 'Metadata')
                c.cur = 'C13.size'
                c.check(A.g.established(e, lambda f: within_limits(A, f, s, lim), [s]), '%s.%s' % (b, m), '%s of %s stores a file size that may exceed the limit of the file or the largest file size' % (m, b), A, e)
                c.cur = 'C13.kind'
                for key, disc in (('file_type', True), ('node', False)):
                    okk = A.g.established(e, lambda f: no_old(A, S, f, n) or same_as_old(A, S, f, md, key, disc), [n])
                    c.check(okk, '%s.%s.%s' % (b, m, key), '%s of %s stores metadata whose %s may differ from that of the metadata it replaces' % (m, b, key), A, e)
        c.rule('C13.write', 'a write changes nothing unless the end of the range written was computed without overflow and is within the limits; writing no bytes changes nothing')
        A = S.an('write')
        off, buf = [mk('init', a) for a in A.argnames[2:4]]
        L = app('len', buf)
        end = add(off, L)
        n0 = mk('init', A.argnames[1])
        inlim = memo(lambda f: within_read_limit(A, S, f, end))
        nz = memo(lambda f: not_fact(f, L, 0) or holds(A, f, eq(L, INT(0))) is False)
        noov = memo(lambda f: checked(A, end, f) or has_fact(f, mk('disc', app('checked_add', off, L)), 1))
        big = memo(lambda f: larger(A, S, f, end))
        small = memo(lambda f: not_larger(A, S, f, end))
        for e in uniq(stored_changes(A, S)):
            c.check(A.g.established(e, nz), '%s.empty' % b, 'write of %s changes something although no bytes are written' % b, A, e)
        for e in uniq(data_writes(A, S)):
            okk = A.g.established(e, noov)
            okk = okk and A.g.established(e, inlim)
            c.check(okk, '%s.limit' % b, 'write of %s stores bytes without knowing that their end is within the limits' % b, A, e)
        c.rule('C13.grow', 'after a successful write the stored size is the larger of the old size and the end of the range written')
        stores = {id(x[0]): x for x in md_stores(A, S)}
        for e, n, md in stores.values():
            s = fld(md, 'size', 'Metadata')
            c.check(s is end and A.g.established(e, big), '%s.grow' % b, 'write of %s stores the size `%s`' % (b, show(s)[:100]), A, e)
        for e in uniq(data_writes(A, S)):
            bad = bypass(A, e, lambda x: id(x) in stores, small, may_ok(A))
            c.check(not bad, '%s.grown' % b, 'write of %s can succeed beyond the end of the file without storing the new size' % b, A, e)
    for r, n in (('C13.size', 20), ('C13.kind', 16), ('C13.write', 20), ('C13.grow', 8)):
        c.rule(r, c.rules[r])
        c.need(n, 'stores')


def is_limit(A, S, x):
    return x.op == 'fld' and x.a[1] == 'maximum_size_allowed' and is_md_read(A, S, x.a[0])


def within_read_limit(A, S, f, s):
    """s is within the limit found in metadata that was read, and within the largest file size"""
    def read_limits(g, v):
        r = [t.a[0] for t, w in g.items() if t.op == 'disc' and w == frozenset([0]) and is_limit(A, S, t.a[0])]
        for t in [v] + [t.a[0] for t in g if t.op in ('le0', 'eq0')]:
            for p in lin_parts(t)[1] if t.op == 'lin' else [t]:
                if p.op == 'fld' and p.a[1] == 'Some.0' and is_limit(A, S, p.a[0]):
                    r.append(p.a[0])
        return r
    top = low = False
    for U in ubounds(f, s):
        cs = cases(A, U, f)
        top = top or all(v is not None and (v.op == 'bot' or on_chain(A, f2, ch, lambda g: any(u.op == 'int' and u.a[0] <= MAXSIZE for u in (v, *ubounds(g, v))))) for v, ch, f2 in cs)
        low = low or all(v is not None and (v.op == 'bot' or on_chain(A, f2, ch, lambda g: any(not_above(A, g, v, q) for q in read_limits(g, v)))) for v, ch, f2 in cs)
        if top and low:
            return True
    return False


def larger(A, S, f, end):
    return size_cmp(A, S, f, end) is True


def not_larger(A, S, f, end):
    return size_cmp(A, S, f, end) is False


def size_cmp(A, S, f, end):
    """is end > the stored size, on the facts"""
    for t, v in f.items():
        if t.op == 'le0' and v in (frozenset([0]), frozenset([1])):
            for y in lin_parts(t.a[0])[1]:
                if (y.op == 'fld' and y.a[1] == 'size' and is_md_read(A, S, y.a[0])) or y.op == 'phi':
                    r = holds(A, f, lt(y, end))
                    if r is not None and (y.op == 'fld' or all(z.op in ('fld', 'int') and (z.op == 'int' or z.a[1] == 'size' and is_md_read(A, S, z.a[0])) for z in A.sources(y))):
                        return r
    return None


# ------------------------------------------------------------------ C18, C31
def sides(c, S):
    """metadata place -> True (used while mounted) / False"""
    A = S.an('get_metadata')
    r = {}
    for w, n, e in meta_places(A, S):
        st = S.status(A, e, n)
        if st is not None:
            r.setdefault(w, st)
    if set(r.values()) != {True, False}:
        raise Anchor('%s::get_metadata: places of metadata not recognised' % S.ty)
    return r


def places_of(A, S, t):
    """metadata places the value was read from; None when there are other sources"""
    r = set()
    for x in A.sources(t):
        if x.op in ('bot', 'agg'):
            continue
        if x.op == 'with':
            x = x.a[0]
        w = None
        y = x
        while y.op == 'fld':
            y = y.a[0]
        if is_app(y, 'at', 'get'):
            for i, p in enumerate(S.meta):
                if started(A, y.a[1], S.term(p)):
                    w = ('map', i)
            for i, p in enumerate(S.mcache):
                if started(A, y.a[1], S.term(p)):
                    w = ('cache', i)
        elif is_app(y, 'mread') and S.mem and started(A, y.a[1], S.term(S.mem)):
            for z in S.bases(A, y.a[2]):
                if is_app(z, 'at') and started(A, z.a[1], S.term(S.ptr)) and S.metakey(fld(z.a[2], '1', 'tuple')):
                    w = ('chunk', fld(z.a[2], '1', 'tuple'))
                else:
                    for i, p in enumerate(S.mcache):
                        if any(is_app(q, 'at', 'get') and started(A, q.a[1], S.term(p)) for q in subterms(z)):
                            w = ('cache', i)
        r.add(w)
    return None if None in r else r


def side_of(A, S, t, sd):
    """True / False: all reads behind t are from the mounted / the stored place; None otherwise"""
    w = places_of(A, S, t)
    if not w:
        return None
    r = {sd.get(x) for x in w}
    return r.pop() if len(r) == 1 else None


def stored_ok(A, S, f):
    """impossible, given what every store of metadata guarantees (C13): metadata that was stored exceeds its limit, or stored
    metadata of one file differs in kind or node number"""
    for t, v in f.items():
        if t.op == 'le0' and v in (frozenset([0]), frozenset([1])):
            for y in lin_parts(t.a[0])[1]:
                ss = A.sources(y)
                if ss and all(is_sz(A, S, x) for x in ss) and any(x.op != 'int' for x in ss):
                    for z in lin_parts(t.a[0])[1]:
                        if z is not y and is_bound(A, S, z) and holds(A, f, le(y, z)) is False:
                            return True
        elif t.op == 'eq0' and v == frozenset([0]):
            d = lin_parts(t.a[0])[1]
            if len(d) == 2 and sorted(d.values()) == [-1, 1]:
                ys = [p.a[0] if p.op == 'disc' else p for p in d]
                own = mk('init', A.argnames[1])         # stored metadata carries the number of its own file
                if all(x.op in ('bot', 'agg', 'int') or x is own or x.op == 'fld' and x.a[1] in ('file_type', 'node') and is_md_read(A, S, x.a[0]) for y in ys for x in A.sources(y)) and \
                        all(any(x.op == 'fld' or x is own for x in A.sources(y)) or not A.sources(y) for y in ys) and any(x.op == 'fld' for y in ys for x in A.sources(y)):
                    return True
    return False


def is_bound(A, S, z):
    """the smaller of the largest file size and a limit"""
    if is_app(z, 'min'):
        return INT(MAXSIZE) in z.a[1:]
    ss = A.sources(z) if z.op == 'phi' else ()
    return INT(MAXSIZE) in ss and all(x is INT(MAXSIZE) or x.op in ('bot', 'agg') or x.op == 'fld' and x.a[1] == 'Some.0' and (x.a[0].op == 'agg' or is_limit(A, S, x.a[0])) for x in ss)


def is_sz(A, S, x):
    return x.op == 'int' or x.op == 'bot' or x.op == 'fld' and x.a[1] == 'size' and is_md_read(A, S, x.a[0])


def ok_edges(A, impossible):
    mm = {}

    def edge_ok(a, b):
        r = mm.get((a, b))
        if r is None:
            r = mm[(a, b)] = any(k[0] == a and not impossible(s.facts) for k, s in A.nodelist[b].ins.items())
        return r
    return edge_ok


def c18(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        c.rule('C18.only', 'only mount, unmount and the two copying operations change what is mounted, and only on the file of the call')
        for m in S.methods():
            A = S.an(m)
            for e in S.map_ev(A, S.mounts):
                if e.meth in ('get', 'contains_key', 'len', 'is_empty', 'iter', 'keys', 'get_mut', 'values'):
                    continue
                okk = m in ('mount_node', 'unmount_node', 'init_mounted_memory', 'store_mounted_memory') and e.meth in ('insert', 'remove', 'remove_entry') and e.args[1] in nodes_of(A, S, e)
                c.check(okk, '%s.%s.%s' % (b, m, e.meth), '%s of %s changes the mounts (%s)' % (m, b, e.meth), A, e)
        c.need(4, 'changes of the mounts')
        c.rule('C18.mount', 'mounting succeeds only on a file that exists and is not mounted and then exactly the memory given is mounted; a refused mount leaves everything as it was; '
               'unmounting returns the memory that was mounted, which is mounted no more')
        A = S.an('mount_node')
        n0 = mk('init', A.argnames[1])
        mem = [mk('init', a) for a, ty in zip(A.argnames, A.root['locals'][1:]) if 'Memory' in S.P.types[ty].get('s', '') and 'self' != a]
        for n in A.exits:
            st = engine.State(n.edgefacts, n.outfacts)
            M = A.rd(st, ('p', A.argnames[0]), S.mounts)
            was = S.status_in(A, S.MOUNTS, n0, n.outfacts)
            now = S.status_in(A, M, n0, n.outfacts)
            if 'Ok' in variant(A, n):
                g = engine.mget(M, n0, A, st)
                c.check(was is False and now is True and fld(g, 'Some.0', 'Option') in mem, '%s.mount.ok' % b, 'mount_node of %s succeeds without the memory given being mounted (or over another one)' % b, A, None, show(M)[:200])
            else:
                c.check(now is not None and now == was and (was is False or M is S.MOUNTS), '%s.mount.err' % b, 'mount_node of %s fails with `%s` and leaves the mounts changed' % (b, show(n.exit)[:80]), A, None, show(M)[:200])
        for e in A.events():
            if e.meth == 'insert' and S.at(e, A, S.mounts):
                c.check(A.g.established(e, lambda f: found(A, S, f, n0)), '%s.exists' % b, 'mount_node of %s mounts on a file that may not exist' % b, A, e)
        stored = {id(x[0]) for x in md_stores(A, S) if S.status(A, x[0], x[1]) is True}
        for n in A.exits:
            if 'Ok' in variant(A, n):
                evs, exits, _ = A.g.from_entry(lambda e: id(e) in stored)
                c.check(not any('Ok' in variant(A, x) for x in exits), '%s.mount.meta' % b, 'mount_node of %s can succeed without storing metadata for the mounted file' % b, A)
                break
        A = S.an('unmount_node')
        n0 = mk('init', A.argnames[1])
        for n in A.exits:
            st = engine.State(n.edgefacts, n.outfacts)
            M = A.rd(st, ('p', A.argnames[0]), S.mounts)
            was = S.status_in(A, S.MOUNTS, n0, n.outfacts)
            now = S.status_in(A, M, n0, n.outfacts)
            if 'Ok' in variant(A, n):
                vs = [fld(x, 'Ok.0', 'Result') for x in A.sources(n.exit)]
                c.check(now is False and was is True and all(is_app(x, 'at') and x.a[1] is S.MOUNTS and x.a[2] is n0 for x in vs), '%s.unmount.ok' % b, 'unmount_node of %s does not return (and forget) the memory mounted on the file' % b, A)
            if 'Err' in variant(A, n):
                c.check(was is False, '%s.unmount.err' % b, 'unmount_node of %s can fail although a memory is mounted' % b, A)
        c.need(6, 'exits of mount and unmount')
        c.rule('C18.back', 'the copying operations leave the memory that was mounted mounted again, also when they fail')
        for m in ('init_mounted_memory', 'store_mounted_memory'):
            A = S.an(m)
            n0 = mk('init', A.argnames[1])
            eok = ok_edges(A, memo(lambda f: no_old(A, S, f, n0) or stored_ok(A, S, f)))
            ins = {id(e) for e in S.map_ev(A, S.mounts, 'insert')}
            _, _, seen = A.g.from_entry(edge_ok=eok)
            for e in S.map_ev(A, S.mounts, 'remove', 'remove_entry'):
                if e.node.id not in seen:
                    c.ob()
                    continue
                bad = A.g.must_after(e, lambda x: id(x) in ins, lambda n: S.status_in(A, S.MOUNTS, n0, n.outfacts) is not False, eok)
                c.check(not bad, '%s.%s.back' % (b, m), '%s of %s can end without the memory being mounted again' % (m, b), A, e, bad and show(bad[0].exit)[:100])
            for e in S.map_ev(A, S.mounts, 'insert'):
                okk = all(x.op == 'bot' or is_app(x, 'at') and x.a[1] is S.MOUNTS and x.a[2] is n0 for x in states(A, e.args[2]))
                c.check(okk, '%s.%s.same' % (b, m), '%s of %s mounts another memory: `%s`' % (m, b, show(e.args[2])[:100]), A, e)
        c.need(4, 'changes of the mounts in the copying operations')
        c.rule('C18.meta', 'after initialising the mounted memory its metadata is that of the stored file; after storing it the metadata of the stored file is that of the mounted one')
        sd = sides(c, S)
        for m, to in (('init_mounted_memory', True), ('store_mounted_memory', False)):
            A = S.an(m)
            n0 = mk('init', A.argnames[1])
            ms = [x for x in md_stores(A, S) if S.status(A, x[0], x[1]) is to]
            good = {id(x[0]) for x in ms if side_of(A, S, x[2], sd) is (not to) and x[1] is n0}
            eok = ok_edges(A, memo(lambda f: no_old(A, S, f, n0) or stored_ok(A, S, f)))
            _, exits, _ = A.g.from_entry(lambda e: id(e) in good, eok)
            c.check(bool(good) and not any('Ok' in variant(A, x) for x in exits), '%s.%s.meta' % (b, m), '%s of %s can succeed without taking over the metadata' % (m, b), A)
            for e, n, md in ms:
                if id(e) not in good:
                    bad = A.g.must_after(e, lambda x: id(x) in good, may_ok(A), eok)
                    c.check(not bad, '%s.%s.last' % (b, m), '%s of %s ends with other metadata: `%s`' % (m, b, show(md)[:100]), A, e)
        c.need(2, 'copying operations')


def found(A, S, f, n):
    """facts: metadata of the node was found"""
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([1]) and is_app(t.a[0], 'get') and (t.a[0].a[2] is n or fld(t.a[0].a[2], '0', 'tuple') is n):
            if any(started(A, t.a[0].a[1], S.term(p)) for p in list(S.meta) + list(S.mcache) + ([S.ptr] if S.ptr else [])):
                return True
    return n.op == 'int' and n.a[0] == 0 or has_fact(f, n, 0)


def c31(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        sd = sides(c, S)
        A = S.an('mount_node')
        n0 = mk('init', A.argnames[1])
        pol = R.param_of_type(A, 'MountedFileSizePolicy')
        if pol is None:
            raise Anchor('mount_node: policy parameter not found')
        D = {v['name']: int(v['discr']) for v in R.enums['MountedFileSizePolicy'][1]['variants']}
        mems = [mk('init', a) for a, ty in zip(A.argnames, A.root['locals'][1:]) if 'Memory' in S.P.types[ty].get('s', '') and 'self' != a]
        c.rule('C31.size', 'the size of a file after mounting is what the policy says: the explicit size; the size of the memory; or the size it had when it was mounted before, if that fits the memory, else zero / the size of the memory')
        c.rule('C31.keep', 'other attributes of the mounted file are those of the last mount, or of the stored file at the first mount; the link count is always that of the stored file')
        for e, n, md in md_stores(A, S):
            if S.status(A, e, n) is not True:
                continue
            c.cur = 'C31.size'
            for v, f, chain in leaf_paths(A, fld(md, 'size', 'Metadata'), e.facts):
                okk = False
                if v is not None:
                    names, cond = policy_ok(A, S, sd, f, v, pol, D, n0, mems)
                    okk = names and (on_chain(A, f, chain, memo(cond)) or A.g.established(e, memo(cond)))
                c.check(okk, '%s.size' % b, 'mount_node of %s gives the file the size `%s`' % (b, show(v)[:100]), A, e, facts_str(f) if f else None)
            c.cur = 'C31.keep'
            for k in R.fields('Metadata'):
                if k == 'size':
                    continue
                v = fld(md, k, 'Metadata')
                for x, f in leaves(A, v, e.facts):
                    if x is None:
                        c.check(False, '%s.keep.%s' % (b, k), 'mount_node of %s: value of %s not understood' % (b, k), A, e)
                        continue
                    if x.op == 'bot' or x.op in ('int', 'agg') and root_default(A, f, n0) or k == 'node' and x is n0:
                        continue
                    src = x.a[0] if x.op == 'fld' and x.a[1] == k else None
                    s = side_of(A, S, src, sd) if src is not None else None
                    if k == 'link_count':
                        okk = s is False
                    elif k in ('first_dir_entry', 'last_dir_entry'):
                        okk = True
                    elif k in ('node', 'file_type'):
                        okk = s is not None
                    else:
                        okk = s is True or s is False and missed(A, S, f, sd, True, n0)
                    c.check(okk, '%s.keep.%s' % (b, k), 'mount_node of %s takes %s from `%s`' % (b, k, show(x)[:100]), A, e, facts_str(f))
    c.rule('C31.size', c.rules['C31.size'])
    c.need(12, 'sizes stored')
    c.rule('C31.keep', c.rules['C31.keep'])
    c.need(20, 'attributes stored')


def root_default(A, f, n):
    return has_fact(f, n, 0)


def missed(A, S, f, sd, side, n):
    """facts: no metadata of that side was found"""
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'get') and (t.a[0].a[2] is n):
            for i, p in enumerate(S.meta):
                if started(A, t.a[0].a[1], S.term(p)) and sd.get(('map', i)) is side:
                    return True
    return False


def policy_ok(A, S, sd, f, v, pol, D, n0, mems):
    d = f.get(mk('disc', pol))
    names = {k for k, x in D.items() if d is None or (type(d) is frozenset and x in d) or (type(d) is tuple and x not in d[1])}
    isold = lambda x: x.op == 'fld' and x.a[1] == 'size' and side_of(A, S, x.a[0], sd) is True
    cache = {}

    def cmp(f, want, olds):
        """facts: want = an old size fits into the memory (True) / does not (False)"""
        for t, w in f.items():
            if t.op != 'le0' or w not in (frozenset([0]), frozenset([1])):
                continue
            k, d = lin_parts(t.a[0])
            cur = [(y, q) for y, q in d.items() if is_app(y, 'msize') and any(z in mems for z in subterms(y))]
            if not cur or abs(cur[0][1]) != 65536:
                continue
            for y in d:
                if y is not cur[0][0] and (y in olds if olds else isold(y)):
                    if holds(A, f, le(y, scale(cur[0][0], 65536))) is want:
                        return True
        return False

    def nofit(f):
        return missed(A, S, f, sd, True, n0) or cmp(f, False, None)
    if v.op == 'fld' and v.a[0] is pol and str(v.a[1]).startswith('Explicit'):
        return names == {'Explicit'}, lambda f: True
    if isold(v):
        return names <= {'PreviousOrZero', 'PreviousOrMemoryPages'}, lambda f: cmp(f, True, {v})
    if v.op == 'int' and v.a[0] == 0:
        return names <= {'PreviousOrZero', 'PreviousOrMemoryPages'}, lambda f: 'PreviousOrMemoryPages' not in names and nofit(f) or root_default(A, f, n0)
    k, d = lin_parts(v)
    if k == 0 and len(d) == 1 and is_app(list(d)[0], 'msize') and list(d.values()) == [65536] and any(z in mems for z in subterms(v)):
        if names == {'MemoryPages'}:
            return True, lambda f: True
        return names == {'PreviousOrMemoryPages'}, nofit
    return v.op == 'bot', lambda f: True
