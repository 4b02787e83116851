"""Directory contents: C06 (names), C33 (listing)."""
from core import *
from roles import *
from rules_fd import edge_subst, facts_str, meet
from rules_fs import *
from rules_io import *
from rules_st import St, started, untrunc, memo
from terms import *
import engine


def missing(A, f, D, X):
    """facts say that no entry called X was found in directory D"""
    for t, v in f.items():
        if t.op == 'disc' and sapp(t.a[0], 'get_direntry_index_by_name') and v == frozenset([0]):
            k = t.a[0].a[2]
            if fld(k, '0', 'tuple') is D and name_text(fld(k, '1', 'tuple')) is X:
                return True
    return False


def found_as(A, D, X):
    if not (D.op == 'fld' and D.a[1] == 'node' and D.a[0].op == 'fld' and sapp(D.a[0].a[0], 'get_direntry')):
        return False
    for i in A.sources(D.a[0].a[0].a[3]):
        while i.op == 'fld':
            i = i.a[0]
        if sapp(i, 'get_direntry_index_by_name'):
            if name_text(fld(i.a[2], '1', 'tuple')) is not X:
                return False
    return True


def fresh_name(A, D, X, f, seen=None, depth=0):
    """no entry X can be in directory D: it was just looked for, or D was just created"""
    seen = seen if seen is not None else set()
    if sapp(D, 'new_node') or missing(A, f, D, X):
        return True
    if lit_of(X) == '':
        return True         # a path without a last part: never stored, C24.end / C36.guard see to that
    if depth > 30:
        return False
    if found_as(A, D, X):
        return True         # the walk found the whole path: excluded by the earlier walk of the same path (C36, C05)
    ph = [x.a[0] for y in (D, X) for x in (toplevel_phis(A, y) or ())]
    if not ph:
        return False
    J = A.nodelist[max(ph, key=lambda i: A.prio(A.nodelist[i]))]
    if (J.id, D, X) in seen:
        return True
    seen.add((J.id, D, X))
    for s in J.ins.values():
        (d, x), f2 = edge_subst(A, J, s, [D, X], f)
        if f2 is None:
            continue
        if not fresh_name(A, d, x, f2, seen, depth + 1):
            return False
    return True


def c06(c):
    R = Roles(c)
    c.rule('C06.unique', 'an entry is added to a directory only under a name that was just looked for there and not found (or to a directory just created)')
    for m in STRUCT:
        A = c.fs(m)
        for e in entput(A):
            X = name_text(fld(e.args[3], 'name', 'DirEntry'))
            c.check(X is not None and fresh_name(A, e.args[1], X, e.facts), m + '.unique', '%s adds an entry without knowing that its name is not in use in that directory' % m, A, e, facts_str(e.facts))
    c.need(8, 'entries added')
    c.rule('C06.name', 'names are stored and looked up unchanged and in full: a FileName holds the bytes given, their number, and nothing else; longer names are refused')
    for m in STRUCT + ['open_metadata']:
        A = c.fs(m)
        for e in list(storage_events(A, 'get_direntry_index_by_name')) + entput(A):
            nm = fld(e.args[1], '1', 'tuple') if e.meth != 'put_direntry' else fld(e.args[3], 'name', 'DirEntry')
            X = name_text(nm)
            okk = X is not None and name_ok(A, nm, X)
            c.check(okk, m + '.name', '%s uses the name `%s`' % (m, show(nm)[:150]), A, e)
            c.check(A.g.established(e, lambda f: holds(A, f, le(app('len', X), INT(255))) is True or short(A, X), [X]) if X is not None else False, m + '.long', '%s uses a name that may be longer than 255 bytes' % m, A, e)
    c.need(20, 'names used')
    c06_lookup(c)
    c06_index(c)


def c06_lookup(c):
    c.rule('C06.lookup', 'a path is followed only through the entry of the directory searched whose name is the one searched: the one recorded for this name, or one met when going through all entries of this directory and compared in full')
    for m in STRUCT + ['open_metadata']:
        A = c.fs(m)
        scans = list(storage_events(A, 'with_direntries'))
        for e in storage_events(A, 'get_direntry'):
            D = e.args[1]
            for v, f, ch in leaf_paths(A, e.args[2], e.facts):
                okk = False
                if v is not None and v.op == 'fld' and v.a[1] == 'Some.0' and sapp(v.a[0], 'get_direntry_index_by_name'):
                    okk = fld(v.a[0].a[2], '0', 'tuple') is D
                elif v is not None and is_app(v, 'cbel'):
                    el = app('cbel', v.a[1], INT(1))
                    els = {x for x in (el, app('cbel', v.a[1], 1))}
                    here = [w for w in scans if w.args[1] is D]
                    okk = bool(here) and all(w.args[2].op == 'agg' and (w.args[2].a[1] == 'None' or w.args[2].a[3] is INT(0)) for w in here) and \
                        on_chain(A, f, ch, memo(lambda g: any(same_name(A, g, x, D) for x in els)))
                c.check(okk, m + '.lookup', '%s follows the entry `%s` of directory `%s` without knowing that it has the name searched' % (m, show(v)[:150] if v is not None else '?', show(D)[:60]), A, e, facts_str(f)[-400:])
    c.need(20, 'steps along a path')


def searched(A, f, D):
    """names the lookup table of directory D did not know"""
    for t, v in f.items():
        if t.op == 'disc' and sapp(t.a[0], 'get_direntry_index_by_name') and v == frozenset([0]):
            k = t.a[0].a[2]
            if fld(k, '0', 'tuple') is D:
                yield name_text(fld(k, '1', 'tuple')), fld(k, '1', 'tuple')


def same_name(A, f, el, D):
    """facts: the whole name of the entry el is a name that is being searched in D"""
    nm = fld(el, 'name', 'DirEntry')
    ln, by = fld(nm, 'length', 'FileName'), fld(nm, 'bytes', 'FileName')
    for X, N in searched(A, f, D):
        if X is None:
            continue
        full = lenok = False
        for t, v in f.items():
            if t.op != 'app' or t.a[0] != 'eqv' or not (v == frozenset([1]) or type(v) is tuple and 0 in v[1]):
                continue
            a, b = t.a[1], t.a[2]
            for x, y in ((a, b), (b, a)):
                if x is nm and (y is N or name_text(y) is X):
                    return True
                if is_app(x, 'sl') and x.a[1] is by and x.a[2] is INT(0) and y is X:
                    if x.a[3] is ln:
                        return True
                    full = full or x.a[3] is app('len', X) or holds(A, f, eq(x.a[3], app('len', X))) is True
                if x is by and (y is fld(N, 'bytes', 'FileName') or contains(y, X)):
                    full = True
        for q in (ln, untrunc(ln)):
            for L in (app('len', X), fld(N, 'length', 'FileName')):
                lenok = lenok or holds(A, f, eq(q, L)) is True
        if full and lenok:
            return True
    return False


def c06_index(c):
    R = Roles(c)
    c.rule('C06.index', 'the table of names is kept with the entries: an entry is stored with its name recorded for it, and removed with its name forgotten; nothing else changes them')
    for b in ('StableStorage', 'TransientStorage'):
        S = St(c, R, b)
        used = any(x.meth in ('insert', 'entry', 'extend', 'append') for m in S.methods() for x in S.map_ev(S.an(m), S.look)) if S.look else False
        for m in S.methods():
            A = S.an(m)
            ins, rem = set(), set()
            for e in S.map_ev(A, S.dir):
                if e.meth in ('get', 'range', 'contains_key', 'len', 'is_empty', 'iter', 'keys', 'keys_range', 'values', 'values_range', 'first_key_value', 'last_key_value'):
                    continue
                k = S.key_of(e)
                if m == 'put_direntry' and e.meth == 'insert':
                    n0, i0, en = [mk('init', a) for a in A.argnames[1:4]]
                    c.check(k == (n0, i0) and e.args[2] is en, '%s.put' % b, 'put_direntry of %s stores something else than the entry given under its number' % b, A, e)
                    ins.add(id(e))
                    if used:
                        good = {id(x) for x in S.map_ev(A, S.look, 'insert') if fld(x.args[1], '0', 'tuple') is n0 and fld(x.args[1], '1', 'tuple') is fld(en, 'name', 'DirEntry') and x.args[2] is i0}
                        last = [x for x in S.map_ev(A, S.look) if x.meth not in ('get', 'contains_key') and id(x) not in good and fld(x.args[1], '1', 'tuple') is fld(en, 'name', 'DirEntry')]
                        okk = not A.g.must_after(e, lambda x: id(x) in good) or A.g.must_before(e, lambda x: id(x) in good)
                        c.check(okk and not last, '%s.put.name' % b, 'put_direntry of %s can store an entry without recording its name for it' % b, A, e)
                elif m == 'rm_direntry' and e.meth in ('remove', 'remove_entry'):
                    n0, i0 = [mk('init', a) for a in A.argnames[1:3]]
                    c.check(k == (n0, i0), '%s.rm' % b, 'rm_direntry of %s removes another entry' % b, A, e)
                    rem.add(id(e))
                    if used:
                        old = app('at', S.term(S.dir), e.args[1])
                        good = {id(x) for x in S.map_ev(A, S.look, 'remove') if fld(x.args[1], '0', 'tuple') is n0 and fld(x.args[1], '1', 'tuple') is fld(old, 'name', 'DirEntry')}
                        gone = mk('disc', app('get', S.term(S.dir), e.args[1]))
                        there = lambda a, n_: any(q[0] == a and s.facts.get(gone) != frozenset([0]) for q, s in A.nodelist[n_].ins.items())
                        okk = not A.g.must_after(e, lambda x: id(x) in good, lambda n: n.outfacts.get(gone) != frozenset([0]), there) or A.g.must_before(e, lambda x: id(x) in good, there)
                        c.check(okk, '%s.rm.name' % b, 'rm_direntry of %s can remove an entry and still know its name' % b, A, e)
                else:
                    c.check(False, '%s.%s.dir' % (b, m), '%s of %s changes the entries of directories (%s)' % (m, b, e.meth), A, e)
            if m == 'put_direntry':
                _, exits, _ = A.g.from_entry(lambda x: id(x) in ins)
                c.check(bool(ins) and not exits, '%s.put.all' % b, 'put_direntry of %s can end without storing the entry' % b, A)
            if m == 'rm_direntry':
                _, exits, _ = A.g.from_entry(lambda x: id(x) in rem)
                c.check(bool(rem) and not exits, '%s.rm.all' % b, 'rm_direntry of %s can end without removing the entry' % b, A)
            if S.look:
                for e in S.map_ev(A, S.look):
                    if e.meth not in ('get', 'contains_key', 'len', 'is_empty', 'iter', 'range', 'keys') and m not in ('put_direntry', 'rm_direntry'):
                        c.check(False, '%s.%s.look' % (b, m), '%s of %s changes the table of names (%s)' % (m, b, e.meth), A, e)
        for m, p, idx in (('get_direntry', S.dir, 2), ('get_direntry_index_by_name', S.look, 1)):
            A = S.an(m)
            args = [mk('init', a) for a in A.argnames[1:]]
            key = args[0] if m != 'get_direntry' else None
            for n in A.exits:
                for v, f, ch in leaf_paths(A, n.exit, n.outfacts):
                    okk = v is not None and (v.op == 'agg' and v.a[1] in ('Err', 'None') or any(y.op == 'app' and y.a[0] in ('at', 'get') and y.a[1] is S.term(p) and
                          (y.a[2] is key if key is not None else (fld(y.a[2], '0', 'tuple'), fld(y.a[2], '1', 'tuple')) == tuple(args[:2])) for y in subterms(v)))
                    c.check(okk, '%s.%s' % (b, m), '%s of %s returns `%s`' % (m, b, show(v)[:100] if v is not None else '?'), A)
    c.need(10, 'changes of entries')
    c.rule('C06.free', 'a new entry gets a number that no entry of the directory has')
    for m in STRUCT:
        A = c.fs(m)
        for e in entput(A):
            okk = all(sapp(x, 'new_direntry_index') and x.a[2] is e.args[1] for x in A.sources(e.args[2]))
            c.check(okk, m + '.free', '%s adds an entry under the number `%s`' % (m, show(e.args[2])[:100]), A, e)
    for b in ('StableStorage', 'TransientStorage'):
        S = St(c, R, b)
        A = S.an('new_direntry_index')
        n0 = mk('init', A.argnames[1])
        for n in A.exits:
            for v, f, ch in leaf_paths(A, n.exit, n.outfacts):
                okk = v is not None and on_chain(A, f, ch, memo(lambda g: unused(A, S, g, n0, v)))
                c.check(okk, '%s.free' % b, 'new_direntry_index of %s returns `%s`, which an entry can have' % (b, show(v)[:150] if v is not None else '?'), A, None, facts_str(f)[-300:])
    c.need(8, 'new numbers')


U32 = 4294967295


def last_of(A, S, x, n):
    """x is the last (key, value) found among all entries of directory n: (its number, the exclusive limit of the numbers looked at)"""
    o = x.a[0] if x.op == 'fld' and x.a[1] == 'Some.0' else x
    if not (is_app(o, 'next_back', 'last') and o.a[1].op == 'app' and o.a[1].a[0].startswith('iter_') and started(A, o.a[1].a[1], S.term(S.dir))):
        return None
    r = o.a[1].a[2]
    lo, hi = fld(r, 'start'), fld(r, 'end')
    a, b = fld(lo, '1', 'tuple'), fld(hi, '1', 'tuple')
    if not (fld(lo, '0', 'tuple') is n and a.op == 'int' and a.a[0] <= 1):
        return None
    inc = r.op == 'agg' and 'Inclusive' in str(r.a[0])
    if fld(hi, '0', 'tuple') is n and b.op == 'int':
        return b.a[0] + (1 if inc else 0)
    if fld(hi, '0', 'tuple') is add(n, INT(1)):
        return U32 + 1
    return None


def unused(A, S, f, n, v):
    """facts: no entry of directory n has the number v"""
    for t, w in f.items():
        if t.op == 'disc' and w == frozenset([0]):
            if last_of(A, S, t.a[0], n) is not None and last_of(A, S, t.a[0], n) > U32:
                return True
            if is_app(t.a[0], 'get') and started(A, t.a[0].a[1], S.term(S.dir)) and fld(t.a[0].a[2], '0', 'tuple') is n and fld(t.a[0].a[2], '1', 'tuple') is v:
                return True
    u = v
    if u.op == 'fld' and u.a[1] == 'Some.0' and is_app(u.a[0], 'checked_add') and u.a[0].a[2].op == 'int' and u.a[0].a[2].a[0] >= 1:
        k, room = u.a[0].a[1], True
    else:
        c0, ps = lin_parts(u)
        if u.op != 'lin' or len(ps) != 1 or list(ps.values()) != [1] or c0 < 1:
            return False
        k, = ps
        room = holds(A, f, le(k, INT(U32 - c0))) is True or not_fact(f, k, U32) and c0 == 1
    for x in subterms(k):
        if x.op == 'fld' and x.a[1] == 'Some.0' and k in (fld(fld(x, '0'), '1'), fld(x, '1')):
            top = last_of(A, S, x, n)
            if top is not None and room and (top > U32 or holds(A, f, lt(u, INT(top))) is True):
                return True
    return False


def short(A, X):
    vs = [v for v, d in validated(A)]
    return elements_of(A, X, vs)


def name_ok(A, nm, X):
    ln = fld(nm, 'length', 'FileName')
    by = fld(nm, 'bytes', 'FileName')
    L = app('len', X)
    if not (ln is L or (is_app(ln, 'trunc') and ln.a[1] is L) or (ln.op == 'app' and ln.a[0].startswith('cast') and ln.a[1] is L)):
        return False
    return contains(by, X)
