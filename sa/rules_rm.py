"""Storage: releasing a node."""
from core import *
from roles import *
from rules_fs import *
from rules_io import *
from rules_st import *
from terms import *
import engine

U32 = 2**32 - 1
NODEKEY = ('remove', 'insert')


def span(S, e, n):
    """[lo, hi] of the chunk numbers of node n that a range or removal covers, or None"""
    if e.meth in ('range', 'keys_range'):
        k = e.args[1]
        lo, hi = S.range_of(e)
        i, j = untrunc(fld(lo, '1', 'tuple')), untrunc(fld(hi, '1', 'tuple'))
        if fld(lo, '0', 'tuple') is not n or i.op != 'int':
            return None
        incl = k.op == 'agg' and 'Inclusive' in k.a[0]
        if fld(hi, '0', 'tuple') is n and j.op == 'int':
            return i.a[0], j.a[0] - (0 if incl else 1)
        if fld(hi, '0', 'tuple') is add(n, INT(1)) and not incl and j is ZERO:
            return i.a[0], U32
        return None
    k = S.key_of(e)
    if k and k[0] is n and k[1].op == 'int':
        return k[1].a[0], k[1].a[0]


def covers(spans, top):
    x = 0
    for a, b in sorted(spans):
        if a > x:
            return False
        x = max(x, b + 1)
    return x > top


def of_node(A, t, n):
    if t is n:
        return True
    if t.op == 'fld':
        v = elem_values(A, t)
        return v is not None and v == {n}
    return False


def c32(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        A = S.an('rm_file')
        n = mk('init', A.argnames[1])
        g = A.g
        ok = may_ok(A)
        c.rule('C32.meta', 'the metadata of a node that is released is removed, the one of its time as a mounted file too, and not put back')
        for i, p in enumerate(S.meta):
            rm = [e for e in S.map_ev(A, p, 'remove') if e.args[1] is n]
            ids = {id(e) for e in rm}
            _, exits, _ = g.from_entry(lambda e: id(e) in ids)
            bad = [x for x in exits if ok(x)]
            c.check(not bad, '%s.meta%d' % (b, i), 'a node can be released by %s without removing its metadata (%s)' % (b, p[-1][1]), A, rm[0] if rm else None)
            for e in S.map_ev(A, p, 'insert'):
                c.check(not g.must_after(e, lambda x: id(x) in ids, ok), '%s.meta%d.again' % (b, i), 'metadata is stored again while %s releases a node' % b, A, e)
        c.rule('C32.chunks', 'every chunk record of a node that is released is removed, those of its metadata too')
        top = [MAXC - 1]
        if S.ptr:
            for m in S.methods():
                B = S.an(m)
                top += [w[1].a[0] for w, _, _ in meta_places(B, S) if w[0] == 'chunk']
        for path in (S.v1, S.ptr):
            if not path:
                continue
            what = 'v1' if path == S.v1 else 'v2'
            need = max(top) if path == S.ptr else MAXC - 1
            cov = []
            why = None
            for e in list(S.map_ev(A, path, 'range', 'keys_range')) + list(S.map_ev(A, path, 'remove')):
                sp = span(S, e, n)
                if sp is None:
                    continue
                _, exits, _ = g.from_entry(lambda x: x is e)
                if any(ok(x) for x in exits):
                    why = why or ('not on every path', e)
                    continue
                if e.meth != 'remove':
                    acts = list(S.map_ev(A, path, 'remove'))
                    bad = drained(A, e.res, acts)
                    if bad:
                        why = ('%s' % bad[0], bad[1] or e)
                        continue
                cov.append((sp, e))
            c.check(covers([s for s, _ in cov], need), '%s.%s' % (b, what), 'a node can be released by %s with %s records left behind: removed are only the numbers %s of 0..%d%s' % (
                b, what, sorted(s for s, _ in cov), need, ' (%s)' % why[0] if why else ''), A, why[1] if why else cov[0][1] if cov else None)
            for e in S.map_ev(A, path, 'insert'):
                k = S.key_of(e)
                i = k[1].a[0] if k and k[1].op == 'int' else None
                ids = {id(x) for (lo, hi), x in cov if (lo <= i <= hi if i is not None else lo == 0 and hi >= MAXC - 1)}
                c.check(not g.must_after(e, lambda x: id(x) in ids, ok), '%s.%s.again' % (b, what), 'a %s record is made again while %s releases a node' % (what, b), A, e)
        c.rule('C32.only', 'an operation on a file adds and removes records and metadata of this file only')
        for m in S.methods():
            B = S.an(m)
            q = [a for a in B.argnames[1:]]
            for path in [S.v1, S.ptr] + S.meta:
                for e in S.map_ev(B, path, 'remove', 'insert'):
                    k = e.args[1] if path in S.meta else (S.key_of(e) or (None,))[0]
                    if k is None:
                        continue
                    c.check(any(of_node(B, k, mk('init', a)) for a in q), '%s.%s.only' % (b, m), '%s of %s %ss what is stored for another node: `%s`' % (m, b, e.meth, show(k)[:80]), B, e)
    c.rule('C32.meta', c.rules['C32.meta'])
    c.need(4, 'metadata maps')
    c.rule('C32.chunks', c.rules['C32.chunks'])
    c.need(3, 'chunk maps')
    c.rule('C32.only', c.rules['C32.only'])
    c.need(20, 'changes of records')
