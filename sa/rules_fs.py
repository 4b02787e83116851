"""File-system level rules: directory structure, links, name cache, paths, flags."""
from core import *
from roles import *
from rules_fd import entry_writes, final_entry, err_name, exempt, edge_subst, facts_str, FDOPS
from terms import *
import engine

# public operations that can change the directory structure
STRUCT = ['open', 'create_open_directory', 'mkdir', 'remove_file', 'remove_dir', 'create_hard_link', 'rename', 'mount_memory_file']


def split_none(t):
    return False


# ------------------------------------------------------------------ storage terms
def sapp(t, meth):
    """t is the result of Storage::<meth>"""
    return t.op == 'app' and t.a[0] == STORAGE + '::' + meth


def md_of(t):
    """(storage state, node) of a value read by get_metadata, or None"""
    if t.op == 'fld' and t.a[1] == 'Ok.0' and sapp(t.a[0], 'get_metadata'):
        return t.a[0].a[1], t.a[0].a[2]
    return None


def de_of(t):
    """(storage state, dir, index) of a value read by get_direntry, or None"""
    if t.op == 'fld' and t.a[1] == 'Ok.0' and sapp(t.a[0], 'get_direntry'):
        return t.a[0].a[1:]
    return None


def same_node(a, b):
    """node terms known to denote the same node (metadata is stored under its own node number)"""
    return norm_node(a) is norm_node(b)


def norm_node(t):
    if t.op == 'fld' and t.a[1] == 'node':
        m = md_of(t.a[0])
        if m:
            return m[1]
    return t


class Put:
    """a put_metadata event: node, base metadata (or None for a literal), changed fields"""

    def __init__(self, A, e, v):
        self.e = e
        self.node = e.args[1]
        self.v = v
        self.base = v
        self.ch = {}
        if v.op == 'with':
            self.base = v.a[0]
            self.ch = dict(v.a[1])
        self.lit = v.op == 'agg'
        self.md = md_of(self.base)

    def delta(self, f):
        if f not in self.ch:
            return 0
        d = sub(self.ch[f], fld(self.base, f, 'Metadata'))
        return d.a[0] if d.op == 'int' else None


def puts(A):
    r = []
    for e in storage_events(A, 'put_metadata'):
        for v in A.sources(e.args[2]):
            r.append(Put(A, e, v))
    return r


def is_unlink(p):
    return not p.lit and p.delta('link_count') == -1


def is_link(p):
    return not p.lit and p.delta('link_count') == 1


def paired(c, A, xs, ys, match, key, what):
    """every x is accompanied, on every path to a successful exit, by exactly one matching y (before or after)"""
    g = A.g
    okexit = may_ok(A)
    for x in xs:
        ms = [y for y in ys if match(x, y)]
        pred = lambda e, ms=ms: any(e is y for y in ms)
        okk = bool(ms)
        order = None
        if okk:
            if not g.must_after(x, pred, okexit):
                order = 'after'
            elif g.must_before(x, pred):
                order = 'before'
            else:
                okk = False
        c.check(okk, key, what, A, x)
        if order:
            # no second x before the partner has been seen, no second partner without an x
            evs, _, _ = g.after(x, pred)
            c.check(not any(z is x for z in evs), key + '.twice', what + ' (repeated without its partner)', A, x)
            for y in ms:
                evs, _, _ = g.after(y, lambda e: any(e is z and match(z, y) for z in xs))
                c.check(not any(z is w for z in evs for w in ms), key + '.extra', what + ' (the partner happens twice)', A, y)


def entput(A):
    return list(storage_events(A, 'put_direntry'))


def entrm(A):
    return list(storage_events(A, 'rm_direntry'))


def ent_node(e):
    """node term of the DirEntry stored by a put_direntry event"""
    return fld(e.args[3], 'node', 'DirEntry')


# ------------------------------------------------------------------ C07
def c07(c):
    c.rule('C07.put', 'every directory entry added is accompanied by exactly one increment of that directory\'s size, on every successful path')
    for m in STRUCT:
        A = c.fs(m)
        inc = [p for p in puts(A) if not p.lit and p.delta('size') == 1]
        paired(c, A, entput(A), [p.e for p in inc], lambda x, y: x.args[1] is y.args[1], m + '.put', '%s adds a directory entry without one matching size increment of the directory' % m)
    c.need(8, 'put_direntry sites')
    c.rule('C07.rm', 'every directory entry removed is accompanied by exactly one decrement of that directory\'s size, on every successful path')
    for m in STRUCT:
        A = c.fs(m)
        dec = [p for p in puts(A) if not p.lit and p.delta('size') == -1]
        paired(c, A, entrm(A), [p.e for p in dec], lambda x, y: x.args[1] is y.args[1], m + '.rm', '%s removes a directory entry without one matching size decrement of the directory' % m)
    c.need(4, 'rm_direntry sites')
    c.rule('C07.only', 'the size of a directory changes only together with its entries: every other metadata write leaves the size as it was read, or sets it for a regular file')
    for m in STRUCT:
        A = c.fs(m)
        for p in puts(A):
            if p.lit:
                c.check(fld(p.v, 'size', 'Metadata') is ZERO, m + '.new', 'a new node is created with size `%s`' % show(fld(p.v, 'size', 'Metadata'))[:80], A, p.e)
                continue
            d = p.delta('size')
            if d in (1, -1):
                ents = entput(A) if d == 1 else entrm(A)
                match = [x for x in ents if x.args[1] is p.node]
                pr = lambda e: any(e is y for y in match)
                c.check(bool(match) and (A.g.must_before(p.e, pr) or not A.g.must_after(p.e, pr, may_ok(A))), m + '.size%+d' % d,
                        '%s changes the size of directory `%s` by %+d without changing its entries' % (m, show(p.node)[:80], d), A, p.e)
            elif d != 0:
                ft = mk('disc', fld(p.base, 'file_type', 'Metadata'))
                okk = p.ch['size'] is ZERO and regular(c, A, p.e.facts, p.node)
                c.check(okk, m + '.size', '%s sets the size of `%s` to `%s`' % (m, show(p.node)[:80], show(p.ch['size'])[:80]), A, p.e)
    c.need(12, 'metadata writes')
    c.rule('C07.empty', 'a directory is removed or replaced only when it is known to be empty (moving a directory, which has just got its new entry, excepted)')
    R = Roles(c)
    for m in STRUCT:
        A = c.fs(m)
        links = [p.e for p in puts(A) if is_link(p)]
        for p in puts(A):
            if not is_unlink(p):
                continue
            if moved(A, p.e, links):
                c.ob(1)
                continue
            f = p.e.facts
            ft = mk('disc', fld(p.base, 'file_type', 'Metadata'))
            sz = fld(p.base, 'size', 'Metadata')
            okk = A.g.established(p.e, lambda f: not_fact(f, ft, R.FT['Directory']) or holds(A, f, le(sz, ZERO)) is True or has_fact(f, sz, 0), [ft, sz])
            c.check(okk, m + '.empty', '%s removes the entry of `%s` although it may be a non-empty directory' % (m, show(p.node)[:80]), A, p.e, facts_str(f))
    c.need(3, 'entry removals')
    c.rule('C07.kind', 'remove_file removes only what is not a directory, remove_dir only directories')
    for m, want in (('remove_file', False), ('remove_dir', True)):
        A = c.fs(m)
        for p in puts(A):
            if is_unlink(p):
                ft = mk('disc', fld(p.base, 'file_type', 'Metadata'))
                f = p.e.facts.get(ft)
                okk = type(f) is frozenset and ((R.FT['Directory'] not in f) if not want else f == {R.FT['Directory']})
                c.check(okk, m + '.kind', '%s can remove a %s' % (m, 'file' if want else 'directory'), A, p.e)
    c.need(2, 'removals')


def node_valued(A, t):
    return any((x.op == 'fld' and x.a[1] == 'node' and (de_of(x.a[0]) or md_of(x.a[0]))) or (x.op == 'app' and x.a[0] == 'at') for x in A.sources(t))


def same_node_edges(A):
    """edges on which two resolved nodes are found to be the same"""
    if not hasattr(A, '_same'):
        A._same = set()
        for n in A.alive:
            for k, s in n.ins.items():
                if k[0] == 'entry':
                    continue
                pf = A.nodelist[k[0]].facts or {}
                for t, v in s.facts.items():
                    if t.op == 'eq0' and v == frozenset([1]) and pf.get(t) != v:
                        d = lin_parts(t.a[0])[1]
                        if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(node_valued(A, x) for x in d):
                            A._same.add((k[0], n.id))
    return A._same


def moved(A, e, links):
    """the entry removed at e is the old name of something that has just got a new name (rename); a second look-up
    finding source and destination equal is not possible after the first one found them different"""
    if not links:
        return False
    bad = same_node_edges(A) if A.title.endswith('::rename') else set()
    return A.g.must_before(e, lambda x: any(x is y for y in links), lambda a, b: (a, b) not in bad)


def regular(c, A, facts, node):
    """node is known to be a regular file"""
    R = Roles(c)
    for t, v in facts.items():
        if t.op == 'disc' and t.a[0].op == 'fld' and t.a[0].a[1] == 'file_type':
            m = md_of(t.a[0].a[0])
            if m and same_node(m[1], node) and v == frozenset([R.FT['RegularFile']]):
                return True
    return False


# ------------------------------------------------------------------ C08
def coupled(A, D, I, N, seen=frozenset()):
    """N is the node recorded in entry I of directory D (loop invariant over path resolution; the starting
    directory itself, which has no entry, is refused separately)"""
    N = norm_node(N)
    if N.op == 'fld' and N.a[1] == 'node':
        d = de_of(N.a[0])
        if d:
            return d[1] is D and d[2] is I
    js = [x.a[0] for x in (D, I, N) if x.op == 'phi']
    if not js:
        return D is N
    J = A.nodelist[max(js, key=lambda i: A.prio(A.nodelist[i]))]
    if J.id in seen:
        return False
    for s in J.ins.values():
        (d, i, n), _ = edge_subst(A, J, s, [D, I, N], {})
        if not coupled(A, d, i, n, seen | {J.id}):
            return False
    return True


def c08(c):
    R = Roles(c)
    c.rule('C08.put', 'every directory entry added is accompanied by exactly one more link recorded for the node it names (or by the creation of that node with one link)')
    for m in STRUCT:
        A = c.fs(m)
        ups = [p.e for p in puts(A) if is_link(p) or (p.lit and fld(p.v, 'link_count', 'Metadata') is ONE)]
        paired(c, A, entput(A), ups, lambda x, y: same_node(ent_node(x), y.args[1]), m + '.put', '%s adds a directory entry without recording exactly one more link of its node' % m)
    c.need(8, 'put_direntry sites')
    c.rule('C08.rm', 'every directory entry removed is accompanied by exactly one link less for the node that entry names')
    for m in STRUCT:
        A = c.fs(m)
        un = [p for p in puts(A) if is_unlink(p)]
        paired(c, A, entrm(A), [p.e for p in un], lambda x, y: coupled(A, x.args[1], x.args[2], y.args[1]), m + '.rm', '%s removes a directory entry without recording one link less for the node it names' % m)
    c.need(4, 'rm_direntry sites')
    c.rule('C08.only', 'link counts change only together with directory entries')
    for m in c.fs_methods():
        if m in ('new', 'set_metadata', 'remove_recursive'):
            continue            # set_metadata is the raw interface: the caller supplies the whole record
        A = c.fs(m)
        for p in puts(A):
            if p.lit:
                c.check(fld(p.v, 'link_count', 'Metadata') is ONE, m + '.new', 'a node is created with link count `%s`' % show(fld(p.v, 'link_count', 'Metadata'))[:80], A, p.e)
                continue
            d = p.delta('link_count')
            if not c.check(d in (0, 1, -1) and p.md is not None, m + '.count', '%s writes metadata whose link count is not the stored one, plus or minus one: `%s`' % (m, show(p.v)[:200]), A, p.e):
                continue
            if d:
                ents = entput(A) if d == 1 else entrm(A)
                match = [x for x in ents if (same_node(ent_node(x), p.node) if d == 1 else coupled(A, x.args[1], x.args[2], p.node))]
                pr = lambda e: any(e is y for y in match)
                c.check(bool(match) and (A.g.must_before(p.e, pr) or not A.g.must_after(p.e, pr, may_ok(A))), m + '.link%+d' % d,
                        '%s changes the link count of `%s` by %+d without a directory entry added / removed' % (m, show(p.node)[:80], d), A, p.e)
    c.need(20, 'metadata writes')
    c.rule('C08.release', 'when the last link of a node goes away its storage is released before the operation reports success')
    for m in STRUCT:
        A = c.fs(m)
        links = [p.e for p in puts(A) if is_link(p)]
        for p in puts(A):
            if not is_unlink(p) or moved(A, p.e, links):
                continue
            left = p.ch['link_count']
            pred = lambda e: e.cls == STORAGE and e.meth == 'rm_file' and same_node(e.args[1], p.node)

            def edge_ok(a, b):
                for k, s in A.nodelist[b].ins.items():
                    if k[0] == a and not zero_known(A, s.facts, left, False):
                        return True
                return False
            bad = A.g.must_after(p.e, pred, may_ok(A), edge_ok)
            c.check(not bad, m + '.release', '%s can succeed after removing the last link of `%s` without releasing its storage' % (m, show(p.node)[:80]), A, p.e)
    c.need(3, 'unlink sites')
    c.rule('C08.rmfile', 'the storage of a node is released only after its last link was removed')
    for m in STRUCT + ['remove_recursive']:
        A = c.fs(m)
        un = [p for p in puts(A) if is_unlink(p)]
        for e in storage_events(A, 'rm_file'):
            ms = [p for p in un if same_node(p.node, e.args[1])]
            okk = bool(ms) and A.g.must_before(e, lambda x: any(x is p.e for p in ms)) and \
                all(A.g.established(e, lambda f, p=p: zero_known(A, f, p.ch['link_count'], True), [p.ch['link_count']]) for p in ms)
            c.check(okk, m + '.rmfile', '%s releases the storage of `%s` although links to it may remain' % (m, show(e.args[1])[:80]), A, e, facts_str(e.facts))
    c.need(3, 'rm_file sites')
    c.rule('C08.stale', 'metadata written back was read after the last change this operation made to the same node: no update is lost')
    for m in c.fs_methods():
        if m in ('new', 'remove_recursive'):
            continue
        A = c.fs(m)
        for p in puts(A):
            if p.md is None:
                continue
            c.ob(1)
            cur = p.e.args[0]
            for u in between(A, cur, p.md[0]):
                nm = u.a[0].split('::')[-1]
                if nm in ('put_metadata', 'write', 'resize_file', 'rm_file', 'mount_node', 'unmount_node', 'init_mounted_memory', 'store_mounted_memory') and \
                        (same_node(u.a[2], p.node) or (p.md and same_node(u.a[2], p.md[1]))):
                    c.viol('%s.stale' % m, '%s writes back metadata of `%s` that was read before %s changed it' % (m, show(p.node)[:80], nm), A, p.e)
            c.check(same_node(p.md[1], p.node), '%s.other' % m, '%s writes the metadata of `%s` into `%s`' % (m, show(p.md[1])[:80], show(p.node)[:80]), A, p.e)
    c.need(20, 'metadata write-backs')


def zero_known(A, f, t, zero):
    v = holds(A, f, eq(t, ZERO))
    if v is None:
        v = holds(A, f, le(t, ZERO))        # an unsigned number that is not positive
    if v is None:
        return False
    return v is zero


def between(A, cur, old):
    """updates applied to the storage between the states `old` and `cur` (through joins)"""
    out, seen, work = [], set(), [cur]
    while work:
        x = work.pop()
        if x in seen or x is old:
            continue
        seen.add(x)
        if x.op == 'upd':
            out.append(x)
            work.append(x.a[1])
        elif x.op == 'phi':
            work.extend(A.phi_in.get(x, ()))
    return out


# ------------------------------------------------------------------ C04
def c04(c):
    R = Roles(c)
    c.rule('C04.open', 'the last link of a node is removed only when no descriptor is known to be open on it')
    c4n = 0
    for m in STRUCT:
        A = c.fs(m)
        links = [p.e for p in puts(A) if is_link(p)]
        for p in puts(A):
            if not is_unlink(p) or moved(A, p.e, links):
                continue
            lc = fld(p.base, 'link_count', 'Metadata')

            def pred(f):
                if not_fact(f, lc, 1) or holds(A, f, eq(lc, ONE)) is False:
                    return True
                for t, v in f.items():
                    x = t.a[0] if t.op in ('disc',) else t
                    if x.op == 'app' and x.a[0] in ('get', 'at', 'at_or') and strip(x.a[1]) is R.REFS and same_node(x.a[2], p.node):
                        if t.op == 'disc' and v == frozenset([0]):
                            return True
                        if x is t and v == frozenset([0]):
                            return True
                    if t.op == 'phi' and v == frozenset([0]) and count_of(A, t, f):
                        return True
                    if t.op in ('le0', 'eq0'):
                        d = lin_parts(t.a[0])[1]
                        for y in d:
                            if holds(A, f, le(y, ZERO)) is True and count_of(A, y, f):
                                return True
                return False

            def count_of(A, y, f, node=p.node):
                """y is the number of descriptors open on the node, as counted (0 where nothing is counted)"""
                if not y.op in ('app', 'phi', 'fld'):
                    return False
                one = False
                for v, g in leaves(A, y, f):
                    if v is not None and v.op == 'app' and v.a[0] in ('at', 'at_or') and strip(v.a[1]) is R.REFS and same_node(v.a[2], node):
                        one = True
                    elif v is ZERO and any(t.op == 'disc' and w == frozenset([0]) and t.a[0].op == 'app' and t.a[0].a[0] == 'get' and strip(t.a[0].a[1]) is R.REFS
                                           and same_node(t.a[0].a[2], node) for t, w in g.items()):
                        pass
                    else:
                        return False
                return one
            c.check(A.g.established(p.e, pred, [p.base, p.node]), m + '.open', '%s can remove the last link of `%s` while a descriptor is open on it' % (m, show(p.node)[:80]), A, p.e)
    c.need(3, 'unlink sites')
    c.rule('C04.mounted', 'no entry of a mounted node is removed, and none is added to it')
    for m in STRUCT:
        A = c.fs(m)
        links = [p.e for p in puts(A) if is_link(p)]
        for p in puts(A):
            if not (is_unlink(p) or is_link(p)):
                continue
            if is_unlink(p) and moved(A, p.e, links):
                continue        # refused when the new name was made: covered by the check of the link
            pred = lambda f: any(sapp(t, 'is_mounted') and v == frozenset([0]) and same_node(t.a[2], p.node) for t, v in f.items())
            c.check(A.g.established(p.e, pred, [p.base, p.node]), m + ('.rm' if is_unlink(p) else '.link'), '%s changes the links of `%s` although it may be mounted' % (m, show(p.node)[:80]), A, p.e)
    c.need(4, 'link changes')
    c.rule('C04.refs', 'the open counts consulted are those of the descriptor table of this file system')
    for m in STRUCT:
        A = c.fs(m)
        for e in A.events():
            if e.cls in ('BMap', 'HMap') and e.meth in ('get', 'contains_key') and e.recv is not None and e.args and e.args[0].op != 'phi' and strip(e.args[0]) is R.REFS:
                c.ob(1)
    c.need(3, 'consultations of the open counts')


# ------------------------------------------------------------------ C05
def names_path(c, R):
    mf = R.field('FilenameCache', lambda n, t: R.ismap(t))
    return (('f', R.f_names, 'FileSystem'), ('f', mf, 'FilenameCache'))


def on_place(e, A, path):
    return e.recv is not None and e.recv.op == 'ref' and e.recv.a[0] == ('p', A.argnames[0]) and tuple(e.recv.a[1][:len(path)]) == path


def cleared(A, T, seen=None):
    seen = seen or set()
    if T in seen:
        return True
    seen.add(T)
    if T.op == 'upd':
        return T.a[0] in ('clear', 'clear_new')
    if T.op == 'app' and T.a[0] == 'mapnew':
        return True
    if T.op == 'phi':
        return bool(A.phi_in.get(T)) and all(cleared(A, x, seen) for x in A.phi_in[T])
    return False


def provenance(A, t):
    """leaf terms a value is computed from: parameters and storage reads, not looking into storage states"""
    out, seen, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            work.extend(A.phi_in.get(x, ()))
        elif x.op == 'init':
            out.add(x)
        else:
            args = list(x.a)
            if x.op == 'app' and str(x.a[0]).startswith(STORAGE):
                args = args[:1] + args[2:]
                out.add(x)
            elif x.op == 'app' and x.a[0] == 'cbel':
                args = args[:1] + args[2:]      # element handed to a callback of the storage: not the storage state
            st = [a for a in args]
            while st:
                y = st.pop()
                if type(y) is tuple:
                    st.extend(y)
                elif isinstance(y, T):
                    work.append(y)
    return out


def c05(c):
    R = Roles(c)
    np_ = names_path(c, R)
    c.rule('C05.clear', 'whenever a directory entry is removed or renamed the name cache is emptied, and nothing is looked up or remembered between the two')
    for m in STRUCT:
        A = c.fs(m)
        me = ('p', A.argnames[0])
        for e in entrm(A):
            T = A.rd(engine.State(e.env, e.facts), me, np_)
            okk = cleared(A, T)
            if not okk:
                clr = lambda x: on_place(x, A, np_) and x.meth in ('clear', 'clear_new')
                evs, exits, _ = A.g.after(e, clr)
                okk = not exits and not any(on_place(x, A, np_) and x.meth in ('get', 'insert', 'contains_key') for x in evs)
            c.check(okk, m + '.clear', '%s removes a directory entry while the name cache may still hold names resolved through it' % m, A, e)
    c.need(4, 'entry removals')
    c.rule('C05.insert', 'a remembered node is the one the remembered (directory, path) pair resolves to: it was found, or created, starting from that directory and with that path')
    for m in STRUCT + ['open_metadata']:
        A = c.fs(m)
        for e in A.events():
            if not (on_place(e, A, np_) and e.meth == 'insert'):
                continue
            k, v = e.args[1], e.args[2]
            d, p = fld(k, '0', 'tuple'), fld(k, '1', 'tuple')
            okp = True
            for x in A.sources(v):
                if x is d:
                    continue
                if x.op == 'fld' and x.a[1] == 'node' and de_of(x.a[0]):
                    okp = okp and resolve_start(A, de_of(x.a[0])[1], d)
                elif sapp(x, 'new_node') or (x.op == 'app' and x.a[0].endswith('new_node')):
                    pass
                elif x.op == 'app' and x.a[0] == 'at' and x.a[2] is k:
                    pass
                else:
                    okp = False
            c.check(okp, m + '.node', '%s remembers for directory `%s` a node that was not resolved from it: `%s`' % (m, show(d)[:80], ' | '.join(show(x)[:80] for x in A.sources(v))), A, e)
            strs = lambda t: {x for x in provenance(A, t) if x.op == 'init' and x in strparams(c, A)}
            pv, pk = strs(v), strs(p)
            c.check(pv <= pk or not pv, m + '.path', '%s remembers under path `%s` a node resolved with another path' % (m, show(p)[:80]), A, e)
    c.need(8, 'cache insertions')
    c.rule('C05.key', 'a name is looked up in the cache under the directory descriptor and the path it was given with')
    for m in STRUCT + ['open_metadata']:
        if m == 'mount_memory_file':
            continue
        A = c.fs(m)
        names = A.argnames
        for e in A.events():
            if not (on_place(e, A, np_) and e.meth in ('get', 'contains_key', 'insert')):
                continue
            k = e.args[1]
            d, p = fld(k, '0', 'tuple'), fld(k, '1', 'tuple')
            ds = [x for x in provenance(A, d) if x.op == 'init' and x.a[0] in names[1:]]
            ps = [x for x in provenance(A, p) if x.op == 'init' and x.a[0] in names[1:]]
            okk = len(ds) == 1 and len(ps) == 1 and names.index(ps[0].a[0]) == names.index(ds[0].a[0]) + 1 and \
                d is fld(R.inner(R.entry(ds[0]), 'Dir'), 'node', 'Dir')
            c.check(okk, m + '.key', '%s uses cache key (`%s`, `%s`), not the directory and path it was called with' % (m, show(d)[:80], show(p)[:60]), A, e)
    c.need(12, 'cache accesses')


def strparams(c, A):
    r = set()
    for i in range(1, A.root['argc'] + 1):
        t = c.P.types[A.root['locals'][i]]
        if t.get('s') in ('&str',) or t.get('s', '').endswith('str'):
            r.add(mk('init', A.argnames[i - 1]))
    return r


def resolve_start(A, D, p, seen=None):
    seen = seen or set()
    for x in A.sources(D):
        if x in seen or x is p:
            continue
        seen.add(x)
        if x.op == 'fld' and x.a[1] == 'node' and de_of(x.a[0]):
            if not resolve_start(A, de_of(x.a[0])[1], p, seen):
                return False
        elif sapp(x, 'new_node'):
            pass
        else:
            return False
    return True
