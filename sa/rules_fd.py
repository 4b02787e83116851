"""Descriptor-level rules: C01 (rights), C02 (invalid descriptors), C03 (fd table), C11, C12."""
from core import *
from roles import *
from terms import *
import engine

RD, WR = 2, 64

# public operations taking descriptors: (parameter positions, required kind)
FDOPS = {
    'advice': ([1], 'any'), 'allocate': ([1], 'any'), 'close': ([1], 'any'), 'flush': ([1], 'File'),
    'renumber': ([1], 'any'), 'get_direntry': ([1], 'Dir'), 'with_direntries': ([1], 'Dir'),
    'read': ([1], 'File'), 'read_vec': ([1], 'File'), 'read_vec_with_offset': ([1], 'File'),
    'write': ([1], 'File'), 'write_vec': ([1], 'File'), 'write_vec_with_offset': ([1], 'File'),
    'seek': ([1], 'File'), 'tell': ([1], 'File'), 'metadata': ([1], 'any'), 'set_metadata': ([1], 'any'),
    'set_file_size': ([1], 'File'), 'set_file_size_limit': ([1], 'File'), 'set_accessed_time': ([1], 'any'),
    'set_modified_time': ([1], 'any'), 'get_stat': ([1], 'any'), 'set_stat': ([1], 'any'),
    'open_metadata': ([1], 'Dir'), 'open': ([1], 'Dir'), 'remove_file': ([1], 'Dir'), 'mkdir': ([1], 'Dir'),
    'create_open_directory': ([1], 'Dir'), 'remove_dir': ([1], 'Dir'), 'remove_recursive': ([1], 'Dir'),
    'create_hard_link': ([1, 3], 'Dir'), 'rename': ([1, 3], 'Dir'),
}


def err_name(A, v, facts):
    """set of error variants an exit value can carry (None = unknown)"""
    r = set()
    for s in A.sources(v):
        if s.op == 'agg' and s.a[1] == 'Err':
            for y in A.sources(s.a[3]):
                r.add(y.a[1] if y.op == 'agg' and y.a[0] == 'Error' else None)
        elif s.op == 'agg' and s.a[1] == 'Ok':
            pass
        else:
            r.add(None)
    return r


def c01(c):
    R = Roles(c)
    READS = ['read', 'read_vec', 'read_vec_with_offset']
    WRITES = ['write', 'write_vec', 'write_vec_with_offset', 'set_file_size']
    c.rule('C01.site', 'every storage read / write / resize performed on behalf of a descriptor operation acts on the node of an open file '
           'descriptor whose own rights are known, on that path, to contain the required right')
    for m in READS + WRITES:
        A = c.fs(m, split_fd)
        need = RD if m in READS else WR
        fd = R.param(A, 1)
        for e in storage_events(A, 'read', 'write', 'put_metadata', 'resize_file'):
            want = RD if e.meth == 'read' else WR
            for node in A.sources(e.args[1]):
                ok = node.op == 'fld' and node.a[1] == 'node' and rights_ok(A, e.facts, node.a[0], want)
                c.check(ok, '%s.%s' % (m, e.meth), 'Storage::%s on node `%s` without a dominating test of the %s right of the descriptor that owns the node'
                        % (e.meth, show(node)[:120], 'read' if want == RD else 'write'), A, e)
    c.need(7, 'storage accesses of the read/write/set_file_size family')
    c.rule('C01.exit', 'a read/write/resize operation cannot report success unless the descriptor is known to hold the required right')
    for m in READS + WRITES:
        A = c.fs(m, split_fd)
        want = RD if m in READS else WR
        fd = R.param(A, 1)
        f = R.inner(R.entry(fd), 'File')
        for n in A.exits:
            if 'Ok' in variant(A, n):
                c.check(rights_ok(A, n.outfacts, f, want), '%s.ok' % m,
                        '%s can return Ok although the %s right of the descriptor was not established' % (m, 'read' if want == RD else 'write'),
                        A, None, 'exit value %s' % show(n.exit)[:200])
    c.need(7, 'successful exits')
    c.rule('C01.stat', 'the rights/flags of a descriptor are those given when it was opened or by set_stat: no other operation changes them')
    for m in c.fs_methods():
        if not c.has('FileSystem', m):
            continue
        A = c.fs(m, split_fd)
        p = R.param_of_type(A, 'FdStat')
        for (e, k, new, old, facts) in entry_writes(c, R, A):
            check_stat(c, R, A, m, e, k, new, old, p)
    c.need(10, 'descriptor table writes')
    c.rule('C01.set', 'set_stat installs exactly the stat passed by the caller; get_stat reports the stat of the descriptor')
    A = c.fs('set_stat', split_fd)
    fd, p = R.param(A, 1), R.param_of_type(A, 'FdStat')
    for n in A.exits:
        if 'Ok' in variant(A, n):
            T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
            x = final_entry(A, n, T, fd)
            ok = x is not None and all(stat_of(v) is p for v in A.sources(x))
            c.check(ok, 'set_stat.final', 'after a successful set_stat the descriptor does not hold the stat passed by the caller: `%s`' % show(x or T)[:300], A)
    A = c.fs('get_stat', split_fd)
    for n in A.exits:
        if 'Ok' in variant(A, n):
            for v in A.sources(n.exit):
                if v.op == 'agg' and v.a[1] == 'Ok':
                    t = fld(v.a[3], '1', 'tuple')
                    ent = R.entry(R.param(A, 1))
                    ok = t in (fld(R.inner(ent, 'File'), 'stat', 'File'), fld(R.inner(ent, 'Dir'), 'stat', 'Dir'))
                    c.check(ok, 'get_stat', 'get_stat returns `%s`, not the stat of the descriptor' % show(t)[:200], A)
    c.need(4, 'exits of set_stat/get_stat')


def rights_ok(A, facts, f, want):
    b = app('band', fld(fld(f, 'stat', 'File'), 'rights_base', 'FdStat'), INT(want))
    return not_fact(facts, b, 0) or has_fact(facts, b, want)


def entry_writes(c, R, A):
    """(event, key, new entry, previous Option<entry>, facts) for every write to the descriptor table"""
    me = ('p', A.argnames[0])
    for e in A.events():
        if e.recv is None or e.recv.op != 'ref' or e.recv.a[0] != me:
            continue
        path = e.recv.a[1]
        if tuple(path[:2]) != R.p_tab:
            continue
        st = engine.State(e.env, e.facts)
        if e.cls in ('BMap', 'HMap') and e.meth == 'insert' and len(path) == 2:
            T = A.rd(st, me, R.p_tab)
            yield e, e.args[1], A.deepval(st, e.raw[2]), engine.mget(T, e.args[1], A, st), e.facts
        elif e.cls == 'store' and len(path) > 2 and path[2][0] == 'k':
            T = A.rd(st, me, R.p_tab)
            k = path[2][1]
            old = engine.mget(T, k, A, st)
            st2 = engine.State(dict(e.env), dict(e.facts))
            A.wr(st2, me, path, e.args[0])
            yield e, k, A.rd(st2, me, path[:3]), old, e.facts


def stat_of(ent):
    """stat terms of an FdEntry term"""
    if ent.op == 'agg' and ent.a[0] == 'FdEntry' and ent.a[2]:
        return fld(ent.a[3], 'stat', 'File' if ent.a[1] == 'File' else 'Dir')
    return None


def check_stat(c, R, A, m, e, k, new, old, p):
    for v in A.sources(new):
        s = stat_of(v)
        if s is None:
            # a whole entry moved from elsewhere in the table
            ok = v.op == 'app' and v.a[0] == 'at'
            c.check(ok, '%s.entry' % m, 'descriptor entry of unknown origin `%s` stored' % show(v)[:200], A, e)
            continue
        for s1 in A.sources(s):
            ok = s1 is p or prev_stat(v, k, s1) or (p is None and fresh_key(A, k))
            c.check(ok, '%s.stat' % m, 'the stat (rights/flags) stored for descriptor `%s` is `%s`, neither the one passed by the caller nor the one it had'
                    % (show(k)[:60], show(s1)[:200]), A, e)


def prev_stat(v, k, s1):
    """s1 is the stat of the entry already stored for key k (same kind)"""
    x = s1
    while x.op == 'with':
        return False
    if x.op != 'fld' or x.a[1] != 'stat':
        return False
    x = x.a[0]
    if x.op == 'fld' and x.a[1] in ('File.0', 'Dir.0'):
        x = x.a[0]
        return x.op == 'app' and x.a[0] == 'at' and x.a[2] is k
    return False


def fresh_key(A, k):
    """the key was just allocated (popped from the free list / taken from the counter), i.e. not a caller-supplied descriptor"""
    return all(s.op != 'init' for s in A.sources(k))


def final_entry(A, n, T, k):
    o = engine.mget(T, k, A, engine.State(n.edgefacts, n.outfacts))
    if o.op == 'agg' and o.a[1] == 'Some':
        return o.a[3]
    if o.op == 'app' and o.a[0] == 'get':
        return app('at', *o.a[1:])
    return None


# ------------------------------------------------------------------ C02
def exempt(A, R, m, facts, fd):
    """documented descriptors that need not be open"""
    st = engine.State({}, facts)
    if m == 'close' and has_fact(facts, fd, 3):
        return True
    if m in ('metadata', 'advice', 'allocate') and (A.truth(st, le(fd, INT(2))) is True):
        return True
    return False


MUT_MAP = {'insert', 'remove', 'clear', 'clear_new', 'pop_first', 'pop_last', 'retain', 'append', 'extend', 'push', 'pop', 'truncate', 'drain', 'swap_remove'}


def c02(c):
    R = Roles(c)
    c.rule('C02.ok', 'an operation reports success only on paths where every descriptor it was given is known to be open in the descriptor table '
           'and of the kind the operation needs')
    for m, (pos, kind) in FDOPS.items():
        A = c.fs(m, split_fd)
        for i in pos:
            fd = R.param(A, i)
            for n in A.exits:
                if 'Ok' not in variant(A, n):
                    continue
                f = n.outfacts
                if exempt(A, R, m, f, fd):
                    c.ob(1)
                    continue
                opened = has_fact(f, mk('disc', R.slot(fd)), 1)
                c.check(opened, '%s.open%d' % (m, i), '%s can succeed although descriptor argument %d is not known to be open' % (m, i), A, None,
                        'facts: ' + facts_str(f))
                if kind != 'any' and opened:
                    c.check(has_fact(f, mk('disc', R.entry(fd)), R.ED[kind]), '%s.kind%d' % (m, i),
                            '%s can succeed although descriptor argument %d is not known to be a %s descriptor' % (m, i, kind), A, None, 'facts: ' + facts_str(f))
    c.need(60, 'successful exits')
    c.rule('C02.effect', 'no state is modified (storage, descriptor table, free list) before the descriptors are known to be open and of the right kind')
    for m, (pos, kind) in FDOPS.items():
        A = c.fs(m, split_fd)
        me = ('p', A.argnames[0])
        for e in A.events():
            w = None
            if e.cls == STORAGE and e.meth in ST_MUT:
                w = 'Storage::' + e.meth
            elif e.recv is not None and e.recv.op == 'ref' and e.recv.a[0] == me and e.recv.a[1][:1] == R.p_tab[:1] and \
                    (e.cls == 'store' or e.meth in MUT_MAP):
                if e.meth == 'remove' and e.recv.a[1] == R.p_tab:
                    continue            # removing an absent key is no effect; the rules on its result decide the rest
                w = e.meth + ' on the descriptor table'
            if not w:
                continue
            for i in pos:
                fd = R.param(A, i)
                if exempt(A, R, m, e.facts, fd):
                    continue
                c.check(known_open(A, R, e.facts, fd), '%s.%s.%d' % (m, w, i), '%s: %s happens although descriptor argument %d is not known to be open' % (m, w, i), A, e)
                if kind != 'any':
                    c.check(has_fact(e.facts, mk('disc', R.entry(fd)), R.ED[kind]), '%s.%s.kind%d' % (m, w, i),
                            '%s: %s happens although descriptor argument %d is not known to be a %s descriptor' % (m, w, i, kind), A, e)
    c.need(100, 'mutating events')
    c.rule('C02.code', 'an operation on a descriptor that is not open fails with BadFileDescriptor')
    for m, (pos, kind) in FDOPS.items():
        A = c.fs(m, split_fd)
        for i in pos:
            fd = R.param(A, i)
            got = 0
            for n in A.exits:
                if has_fact(n.outfacts, mk('disc', R.slot(fd)), 0) and not exempt(A, R, m, n.outfacts, fd):
                    got += 1
                    c.check('Ok' not in variant(A, n) and err_name(A, n.exit, n.outfacts) == {'BadFileDescriptor'}, '%s.code%d' % (m, i),
                            '%s on a closed descriptor does not fail with BadFileDescriptor but `%s`' % (m, show(n.exit)[:200]), A)
    c.need(30, 'exits for closed descriptors')


def known_open(A, R, facts, fd):
    return has_fact(facts, mk('disc', R.slot(fd)), 1)


def facts_str(f):
    return '; '.join('%s=%s' % (show(k)[:100], sorted(v) if type(v) is frozenset else 'not %s' % sorted(v[1])) for k, v in list(f.items())[:8])


# ------------------------------------------------------------------ C03
def split_refs(t):
    if split_fd(t):
        return True
    x = t
    if x.phis:
        return False
    if x.op == 'disc':
        x = x.a[0]
        return x.op == 'app' and x.a[0] in ('get', 'at') and is_tab(x.a[1])
    if x.op in ('eq0', 'le0'):
        d = lin_parts(x.a[0])[1]
        return all(y.op == 'init' or (y.op == 'app' and y.a[0] in ('at', 'at_or') and is_tab(y.a[1])) for y in d)
    return x.op == 'app' and x.a[0] in ('at', 'at_or') and is_tab(x.a[1])


TABOPS = ['close', 'renumber', 'open', 'create_open_directory', 'set_stat', 'seek', 'read', 'read_vec', 'read_vec_with_offset', 'write',
          'write_vec', 'write_vec_with_offset', 'remove_file', 'remove_dir', 'mkdir', 'rename', 'create_hard_link', 'get_stat', 'tell', 'flush',
          'set_file_size', 'set_metadata', 'open_metadata', 'set_file_size_limit', 'set_accessed_time', 'set_modified_time']


def c03(c):
    R = Roles(c)
    c.rec_keep = (R.p_tab, R.p_refs)
    tr = {}
    for m in c.fs_methods():
        if m != 'new':
            tr[m] = c.fs(m, split_fd)
    c.rule('C03.fresh', 'a descriptor number that was not passed in by the caller is entered into the descriptor table only when it is known not to be in use')
    for m, A in tr.items():
        pos = FDOPS.get(m, ([], ''))[0] + ([2] if m == 'renumber' else [])
        params = [R.param(A, i) for i in pos]
        for (e, k, new, old, facts) in entry_writes(c, R, A):
            st = engine.State(e.env, facts)
            T = A.rd(st, ('p', A.argnames[0]), R.p_tab)
            o = engine.mget(T, k, A, st)
            isopen = (o.op == 'agg' and o.a[1] == 'Some') or has_fact(facts, mk('disc', o), 1)
            free = (o.op == 'agg' and o.a[1] == 'None') or has_fact(facts, mk('disc', o), 0)
            if m == 'renumber' and k is R.param(A, 2):
                c.check(not_fact(facts, k, 3), '%s.root' % m, 'renumber can replace the root descriptor', A, e)
                continue
            if not c.check(isopen or free, '%s.fresh' % m, 'descriptor number `%s` is put into use without knowing whether it is already open' % show(k)[:80], A, e):
                continue
            if isopen:
                n0 = node_of(R, A, facts, o.a[3] if o.op == 'agg' else app('at', *o.a[1:]))
                n1 = node_of(R, A, facts, new)
                okk = n0 is not None and n0 is n1
                if not okk and n1 is not None:
                    made = {node_of(R, A, f2, v2) for (e2, k2, v2, o2, f2) in entry_writes(c, R, A) if k2 is k}
                    okk = all(same_slot_node(x, k, made) for x in A.sources(fld_src(A, n1)))
                c.check(okk, '%s.overwrite' % m, 'the entry of the open descriptor `%s` is overwritten with one of another file: `%s`' % (show(k)[:80], show(new)[:200]), A, e)
            else:
                c.check(k not in params, '%s.param' % m, 'descriptor `%s` is opened at a number chosen by the caller' % show(k)[:80], A, e)
    c.need(15, 'descriptor table writes')
    c.rule('C03.range', 'numbers enter the free list only if they are at least 4; the counter starts at 4 or above and only grows; the root descriptor is never removed')
    for m, A in tr.items():
        me = ('p', A.argnames[0])
        for e in A.events():
            if e.recv is None or e.recv.op != 'ref' or e.recv.a[0] != me:
                continue
            path = e.recv.a[1]
            st = engine.State(e.env, e.facts)
            if tuple(path[:2]) == R.p_free and e.meth in ('push', 'push_back', 'push_front', 'insert', 'extend', 'append'):
                for k in A.sources(e.args[1]):
                    c.check(A.truth(st, le(INT(4), k)) is True or alloc_key(R, k), '%s.free' % m,
                            'descriptor number `%s` is put on the free list although it may be below 4 (standard streams / root)' % show(k)[:80], A, e)
            if tuple(path[:2]) == R.p_next and e.cls == 'store':
                d = sub(e.args[0], e.pre)
                c.check(d.op == 'int' and d.a[0] > 0, '%s.next' % m, 'the descriptor counter is changed from `%s` to `%s`' % (show(e.pre)[:80], show(e.args[0])[:80]), A, e)
            if tuple(path[:2]) == R.p_tab and e.meth == 'remove':
                for k in A.sources(e.args[1]):
                    c.check(not_fact(e.facts, k, 3) or alloc_key(R, k) or A.truth(st, le(INT(4), k)) is True, '%s.rmroot' % m, 'descriptor `%s` is removed without knowing that it is not the root descriptor' % show(k)[:80], A, e)
                    pos = FDOPS.get(m, ([], ''))[0] + ([2] if m == 'renumber' else [])
                    c.check((k in [R.param(A, i) for i in pos] and m in ('close', 'renumber')) or k.op != 'init', '%s.rmother' % m, '%s removes descriptor `%s`' % (m, show(k)[:80]), A, e)
            elif tuple(path[:2]) == R.p_tab and e.meth in MUT_MAP and e.meth != 'insert':
                c.check(False, '%s.bulk' % m, 'bulk modification %s of the descriptor table' % e.meth, A, e)
    A = c.an('FdTable', 'new')
    for n in A.exits:
        x = fld(n.exit, R.f_next, 'FdTable')
        c.check(x.op == 'int' and x.a[0] >= 4, 'init', 'the descriptor counter starts at `%s`' % show(x), A)
    c.need(20, 'free list / counter / removal sites')
    c.rule('C03.refs', 'for every exit of every descriptor operation: the change of the per-node count of open descriptors equals the number of '
           'table entries of that node added minus removed')
    for m in ['close', 'renumber', 'open', 'set_stat', 'seek', 'read', 'read_vec', 'write', 'write_vec', 'create_open_directory', 'mkdir', 'remove_file', 'remove_dir']:
        A = c.fs(m, split_refs)
        for n in A.exits:
            refs_balance(c, R, A, m, n)
    c.need(60, 'exits')
    c.rule('C03.effect', 'a successful close removes exactly its descriptor; a successful renumber moves the entry unchanged and frees the source')
    A = c.fs('close', split_refs)
    fd = R.param(A, 1)
    for n in A.exits:
        if 'Ok' in variant(A, n) and not has_fact(n.outfacts, fd, 3):
            T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
            c.check(T is mk('upd', 'remove', R.TAB, fd), 'close', 'a successful close leaves the table as `%s`' % show(T)[:200], A)
    A = c.fs('renumber', split_refs)
    fr, to = R.param(A, 1), R.param(A, 2)
    for n in A.exits:
        T = R.read(A, n.edgefacts, n.outfacts, R.p_tab)
        if 'Ok' in variant(A, n):
            st = engine.State(n.edgefacts, n.outfacts)
            if A.truth(st, eq(fr, to)) is True:
                c.check(T is R.TAB, 'renumber.same', 'renumber onto itself changes the table', A)
                continue
            a, b = engine.mget(T, fr, A, st), engine.mget(T, to, A, st)
            c.check(a.op == 'agg' and a.a[1] == 'None', 'renumber.src', 'after renumber the source descriptor is still open: `%s`' % show(a)[:150], A)
            c.check(b.op == 'agg' and b.a[1] == 'Some' and b.a[3] is R.entry(fr), 'renumber.dst', 'after renumber the destination holds `%s`, not the source entry' % show(b)[:200], A)
        else:
            c.check(T is R.TAB, 'renumber.err', 'a refused renumber changes the table', A)
    for m in ('open', 'create_open_directory', 'rename', 'create_hard_link'):
        A = c.fs(m, split_fd)
        keys = set()
        for (e, k, new, old, facts) in entry_writes(c, R, A):
            keys |= {k} | A.sources(k)
        for n in A.exits:
            for s in A.sources(n.exit):
                if s.op == 'agg' and s.a[1] == 'Ok':
                    for x in {s.a[3]} | A.sources(s.a[3]):
                        if x.op == 'phi' and x in A.phi_in and x not in keys:
                            continue
                        c.check(x in keys, '%s.ret' % m, '%s returns `%s`, which is not a descriptor it put into the table' % (m, show(x)[:100]), A)
    c.need(8, 'close / renumber / open exits')


def alloc_key(R, k):
    return k.op == 'phi' or (k.op in ('fld', 'app', 'lin') and k.op != 'init')


def node_of(R, A, f, ent):
    """node term of an FdEntry term"""
    if ent.op == 'agg' and ent.a[0] == 'FdEntry' and ent.a[2]:
        return fld(ent.a[3], 'node', 'File' if ent.a[1] == 'File' else 'Dir')
    for kind, d in R.ED.items():
        if has_fact(f, mk('disc', ent), d):
            return fld(R.inner(ent, kind), 'node', kind)
    return None


def refs_balance(c, R, A, m, n):
    balance_at(c, R, A, m, n.edgefacts, n.outfacts, set())


def edge_subst(A, J, s, terms, facts):
    """terms/facts valid after join node J, rewritten for the in-edge state s"""
    m = {}
    for t in list(terms) + list(facts):
        for x in subterms(t):
            if x.op == 'phi' and x.a[0] == J.id and x not in m:
                m[x] = A.phi_on_edge(x, s)
    m = {k: v for k, v in m.items() if v is not None and v is not k}
    f = dict(s.facts)
    memo = {}
    ok = True
    for t, v in facts.items():
        y = t if J.id not in t.phis else substitute(t, m, memo)
        if y.op == 'not' and type(v) is frozenset and v <= {0, 1}:
            y, v = y.a[0], frozenset(1 - x for x in v)
        if y.op == 'disc' and y.a[0].op == 'agg':
            k = A.enum_discr(y.a[0].a[0], y.a[0].a[1])
            y = y if k is None else INT(k)
        if y.op == 'int' and type(v) is frozenset and y.a[0] not in v:
            ok = False
        elif y.op == 'int' and type(v) is tuple and y.a[0] in v[1]:
            ok = False
        o = f.get(y)
        if o is None and y.op in ('eq0', 'le0', 'sle0') and type(v) is frozenset and len(v) == 1:
            tv = A.truth(engine.State({}, s.facts), y)
            if tv is not None and int(tv) not in v:
                ok = False
        if o is not None and o != v:
            v = meet(o, v)
            if v == frozenset():
                ok = False
        f[y] = v
    if not ok:
        f = None        # infeasible combination
    return [substitute(t, m, memo) for t in terms], f


def meet(a, b):
    """conjunction of two value facts (frozenset: one of; ('not', set): none of)"""
    if type(a) is frozenset and type(b) is frozenset:
        return a & b
    if type(a) is frozenset:
        return a - frozenset(b[1])
    if type(b) is frozenset:
        return b - frozenset(a[1])
    return (a[0], frozenset(a[1]) | frozenset(b[1]))


def balance_at(c, R, A, m, env, f, seen):
    T = R.read(A, env, f, R.p_tab)
    M = R.read(A, env, f, R.p_refs)
    balance_terms(c, R, A, m, T, M, f, seen)


def balance_terms(c, R, A, m, T, M, f, seen):
    st = engine.State({}, f)
    ts, tb = chain(T)
    ms, mb = chain(M)
    jn = [b.a[0] for b in (tb, mb) if b.op == 'phi']
    if jn:
        J = A.nodelist[max(jn, key=lambda i: A.prio(A.nodelist[i]))]
        if J.id in seen:
            c.check(False, '%s.joined' % m, 'the descriptor table after %s could not be related to the one before: `%s` / `%s`' % (m, show(T)[:150], show(M)[:150]), A)
            return
        for s in J.ins.values():
            (T2, M2), f2 = edge_subst(A, J, s, [T, M], f)
            if f2 is None:
                continue
            balance_terms(c, R, A, m, T2, M2, f2, seen | {J.id})
        return
    if T is R.TAB:
        c.check(M is R.REFS, '%s.refs0' % m, '%s: the count of open descriptors changes although the table does not' % m, A)
        return
    ops, base = ts, tb
    if base is not R.TAB:
        c.check(False, '%s.base' % m, 'the table after %s could not be related to the table before: `%s`' % (m, show(T)[:150]), A)
        return
    cur = {}
    delta = {}

    def bump(ent, k):
        nd = node_of(R, A, f, ent)
        if nd is None:
            return False
        delta[nd] = delta.get(nd, 0) + k
        return True
    for o in reversed(ops):
        k = o.a[2]
        prev = engine.mget(o.a[1], k, A, st)
        if prev.op == 'app':
            if has_fact(f, mk('disc', prev), 1):
                # look through table updates that cannot concern this key
                p = app('at', *prev.a[1:])
            elif has_fact(f, mk('disc', prev), 0):
                p = None
            else:
                c.check(False, '%s.unknown' % m, '%s: entry `%s` overwritten or removed without looking at what it held' % (m, show(k)[:60]), A)
                return
        else:
            p = prev.a[3] if prev.a[1] == 'Some' else None
        okk = True
        if p is not None:
            okk = bump(p, -1)
        if o.a[0] == 'insert':
            okk = bump(o.a[3], 1) and okk
        if not okk:
            c.check(False, '%s.kind' % m, '%s: node of a table entry unknown' % m, A)
            return
    mops, mbase = chain(M)
    keys = list(delta)
    for o in mops:
        if o.a[0] in ('insert', 'remove') and o.a[2] not in keys:
            keys.append(o.a[2])
    if mbase is not R.REFS:
        c.check(False, '%s.refsjoined' % m, 'the descriptor counts after %s could not be related to those before: `%s`' % (m, show(M)[:200]), A)
        return
    for part in partitions(keys):
        cls = {}
        for i, g in enumerate(part):
            for k in g:
                cls[k] = i
        if any(A.truth(st, eq(a, b)) is False for g in part for a in g for b in g if a is not b):
            continue
        r0 = [mk('init', 'count%d' % i) for i in range(len(part))]

        def ev_map(mm, i):
            while mm.op == 'upd':
                if mm.a[0] not in ('insert', 'remove'):
                    return None
                j = cls.get(mm.a[2])
                if j is None:
                    return None
                if j == i:
                    return ev(mm.a[3]) if mm.a[0] == 'insert' else ZERO
                mm = mm.a[1]
            return r0[i] if mm is R.REFS else None

        def ev(t):
            if t.op == 'int':
                return t
            if t.op == 'lin':
                r = INT(t.a[0])
                for k, x in t.a[1]:
                    y = ev(x)
                    if y is None:
                        return None
                    r = add(r, scale(y, k))
                return r
            if t.op == 'app' and t.a[0] in ('at', 'at_or') and t.a[2] in cls:
                return ev_map(t.a[1], cls[t.a[2]])
            return None
        # constraints
        bounds = {i: [min_open(R, A, f, st, g), None] for i, g in enumerate(part)}
        feas = True
        for t, v in f.items():
            if t.op == 'disc' and t.a[0].op == 'app' and t.a[0].a[0] == 'get' and t.a[0].a[2] in cls and strip(t.a[0].a[1]) is R.REFS and type(v) is frozenset and len(v) == 1:
                x = ev_map(t.a[0].a[1], cls[t.a[0].a[2]])
                present = next(iter(v)) == 1
                feas = feas and constrain(bounds, r0, x, 1, None, None) if present else feas and constrain(bounds, r0, x, None, 0, None)
            elif t.op in ('le0', 'eq0') and type(v) is frozenset and len(v) == 1:
                x = ev(t.a[0])
                if x is not None:
                    val = next(iter(v)) != 0
                    if t.op == 'le0':
                        feas = feas and (constrain(bounds, r0, x, None, 0, None) if val else constrain(bounds, r0, x, 1, None, None))
                    elif val:
                        feas = feas and constrain(bounds, r0, x, 0, 0, None)
                    else:
                        feas = feas and constrain(bounds, r0, x, None, None, 0)
            elif t.op == 'app' and t.a[0] in ('at', 'at_or') and t.a[2] in cls:
                x = ev(t)
                if x is not None and type(v) is frozenset and len(v) == 1:
                    w = next(iter(v))
                    feas = feas and constrain(bounds, r0, x, w, w, None)
                elif x is not None and type(v) is tuple:
                    for w in v[1]:
                        feas = feas and constrain(bounds, r0, x, None, None, w)
        if not feas:
            continue
        for i, g in enumerate(part):
            d = sum(delta.get(k, 0) for k in g)
            x = ev_map(M, i)
            lo, hi = bounds[i]
            okk = False
            if x is not None:
                diff = sub(x, add(r0[i], INT(d)))
                if diff.op == 'int':
                    okk = diff.a[0] == 0
                elif lo is not None and lo == hi:
                    diff = substitute(diff, {r0[i]: INT(lo)})
                    okk = diff.op == 'int' and diff.a[0] == 0
            c.check(okk, '%s.count' % m, '%s: the number of open descriptors of node `%s` should change by %+d but the count becomes `%s` (before: %s)'
                    % (m, show(g[0])[:100], d, show(x) if x is not None else '?', show(r0[i])), A, None, 'facts: ' + facts_str(f))


def min_open(R, A, f, st, g):
    """how many different descriptors are known to be open initially on the nodes of class g"""
    fds = []
    for k in g:
        if entry_open(R, A, f, k):
            fd = k.a[0].a[0].a[2]
            if all(A.truth(st, eq(fd, x)) is False for x in fds):
                fds.append(fd)
    return len(fds)


def entry_open(R, A, f, nodeterm):
    """nodeterm is the node of an entry that is open initially"""
    x = nodeterm
    if x.op == 'fld' and x.a[1] == 'node':
        x = x.a[0]
        if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'at':
            y = x.a[0]
            return strip(y.a[1]) is R.TAB and has_fact(f, mk('disc', app('get', *y.a[1:])), 1)
    return False


def constrain(bounds, r0, x, lo, hi, ne):
    """add the constraint lo <= x <= hi / x != ne on a linear form over one count; False if contradictory"""
    if x is None:
        return True
    cst, d = lin_parts(x)
    if not d:
        if lo is not None and cst < lo or hi is not None and cst > hi or ne is not None and cst == ne:
            return False
        return True
    if len(d) != 1:
        return True
    (v, k), = d.items()
    if k != 1 or v not in r0:
        return True
    b = bounds[r0.index(v)]
    if lo is not None:
        b[0] = max(b[0] or 0, lo - cst)
    if hi is not None:
        b[1] = hi - cst if b[1] is None else min(b[1], hi - cst)
    if ne is not None:
        w = ne - cst
        if b[0] == w:
            b[0] = w + 1
        if b[1] == w:
            b[1] = w - 1
    return b[1] is None or (b[0] or 0) <= b[1]


def partitions(xs):
    if not xs:
        yield []
        return
    if len(xs) > 4:
        yield [[x] for x in xs]
        yield [list(xs)]
        return
    x, rest = xs[0], xs[1:]
    for p in partitions(rest):
        for i in range(len(p)):
            yield p[:i] + [[x] + p[i]] + p[i + 1:]
        yield [[x]] + p


def fld_src(A, t):
    """sources of a field of a joined value"""
    if t.op == 'fld' and t.a[0].op == 'phi':
        xs = [fld(x, t.a[1], t.a[2]) for x in A.sources(t.a[0])]
        if len(xs) == 1:
            return xs[0]
        return mk('alts', *sorted(xs, key=lambda x: x.id))
    return t


def same_slot_node(x, k, made):
    if x.op == 'alts':
        return all(same_slot_node(y, k, made) for y in x.a)
    if x in made:
        return True
    if x.op == 'fld' and x.a[1] == 'node':
        y = x.a[0]
        if y.op == 'fld' and y.a[1] in ('File.0', 'Dir.0'):
            y = y.a[0]
        return y.op == 'app' and y.a[0] == 'at' and y.a[2] is k
    return False
